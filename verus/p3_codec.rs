// ---------------------------------------------------------------------------------------------------------------
// The SSZ schema of a type: its values, its wire format, and the laws each implementation has to prove
// ---------------------------------------------------------------------------------------------------------------
pub trait Ssz: Sized {
    /// abstract values
    type V;

    spec fn v(&self) -> Self::V;

    /// the representation invariant of the Rust value
    spec fn wf(&self) -> bool;

    /// abstract values the type can hold
    spec fn valid(v: Self::V) -> bool;

    /// the lengths that depend on the type alone fit a usize
    spec fn ok() -> bool;

    spec fn fixed() -> bool;

    /// length of the fixed part: the encoded length of a fixed-size type, 4 for a variable-size one
    spec fn flen() -> nat;

    /// the serialization
    spec fn enc(v: Self::V) -> Seq<u8>;

    /// the value the bytes serialize
    spec fn dec(b: Seq<u8>) -> Option<Self::V>;

    /// round trips are claimed
    spec fn rt() -> bool;

    /// at most one encoding of each value is accepted
    spec fn strict() -> bool;

    proof fn law_wf(&self)
        requires self.wf(), Self::ok()
        ensures Self::valid(self.v());

    proof fn law_len(v: Self::V)
        requires Self::valid(v), Self::ok()
        ensures Self::fixed() ==> Self::enc(v).len() == Self::flen(), Self::flen() <= usize::MAX, !Self::fixed() ==> Self::flen() == 4;

    proof fn law_flen()
        requires Self::ok()
        ensures Self::flen() <= usize::MAX, !Self::fixed() ==> Self::flen() == 4;

    proof fn law_dec(b: Seq<u8>)
        requires Self::dec(b) is Some, Self::ok()
        ensures Self::valid(Self::dec(b).unwrap()), Self::fixed() ==> b.len() == Self::flen();

    proof fn law_rt(v: Self::V)
        requires Self::rt(), Self::valid(v), Self::ok(), Self::enc(v).len() < pow32()
        ensures Self::dec(Self::enc(v)) == Some(v);

    proof fn law_strict(b: Seq<u8>)
        requires Self::strict(), Self::dec(b) is Some, Self::ok()
        ensures Self::enc(Self::dec(b).unwrap()) == b;
}

pub open spec fn part<T: Ssz>(v: T::V) -> Part { (T::fixed(), T::enc(v)) }

pub open spec fn slot<T: Ssz>() -> Slot { (T::fixed(), T::flen()) }

/// an encoding the library supports: offsets fit 32 bits, and it is no longer than what memory may be reserved
pub open spec fn small(n: nat) -> bool { n < pow32() && n <= mem_limit() }

pub proof fn lemma_part<T: Ssz>(v: T::V)
    requires T::ok(), T::valid(v)
    ensures
        pfl(part::<T>(v)) == T::flen(),
        T::enc(v).len() <= plen(part::<T>(v)),
        T::fixed() ==> plen(part::<T>(v)) == T::flen() && T::enc(v).len() == T::flen(),
        !T::fixed() ==> plen(part::<T>(v)) == 4 + T::enc(v).len(),
{
    lemma_plen(part::<T>(v));
    T::law_len(v);
}

// ---------------------------------------------------------------------------------------------------------------
// serde and hex (assumed behaviour of ethereum_serde_utils, hex and the serde data formats), arbitrary
// ---------------------------------------------------------------------------------------------------------------
pub open spec fn digit(x: int) -> char {
    if x == 0 { '0' } else if x == 1 { '1' } else if x == 2 { '2' } else if x == 3 { '3' } else if x == 4 { '4' } else if x == 5 { '5' }
    else if x == 6 { '6' } else if x == 7 { '7' } else if x == 8 { '8' } else if x == 9 { '9' } else if x == 10 { 'a' } else if x == 11 { 'b' }
    else if x == 12 { 'c' } else if x == 13 { 'd' } else if x == 14 { 'e' } else { 'f' }
}

/// a hex digit of either case
pub open spec fn nibble(c: char) -> Option<int> {
    if '0' <= c <= '9' { Some(c as int - '0' as int) }
    else if 'a' <= c <= 'f' { Some(c as int - 'a' as int + 10) }
    else if 'A' <= c <= 'F' { Some(c as int - 'A' as int + 10) }
    else { None }
}

/// "0x" and two lowercase digits for each byte
pub open spec fn hex0x(b: Seq<u8>) -> Seq<char> {
    seq!['0', 'x'] + Seq::new(2 * b.len(), |i: int| if i % 2 == 0 { digit(b[i / 2] as int / 16) } else { digit(b[i / 2] as int % 16) })
}

/// the bytes a 0x-prefixed, even-length hex string stands for
pub open spec fn unhex(s: Seq<char>) -> Option<Seq<u8>> {
    if s.len() >= 2 && s[0] == '0' && s[1] == 'x' && s.len() % 2 == 0 && forall|i: int| 2 <= i < s.len() ==> #[trigger] nibble(s[i]) is Some {
        Some(Seq::new(((s.len() - 2) / 2) as nat, |k: int| (16 * nibble(s[2 + 2 * k]).unwrap() + nibble(s[3 + 2 * k]).unwrap()) as u8))
    } else {
        None
    }
}

pub proof fn lemma_digit(x: int)
    requires 0 <= x < 16
    ensures nibble(digit(x)) == Some(x)
{
}

pub proof fn lemma_hex(b: Seq<u8>)
    ensures unhex(hex0x(b)) == Some(b), hex0x(b).len() == 2 + 2 * b.len()
{
    let s = hex0x(b);
    assert forall|i: int| 2 <= i < s.len() implies #[trigger] nibble(s[i]) == Some(if i % 2 == 0 { b[(i - 2) / 2] as int / 16 } else { b[(i - 2) / 2] as int % 16 }) by {
        lemma_digit(b[(i - 2) / 2] as int / 16);
        lemma_digit(b[(i - 2) / 2] as int % 16);
        assert((i - 2) % 2 == i % 2);
    }
    let u = unhex(s).unwrap();
    assert(u.len() == b.len());
    assert forall|k: int| 0 <= k < b.len() implies #[trigger] u[k] == b[k] by {
        assert((2 + 2 * k - 2) / 2 == k && (3 + 2 * k - 2) / 2 == k && (2 + 2 * k) % 2 == 0 && (3 + 2 * k) % 2 == 1);
        assert(nibble(s[2 + 2 * k]) == Some(b[k] as int / 16));
        assert(nibble(s[3 + 2 * k]) == Some(b[k] as int % 16));
    }
    assert(u =~= b);
}

/// serde round trip: what deserialization makes of a serialized value is the value
pub proof fn lemma_serde_round_trip<T: Ssz>(v: T::V)
    requires T::rt(), T::ok(), T::valid(v), T::enc(v).len() < pow32()
    ensures de_value::<T>(hex0x(T::enc(v))) == Some(v)
{
    lemma_hex(T::enc(v));
    T::law_rt(v);
}

pub open spec fn de_value<T: Ssz>(s: Seq<char>) -> Option<T::V> {
    match unhex(s) { Some(b) => T::dec(b), None => None }
}

#[verifier::external_body]
pub fn hex_encode(b: Vec<u8>) -> (r: String)
    ensures r@ == hex0x(b@)
{
    unimplemented!()
}

pub trait Serializer: Sized {
    type Ok;
    type Error;
    /// what comes of writing a string
    spec fn written(self, s: Seq<char>) -> Result<Self::Ok, Self::Error>;
    spec fn written_bytes(self, s: Seq<u8>) -> Result<Self::Ok, Self::Error>;
    fn serialize_str(self, s: &String) -> (r: Result<Self::Ok, Self::Error>)
        ensures r == self.written(s@);
    fn serialize_bytes(self, s: &[u8]) -> (r: Result<Self::Ok, Self::Error>)
        ensures r == self.written_bytes(s@);
}

pub trait DeError: Sized {
    fn custom(s: String) -> Self;
}

pub trait Visitor: Sized {
    type Value;
    spec fn takes(s: Seq<char>) -> bool;
    spec fn made(s: Seq<char>, x: Self::Value) -> bool;
}

pub struct PrefixedHexVisitor;

impl Visitor for PrefixedHexVisitor {
    type Value = Vec<u8>;
    open spec fn takes(s: Seq<char>) -> bool { unhex(s) is Some }
    open spec fn made(s: Seq<char>, x: Vec<u8>) -> bool { unhex(s) == Some(x@) }
}

/// accepts hex with and without the prefix
pub struct HexVisitor;

pub uninterp spec fn unhex_any(s: Seq<char>) -> Option<Seq<u8>>;

impl Visitor for HexVisitor {
    type Value = Vec<u8>;
    open spec fn takes(s: Seq<char>) -> bool { unhex_any(s) is Some }
    open spec fn made(s: Seq<char>, x: Vec<u8>) -> bool { unhex_any(s) == Some(x@) }
}

pub trait Deserializer<'de>: Sized {
    type Error: DeError;
    /// the string in the input, when there is one
    spec fn input(self) -> Option<Seq<char>>;
    fn deserialize_str<V: Visitor>(self, v: V) -> (r: Result<V::Value, Self::Error>)
        ensures
            r is Ok <==> self.input() is Some && V::takes(self.input().unwrap()),
            r is Ok ==> V::made(self.input().unwrap(), r->Ok_0),
            // it lies in memory
            self.input() is Some ==> self.input().unwrap().len() <= mem_limit();
}

pub proof fn lemma_unhex_len(s: Seq<char>)
    requires unhex(s) is Some
    ensures 2 + 2 * unhex(s).unwrap().len() == s.len()
{
}

// --- arbitrary 1.x ---------------------------------------------------------------------------------------------------
pub enum ArbError { EmptyChoose, NotEnoughData, IncorrectFormat }

pub type ArbResult<T> = Result<T, ArbError>;

/// the first n bytes of the data, zeros once it has run out
pub open spec fn filled(d: Seq<u8>, n: nat) -> Seq<u8> { Seq::new(n, |i: int| if i < d.len() { d[i] } else { 0u8 }) }

pub open spec fn rest(d: Seq<u8>, n: nat) -> Seq<u8> { if n <= d.len() { d.skip(n as int) } else { Seq::empty() } }

pub struct Unstructured<'a> {
    data: &'a [u8],
}

impl<'a> Unstructured<'a> {
    pub closed spec fn data(&self) -> Seq<u8> { self.data@ }

    pub fn fill_buffer(&mut self, b: &mut Vec<u8>) -> (r: ArbResult<()>)
        ensures r is Ok, final(b)@ == filled(old(self).data(), old(b)@.len()), final(self).data() == rest(old(self).data(), old(b)@.len())
    {
        let n = b.len();
        let ghost d = self.data@;
        let mut i: usize = 0;
        while i < n && i < self.data.len()
            invariant n == b@.len(), i <= n, i <= d.len(), d == self.data@, forall|k: int| 0 <= k < i ==> #[trigger] b@[k] == d[k]
            decreases n - i
        {
            b[i] = self.data[i];
            i = i + 1;
        }
        self.data = vstd::slice::slice_subrange(self.data, i, self.data.len());
        while i < n
            invariant n == b@.len(), i <= n, forall|k: int| 0 <= k < i ==> #[trigger] b@[k] == (if k < d.len() { d[k] } else { 0u8 }), i < n ==> i >= d.len()
            decreases n - i
        {
            b[i] = 0;
            i = i + 1;
        }
        proof { assert(b@ =~= filled(d, n as nat)); assert(self.data@ =~= rest(d, n as nat)); }
        Ok(())
    }

    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self.data().len(), r <= mem_limit()
    {
        unimplemented!()
    }

    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self.data().len() == 0)
    {
        self.data.len() == 0
    }

    /// `k` more bytes, or an error
    pub fn bytes(&mut self, k: usize) -> (r: ArbResult<&'a [u8]>)
        ensures
            r is Ok <==> k <= old(self).data().len(),
            r is Ok ==> r->Ok_0@ == old(self).data().take(k as int) && final(self).data() == rest(old(self).data(), k as nat),
            r is Err ==> final(self).data() == old(self).data()
    {
        if k <= self.data.len() {
            let d = self.data;
            self.data = vstd::slice::slice_subrange(d, k, d.len());
            proof { assert(self.data@ =~= rest(d@, k as nat)); }
            Ok(vstd::slice::slice_subrange(d, 0, k))
        } else {
            Err(ArbError::NotEnoughData)
        }
    }
}

pub trait Arbitrary: Sized {
    /// what the data `d` generates, and the data `e` it leaves
    spec fn arb(d: Seq<u8>, e: Seq<u8>, r: ArbResult<Self>) -> bool;
    fn arbitrary(u: &mut Unstructured<'_>) -> (r: ArbResult<Self>)
        ensures Self::arb(old(u).data(), final(u).data(), r);
}

impl Arbitrary for usize {
    open spec fn arb(d: Seq<u8>, e: Seq<u8>, r: ArbResult<usize>) -> bool { r is Ok && e == rest(d, 8) && r->Ok_0 == le_value(filled(d, 8)) }
    fn arbitrary(u: &mut Unstructured<'_>) -> (r: ArbResult<usize>) {
        let mut v: Vec<u8> = Vec::new();
        while v.len() < 8
            invariant v@.len() <= 8
            decreases 8 - v.len()
        {
            v.push(0);
        }
        let _ = u.fill_buffer(&mut v);
        let mut a = [0u8; 8];
        a.v_copy_from_slice(v.as_slice());
        Ok(usize::v_from_le_bytes(a))
    }
}

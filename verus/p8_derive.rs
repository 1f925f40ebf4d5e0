// ---------------------------------------------------------------------------------------------------------------
// Derived codecs: the schemas of containers with no and with one live field, field codecs, and what the derived
// decoders need about inputs of a fixed layout
// ---------------------------------------------------------------------------------------------------------------

pub proof fn lemma_pieces_le(b: Seq<u8>, l: Seq<Slot>)
    requires split_ok(b, l)
    ensures forall|i: int| 0 <= i < l.len() ==> (#[trigger] piece(b, l, i)).len() <= b.len()
{
    assert forall|i: int| 0 <= i < l.len() implies (#[trigger] piece(b, l, i)).len() <= b.len() by { lemma_split_bounds(b, l, i); }
}

/// all slots are of a fixed size: the input is cut at the running sums
pub proof fn lemma_cut_fixed(b: Seq<u8>, l: Seq<Slot>)
    requires forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).0
    ensures
        split_ok(b, l) <==> b.len() == lay_len(l),
        start(l, 0) == 0,
        start(l, l.len() as int) == lay_len(l),
        forall|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 ==> start(l, i + 1) == start(l, i) + l[i].1 && 0 <= start(l, i) && start(l, i + 1) <= lay_len(l)
            && piece(b, l, i) == b.subrange(start(l, i), start(l, i + 1)),
{
    hide(piece); hide(lay_len); hide(split_ok);
    lemma_cut_whole(b, l);
    assert forall|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 implies start(l, i + 1) == start(l, i) + l[i].1 && 0 <= start(l, i) && start(l, i + 1) <= lay_len(l)
        && piece(b, l, i) == b.subrange(start(l, i), start(l, i + 1)) by {
        lemma_cut_fixed_at(b, l, i);
    }
}

proof fn lemma_cut_whole(b: Seq<u8>, l: Seq<Slot>)
    requires forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).0
    ensures split_ok(b, l) <==> b.len() == lay_len(l), start(l, 0) == 0, start(l, l.len() as int) == lay_len(l)
{
    hide(piece); hide(lay_len);
    lemma_start_all(l);
    lemma_next_fixed(b, l, 0);
}

proof fn lemma_cut_fixed_at(b: Seq<u8>, l: Seq<Slot>, i: int)
    requires 0 <= i < l.len(), l[i].0
    ensures
        start(l, i + 1) == start(l, i) + l[i].1, 0 <= start(l, i), start(l, i + 1) <= lay_len(l),
        piece(b, l, i) == b.subrange(start(l, i), start(l, i + 1)),
{
    lemma_start_all(l);
    lemma_start(l, i);
    lemma_start_mono(l, 0, i);
    lemma_start_mono(l, i + 1, l.len() as int);
}

/// a union value: the selector, then the variant
pub closed spec fn sel(i: u8, e: Seq<u8>) -> Seq<u8> { seq![i] + e }

pub broadcast proof fn lemma_sel(i: u8, e: Seq<u8>)
    ensures #![trigger sel(i, e)] sel(i, e).len() == 1 + e.len(), sel(i, e)[0] == i, sel(i, e).skip(1) == e
{
    assert(sel(i, e).skip(1) =~= e);
}

pub broadcast proof fn lemma_sel_append(b: Seq<u8>, i: u8, e: Seq<u8>)
    ensures #[trigger] (b + sel(i, e)) == b.push(i) + e
{
    assert(b + sel(i, e) =~= b.push(i) + e);
}

pub proof fn lemma_sel_eta(b: Seq<u8>)
    requires b.len() > 0
    ensures sel(b[0], b.skip(1)) == b
{
    assert(seq![b[0]] + b.skip(1) =~= b);
}

// ---------------------------------------------------------------------------------------------------------------
// `#[ssz(with = "module")]`: a field of a type without Encode or Decode, and a module of functions that stand in for them.
// About type and module nothing is known but that they satisfy the contracts an implementation has to satisfy.
// ---------------------------------------------------------------------------------------------------------------
#[verifier::external_body]
pub struct KF<const I: usize> { x: u64 }

pub type F1 = KF<1>;
pub type F2 = KF<2>;

#[verifier::external_body]
pub struct KV { x: u64 }

/// the schema of such a field
pub struct KS<const I: usize> { pub x: KF<I> }

pub uninterp spec fn k_v<const I: usize>(x: KF<I>) -> KV;
pub uninterp spec fn k_wf<const I: usize>(x: KF<I>) -> bool;
pub uninterp spec fn k_valid<const I: usize>(v: KV) -> bool;
pub uninterp spec fn k_ok<const I: usize>() -> bool;
pub uninterp spec fn k_fixed<const I: usize>() -> bool;
pub uninterp spec fn k_flen<const I: usize>() -> nat;
pub uninterp spec fn k_enc<const I: usize>(v: KV) -> Seq<u8>;
pub uninterp spec fn k_dec<const I: usize>(b: Seq<u8>) -> Option<KV>;
pub uninterp spec fn k_rt<const I: usize>() -> bool;
pub uninterp spec fn k_strict<const I: usize>() -> bool;

/// the codec module of the field is one that satisfies the laws
pub axiom fn axiom_codec_wf<const I: usize>(x: KF<I>)
    ensures k_wf::<I>(x) && k_ok::<I>() ==> k_valid::<I>(k_v::<I>(x));
pub axiom fn axiom_codec_len<const I: usize>(v: KV)
    ensures k_ok::<I>() ==> k_flen::<I>() <= usize::MAX && (!k_fixed::<I>() ==> k_flen::<I>() == 4) && (k_fixed::<I>() && k_valid::<I>(v) ==> k_enc::<I>(v).len() == k_flen::<I>());
pub axiom fn axiom_codec_flen<const I: usize>()
    ensures k_ok::<I>() ==> k_flen::<I>() <= usize::MAX && (!k_fixed::<I>() ==> k_flen::<I>() == 4);
pub axiom fn axiom_codec_dec<const I: usize>(b: Seq<u8>)
    ensures k_ok::<I>() && k_dec::<I>(b) is Some ==> k_valid::<I>(k_dec::<I>(b).unwrap()) && (k_fixed::<I>() ==> b.len() == k_flen::<I>());
pub axiom fn axiom_codec_rt<const I: usize>(v: KV)
    ensures k_ok::<I>() && k_rt::<I>() && k_valid::<I>(v) && k_enc::<I>(v).len() < pow32() ==> k_dec::<I>(k_enc::<I>(v)) == Some(v);
pub axiom fn axiom_codec_strict<const I: usize>(b: Seq<u8>)
    ensures k_ok::<I>() && k_strict::<I>() && k_dec::<I>(b) is Some ==> k_enc::<I>(k_dec::<I>(b).unwrap()) == b;

impl<const I: usize> Ssz for KS<I> {
    type V = KV;
    open spec fn v(&self) -> KV { k_v::<I>(self.x) }
    open spec fn wf(&self) -> bool { k_wf::<I>(self.x) }
    open spec fn valid(v: KV) -> bool { k_valid::<I>(v) }
    open spec fn ok() -> bool { k_ok::<I>() }
    open spec fn fixed() -> bool { k_fixed::<I>() }
    open spec fn flen() -> nat { k_flen::<I>() }
    open spec fn enc(v: KV) -> Seq<u8> { k_enc::<I>(v) }
    open spec fn dec(b: Seq<u8>) -> Option<KV> { k_dec::<I>(b) }
    open spec fn rt() -> bool { k_rt::<I>() }
    open spec fn strict() -> bool { k_strict::<I>() }
    proof fn law_wf(&self) { axiom_codec_wf::<I>(self.x); }
    proof fn law_len(v: KV) { axiom_codec_len::<I>(v); }
    proof fn law_flen() { axiom_codec_flen::<I>(); }
    proof fn law_dec(b: Seq<u8>) { axiom_codec_dec::<I>(b); }
    proof fn law_rt(v: KV) { axiom_codec_rt::<I>(v); }
    proof fn law_strict(b: Seq<u8>) { axiom_codec_strict::<I>(b); }
}

// ---------------------------------------------------------------------------------------------------------------
// Selectors
// ---------------------------------------------------------------------------------------------------------------
#[derive(Debug)]
pub struct TryErr;

pub trait VTryInto<T>: Sized {
    fn v_try_into(self) -> (r: Result<T, TryErr>);
}

impl VTryInto<u8> for usize {
    fn v_try_into(self) -> (r: Result<u8, TryErr>)
        ensures self <= 255 ==> r == Ok::<u8, TryErr>(self as u8), self > 255 ==> r is Err
    {
        if self <= 255 { Ok(self as u8) } else { Err(TryErr) }
    }
}

macro_rules! v_narrow { ($($t:ty),*) => { $( verus! {
impl VTryInto<$t> for usize {
    fn v_try_into(self) -> (r: Result<$t, TryErr>)
        ensures self <= $t::MAX ==> r == Ok::<$t, TryErr>(self as $t), self > $t::MAX ==> r is Err
    {
        if self <= <$t>::MAX as usize { Ok(self as $t) } else { Err(TryErr) }
    }
}
} )* } }
v_narrow!(u16, u32);

pub open spec fn as_array<const N: usize>(s: Seq<u8>, r: Result<[u8; N], TryErr>) -> bool {
    match r { Ok(a) => s.len() == N && a@ == s, Err(_) => s.len() != N }
}

impl<const N: usize> VTryInto<[u8; N]> for &[u8] {
    fn v_try_into(self) -> (r: Result<[u8; N], TryErr>)
        ensures as_array::<N>(self@, r)
    {
        if self.len() == N {
            let mut a = [0u8; N];
            a.v_copy_from_slice(self);
            Ok(a)
        } else {
            Err(TryErr)
        }
    }
}

/// `From` between integers
pub trait VWiden<T>: Sized {
    fn v_widen(x: T) -> (r: Self);
}

macro_rules! v_widen { ($($t:ty: $($u:ty),*);*) => { $( $( verus! {
impl VWiden<$u> for $t {
    fn v_widen(x: $u) -> (r: $t)
        ensures r == x as $t
    {
        x as $t
    }
}
} )* )* } }
v_widen!(u8: u8, bool; u16: u8, u16, bool; u32: u8, u16, u32, bool; u64: u8, u16, u32, u64, bool; u128: u8, u16, u32, u64, u128, bool; usize: u8, u16, usize, bool);

/// `expect` where a panic is an outcome, not an error: it comes back only with a value
pub trait VOrPanic<T>: Sized {
    spec fn has(&self) -> Option<T>;
    fn v_or_panic(self) -> (r: T)
        ensures self.has() == Some(r);
}

impl<T> VOrPanic<T> for Option<T> {
    open spec fn has(&self) -> Option<T> { *self }
    fn v_or_panic(self) -> (r: T) { match self { Some(x) => x, None => v_rejects() } }
}

impl<T, E> VOrPanic<T> for Result<T, E> {
    open spec fn has(&self) -> Option<T> { match self { Ok(x) => Some(*x), Err(_) => None } }
    fn v_or_panic(self) -> (r: T) { match self { Ok(x) => x, Err(_) => v_rejects() } }
}

/// a panic as an outcome
#[verifier::external_body]
pub fn v_rejects() -> !
    ensures false
{
    unimplemented!()
}

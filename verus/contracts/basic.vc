# integers, bool, byte arrays, the alloy types, Option, Arc, NonZeroUsize (written by tools/gen_basic.py)
@@ raw
use ::core::mem;
broadcast use { axiom_mem_limit, lemma_le_len };

pub proof fn lemma_pow256s()
    ensures pow256(1) == 0x100, pow256(2) == 0x1_0000, pow256(4) == 0x1_0000_0000, pow256(8) == 0x1_0000_0000_0000_0000,
        pow256(16) == 0x1_0000_0000_0000_0000_0000_0000_0000_0000
{
    reveal_with_fuel(pow256, 17);
}

@@ raw

impl Ssz for u8 {
    type V = int;
    open spec fn v(&self) -> int { *self as int }
    open spec fn wf(&self) -> bool { true }
    open spec fn valid(v: int) -> bool { 0 <= v < pow256(1) }
    open spec fn ok() -> bool { true }
    open spec fn fixed() -> bool { true }
    open spec fn flen() -> nat { 1 }
    open spec fn enc(v: int) -> Seq<u8> { le_bytes(v, 1) }
    open spec fn dec(b: Seq<u8>) -> Option<int> { if b.len() == 1 { Some(le_value(b)) } else { None } }
    open spec fn rt() -> bool { true }
    open spec fn strict() -> bool { true }
    proof fn law_wf(&self) { lemma_pow256s();  }
    proof fn law_len(v: int) { lemma_le_len(v, 1); }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) { lemma_le_back(b); }
    proof fn law_rt(v: int) { lemma_le_len(v, 1); lemma_le_there(v, 1); }
    proof fn law_strict(b: Seq<u8>) { lemma_le_back(b); }
}

@@ impl Encode for u8
@@ fn Encode for u8::ssz_append
@start
    proof { lemma_pow256s(); }
@@ impl Decode for u8
@@ raw

impl Ssz for u16 {
    type V = int;
    open spec fn v(&self) -> int { *self as int }
    open spec fn wf(&self) -> bool { true }
    open spec fn valid(v: int) -> bool { 0 <= v < pow256(2) }
    open spec fn ok() -> bool { true }
    open spec fn fixed() -> bool { true }
    open spec fn flen() -> nat { 2 }
    open spec fn enc(v: int) -> Seq<u8> { le_bytes(v, 2) }
    open spec fn dec(b: Seq<u8>) -> Option<int> { if b.len() == 2 { Some(le_value(b)) } else { None } }
    open spec fn rt() -> bool { true }
    open spec fn strict() -> bool { true }
    proof fn law_wf(&self) { lemma_pow256s();  }
    proof fn law_len(v: int) { lemma_le_len(v, 2); }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) { lemma_le_back(b); }
    proof fn law_rt(v: int) { lemma_le_len(v, 2); lemma_le_there(v, 2); }
    proof fn law_strict(b: Seq<u8>) { lemma_le_back(b); }
}

@@ impl Encode for u16
@@ fn Encode for u16::ssz_append
@start
    proof { lemma_pow256s(); }
@@ impl Decode for u16
@@ raw

impl Ssz for u32 {
    type V = int;
    open spec fn v(&self) -> int { *self as int }
    open spec fn wf(&self) -> bool { true }
    open spec fn valid(v: int) -> bool { 0 <= v < pow256(4) }
    open spec fn ok() -> bool { true }
    open spec fn fixed() -> bool { true }
    open spec fn flen() -> nat { 4 }
    open spec fn enc(v: int) -> Seq<u8> { le_bytes(v, 4) }
    open spec fn dec(b: Seq<u8>) -> Option<int> { if b.len() == 4 { Some(le_value(b)) } else { None } }
    open spec fn rt() -> bool { true }
    open spec fn strict() -> bool { true }
    proof fn law_wf(&self) { lemma_pow256s();  }
    proof fn law_len(v: int) { lemma_le_len(v, 4); }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) { lemma_le_back(b); }
    proof fn law_rt(v: int) { lemma_le_len(v, 4); lemma_le_there(v, 4); }
    proof fn law_strict(b: Seq<u8>) { lemma_le_back(b); }
}

@@ impl Encode for u32
@@ fn Encode for u32::ssz_append
@start
    proof { lemma_pow256s(); }
@@ impl Decode for u32
@@ raw

impl Ssz for u64 {
    type V = int;
    open spec fn v(&self) -> int { *self as int }
    open spec fn wf(&self) -> bool { true }
    open spec fn valid(v: int) -> bool { 0 <= v < pow256(8) }
    open spec fn ok() -> bool { true }
    open spec fn fixed() -> bool { true }
    open spec fn flen() -> nat { 8 }
    open spec fn enc(v: int) -> Seq<u8> { le_bytes(v, 8) }
    open spec fn dec(b: Seq<u8>) -> Option<int> { if b.len() == 8 { Some(le_value(b)) } else { None } }
    open spec fn rt() -> bool { true }
    open spec fn strict() -> bool { true }
    proof fn law_wf(&self) { lemma_pow256s();  }
    proof fn law_len(v: int) { lemma_le_len(v, 8); }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) { lemma_le_back(b); }
    proof fn law_rt(v: int) { lemma_le_len(v, 8); lemma_le_there(v, 8); }
    proof fn law_strict(b: Seq<u8>) { lemma_le_back(b); }
}

@@ impl Encode for u64
@@ fn Encode for u64::ssz_append
@start
    proof { lemma_pow256s(); }
@@ impl Decode for u64
@@ raw

impl Ssz for u128 {
    type V = int;
    open spec fn v(&self) -> int { *self as int }
    open spec fn wf(&self) -> bool { true }
    open spec fn valid(v: int) -> bool { 0 <= v < pow256(16) }
    open spec fn ok() -> bool { true }
    open spec fn fixed() -> bool { true }
    open spec fn flen() -> nat { 16 }
    open spec fn enc(v: int) -> Seq<u8> { le_bytes(v, 16) }
    open spec fn dec(b: Seq<u8>) -> Option<int> { if b.len() == 16 { Some(le_value(b)) } else { None } }
    open spec fn rt() -> bool { true }
    open spec fn strict() -> bool { true }
    proof fn law_wf(&self) { lemma_pow256s();  }
    proof fn law_len(v: int) { lemma_le_len(v, 16); }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) { lemma_le_back(b); }
    proof fn law_rt(v: int) { lemma_le_len(v, 16); lemma_le_there(v, 16); }
    proof fn law_strict(b: Seq<u8>) { lemma_le_back(b); }
}

@@ impl Encode for u128
@@ fn Encode for u128::ssz_append
@start
    proof { lemma_pow256s(); }
@@ impl Decode for u128
@@ raw

impl Ssz for usize {
    type V = int;
    open spec fn v(&self) -> int { *self as int }
    open spec fn wf(&self) -> bool { true }
    open spec fn valid(v: int) -> bool { 0 <= v < pow256(8) }
    open spec fn ok() -> bool { true }
    open spec fn fixed() -> bool { true }
    open spec fn flen() -> nat { 8 }
    open spec fn enc(v: int) -> Seq<u8> { le_bytes(v, 8) }
    open spec fn dec(b: Seq<u8>) -> Option<int> { if b.len() == 8 { Some(le_value(b)) } else { None } }
    open spec fn rt() -> bool { true }
    open spec fn strict() -> bool { true }
    proof fn law_wf(&self) { lemma_pow256s();  }
    proof fn law_len(v: int) { lemma_le_len(v, 8); }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) { lemma_le_back(b); }
    proof fn law_rt(v: int) { lemma_le_len(v, 8); lemma_le_there(v, 8); }
    proof fn law_strict(b: Seq<u8>) { lemma_le_back(b); }
}

@@ impl Encode for usize
@@ fn Encode for usize::ssz_append
@start
    proof { lemma_pow256s(); }
@@ impl Decode for usize
@@ raw

impl Ssz for NonZeroUsize {
    type V = int;
    open spec fn v(&self) -> int { self.0 as int }
    open spec fn wf(&self) -> bool { self.0 != 0 }
    open spec fn valid(v: int) -> bool { 1 <= v < pow256(8) }
    open spec fn ok() -> bool { true }
    open spec fn fixed() -> bool { true }
    open spec fn flen() -> nat { 8 }
    open spec fn enc(v: int) -> Seq<u8> { le_bytes(v, 8) }
    open spec fn dec(b: Seq<u8>) -> Option<int> { if b.len() == 8 && le_value(b) != 0 { Some(le_value(b)) } else { None } }
    open spec fn rt() -> bool { true }
    open spec fn strict() -> bool { true }
    proof fn law_wf(&self) { lemma_pow256s();  }
    proof fn law_len(v: int) { lemma_le_len(v, 8); }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) { lemma_le_back(b); }
    proof fn law_rt(v: int) { lemma_le_len(v, 8); lemma_le_there(v, 8); }
    proof fn law_strict(b: Seq<u8>) { lemma_le_back(b); }
}

@@ impl Encode for NonZeroUsize
@@ impl Decode for NonZeroUsize
@@ raw

impl Ssz for U256 {
    type V = int;
    open spec fn v(&self) -> int { self.n() }
    open spec fn wf(&self) -> bool { true }
    open spec fn valid(v: int) -> bool { 0 <= v < pow256(32) }
    open spec fn ok() -> bool { true }
    open spec fn fixed() -> bool { true }
    open spec fn flen() -> nat { 32 }
    open spec fn enc(v: int) -> Seq<u8> { le_bytes(v, 32) }
    open spec fn dec(b: Seq<u8>) -> Option<int> { if b.len() == 32 { Some(le_value(b)) } else { None } }
    open spec fn rt() -> bool { true }
    open spec fn strict() -> bool { true }
    proof fn law_wf(&self) { lemma_pow256s(); self.axiom_range(); }
    proof fn law_len(v: int) { lemma_le_len(v, 32); }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) { lemma_le_back(b); }
    proof fn law_rt(v: int) { lemma_le_len(v, 32); lemma_le_there(v, 32); }
    proof fn law_strict(b: Seq<u8>) { lemma_le_back(b); }
}

@@ impl Encode for U256
@@ impl Decode for U256
@@ raw

impl Ssz for U128 {
    type V = int;
    open spec fn v(&self) -> int { self.n() }
    open spec fn wf(&self) -> bool { true }
    open spec fn valid(v: int) -> bool { 0 <= v < pow256(16) }
    open spec fn ok() -> bool { true }
    open spec fn fixed() -> bool { true }
    open spec fn flen() -> nat { 16 }
    open spec fn enc(v: int) -> Seq<u8> { le_bytes(v, 16) }
    open spec fn dec(b: Seq<u8>) -> Option<int> { if b.len() == 16 { Some(le_value(b)) } else { None } }
    open spec fn rt() -> bool { true }
    open spec fn strict() -> bool { true }
    proof fn law_wf(&self) { lemma_pow256s(); self.axiom_range(); }
    proof fn law_len(v: int) { lemma_le_len(v, 16); }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) { lemma_le_back(b); }
    proof fn law_rt(v: int) { lemma_le_len(v, 16); lemma_le_there(v, 16); }
    proof fn law_strict(b: Seq<u8>) { lemma_le_back(b); }
}

@@ impl Encode for U128
@@ impl Decode for U128
@@ raw
impl Ssz for bool {
    type V = bool;
    open spec fn v(&self) -> bool { *self }
    open spec fn wf(&self) -> bool { true }
    open spec fn valid(v: bool) -> bool { true }
    open spec fn ok() -> bool { true }
    open spec fn fixed() -> bool { true }
    open spec fn flen() -> nat { 1 }
    open spec fn enc(v: bool) -> Seq<u8> { seq![if v { 1u8 } else { 0u8 }] }
    open spec fn dec(b: Seq<u8>) -> Option<bool> { if b.len() == 1 && b[0] <= 1 { Some(b[0] == 1) } else { None } }
    open spec fn rt() -> bool { true }
    open spec fn strict() -> bool { true }
    proof fn law_wf(&self) { }
    proof fn law_len(v: bool) { }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) { }
    proof fn law_rt(v: bool) { }
    proof fn law_strict(b: Seq<u8>) { assert(Self::enc(Self::dec(b).unwrap()) =~= b); }
}
@@ impl Encode for bool
@@ fn Encode for bool::ssz_append
@start
    let ghost b0 = buf@;
    proof { reveal_with_fuel(le_bytes, 3); }
@finish
    proof { reveal_with_fuel(le_bytes, 3); assert(buf@ =~= b0 + Self::enc(self.v())); }
@@ impl Decode for bool

@@ raw
impl<const N: usize> Ssz for [u8; N] {
    type V = Seq<u8>;
    open spec fn v(&self) -> Seq<u8> { self@ }
    open spec fn wf(&self) -> bool { true }
    open spec fn valid(v: Seq<u8>) -> bool { v.len() == N }
    open spec fn ok() -> bool { true }
    open spec fn fixed() -> bool { true }
    open spec fn flen() -> nat { N as nat }
    open spec fn enc(v: Seq<u8>) -> Seq<u8> { v }
    open spec fn dec(b: Seq<u8>) -> Option<Seq<u8>> { if b.len() == N { Some(b) } else { None } }
    open spec fn rt() -> bool { true }
    open spec fn strict() -> bool { true }
    proof fn law_wf(&self) { }
    proof fn law_len(v: Seq<u8>) { }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) { }
    proof fn law_rt(v: Seq<u8>) { }
    proof fn law_strict(b: Seq<u8>) { }
}

@@ impl Encode for [u8;N]
@@ impl Decode for [u8;N]
@@ raw
impl<const N: usize> Ssz for FixedBytes<N> {
    type V = Seq<u8>;
    open spec fn v(&self) -> Seq<u8> { self.0@ }
    open spec fn wf(&self) -> bool { true }
    open spec fn valid(v: Seq<u8>) -> bool { v.len() == N }
    open spec fn ok() -> bool { true }
    open spec fn fixed() -> bool { true }
    open spec fn flen() -> nat { N as nat }
    open spec fn enc(v: Seq<u8>) -> Seq<u8> { v }
    open spec fn dec(b: Seq<u8>) -> Option<Seq<u8>> { if b.len() == N { Some(b) } else { None } }
    open spec fn rt() -> bool { true }
    open spec fn strict() -> bool { true }
    proof fn law_wf(&self) { }
    proof fn law_len(v: Seq<u8>) { }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) { }
    proof fn law_rt(v: Seq<u8>) { }
    proof fn law_strict(b: Seq<u8>) { }
}

@@ impl Encode for FixedBytes<N>
@@ impl Decode for FixedBytes<N>
@@ raw
impl Ssz for Address {
    type V = Seq<u8>;
    open spec fn v(&self) -> Seq<u8> { self.0.0@ }
    open spec fn wf(&self) -> bool { true }
    open spec fn valid(v: Seq<u8>) -> bool { v.len() == 20 }
    open spec fn ok() -> bool { true }
    open spec fn fixed() -> bool { true }
    open spec fn flen() -> nat { 20 as nat }
    open spec fn enc(v: Seq<u8>) -> Seq<u8> { v }
    open spec fn dec(b: Seq<u8>) -> Option<Seq<u8>> { if b.len() == 20 { Some(b) } else { None } }
    open spec fn rt() -> bool { true }
    open spec fn strict() -> bool { true }
    proof fn law_wf(&self) { }
    proof fn law_len(v: Seq<u8>) { }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) { }
    proof fn law_rt(v: Seq<u8>) { }
    proof fn law_strict(b: Seq<u8>) { }
}

@@ impl Encode for Address
@@ impl Decode for Address
@@ raw
impl Ssz for Bloom {
    type V = Seq<u8>;
    open spec fn v(&self) -> Seq<u8> { self.0.0@ }
    open spec fn wf(&self) -> bool { true }
    open spec fn valid(v: Seq<u8>) -> bool { v.len() == 256 }
    open spec fn ok() -> bool { true }
    open spec fn fixed() -> bool { true }
    open spec fn flen() -> nat { 256 as nat }
    open spec fn enc(v: Seq<u8>) -> Seq<u8> { v }
    open spec fn dec(b: Seq<u8>) -> Option<Seq<u8>> { if b.len() == 256 { Some(b) } else { None } }
    open spec fn rt() -> bool { true }
    open spec fn strict() -> bool { true }
    proof fn law_wf(&self) { }
    proof fn law_len(v: Seq<u8>) { }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) { }
    proof fn law_rt(v: Seq<u8>) { }
    proof fn law_strict(b: Seq<u8>) { }
}

@@ impl Encode for Bloom
@@ impl Decode for Bloom
@@ raw
impl Ssz for Bytes {
    type V = Seq<u8>;
    open spec fn v(&self) -> Seq<u8> { self.0@ }
    open spec fn wf(&self) -> bool { true }
    open spec fn valid(v: Seq<u8>) -> bool { true }
    open spec fn ok() -> bool { true }
    open spec fn fixed() -> bool { false }
    open spec fn flen() -> nat { 4 }
    open spec fn enc(v: Seq<u8>) -> Seq<u8> { v }
    open spec fn dec(b: Seq<u8>) -> Option<Seq<u8>> { Some(b) }
    open spec fn rt() -> bool { true }
    open spec fn strict() -> bool { true }
    proof fn law_wf(&self) { }
    proof fn law_len(v: Seq<u8>) { }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) { }
    proof fn law_rt(v: Seq<u8>) { }
    proof fn law_strict(b: Seq<u8>) { }
}
@@ impl Encode for Bytes
@@ impl Decode for Bytes

@@ raw
impl VInto<u8> for UnionSelector {
    open spec fn into_spec(self) -> u8 { self.0 }
    fn v_into(self) -> (r: u8) { self.0 }
}

/// Union[None, T]
pub open spec fn opt_enc<T: Ssz>(v: Option<T::V>) -> Seq<u8> {
    match v { None => seq![0u8], Some(x) => seq![1u8] + T::enc(x) }
}

pub open spec fn opt_dec<T: Ssz>(b: Seq<u8>) -> Option<Option<T::V>> {
    if b.len() == 0 { None }
    else if b[0] == 0 { if b.len() == 1 { Some(None) } else { None } }
    else if b[0] == 1 { match T::dec(b.skip(1)) { Some(x) => Some(Some(x)), None => None } }
    else { None }
}

impl<T: Ssz> Ssz for Option<T> {
    type V = Option<T::V>;
    open spec fn v(&self) -> Option<T::V> { match self { None => None, Some(x) => Some(x.v()) } }
    open spec fn wf(&self) -> bool { match self { None => true, Some(x) => x.wf() } }
    open spec fn valid(v: Option<T::V>) -> bool { match v { None => true, Some(x) => T::valid(x) } }
    open spec fn ok() -> bool { T::ok() }
    open spec fn fixed() -> bool { false }
    open spec fn flen() -> nat { 4 }
    open spec fn enc(v: Option<T::V>) -> Seq<u8> { opt_enc::<T>(v) }
    open spec fn dec(b: Seq<u8>) -> Option<Option<T::V>> { opt_dec::<T>(b) }
    open spec fn rt() -> bool { T::rt() }
    open spec fn strict() -> bool { T::strict() }
    proof fn law_wf(&self) { match self { None => {}, Some(x) => { x.law_wf(); } } }
    proof fn law_len(v: Option<T::V>) { }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) { if b[0] == 1 { T::law_dec(b.skip(1)); } }
    proof fn law_rt(v: Option<T::V>) {
        match v { None => {}, Some(x) => { T::law_rt(x); assert(opt_enc::<T>(v).skip(1) =~= T::enc(x)); } }
    }
    proof fn law_strict(b: Seq<u8>) {
        if b[0] == 1 { T::law_strict(b.skip(1)); assert(seq![1u8] + b.skip(1) =~= b); } else { assert(seq![0u8] =~= b); }
    }
}
@@ impl Encode for Option<T>
@@ fn Encode for Option<T>::ssz_append
@props C01 C03 C07 C10 C15
@start
    let ghost b0 = buf@;
@finish
    proof { assert(b0 + opt_enc::<T>(self.v()) =~= match self { None => b0.push(0u8), Some(x) => b0.push(1u8) + T::enc(x.v()) }); }
@@ impl Decode for Option<T>
@@ fn Decode for Option<T>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C07 C15

@@ raw
impl<T: Ssz> Ssz for Arc<T> {
    type V = T::V;
    open spec fn v(&self) -> T::V { self.0.v() }
    open spec fn wf(&self) -> bool { self.0.wf() }
    open spec fn valid(v: T::V) -> bool { T::valid(v) }
    open spec fn ok() -> bool { T::ok() }
    open spec fn fixed() -> bool { T::fixed() }
    open spec fn flen() -> nat { T::flen() }
    open spec fn enc(v: T::V) -> Seq<u8> { T::enc(v) }
    open spec fn dec(b: Seq<u8>) -> Option<T::V> { T::dec(b) }
    open spec fn rt() -> bool { T::rt() }
    open spec fn strict() -> bool { T::strict() }
    proof fn law_wf(&self) { self.0.law_wf(); }
    proof fn law_len(v: T::V) { T::law_len(v); }
    proof fn law_flen() { T::law_flen(); }
    proof fn law_dec(b: Seq<u8>) { T::law_dec(b); }
    proof fn law_rt(v: T::V) { T::law_rt(v); }
    proof fn law_strict(b: Seq<u8>) { T::law_strict(b); }
}
@@ impl Encode for Arc<T>
@@ impl Decode for Arc<T>

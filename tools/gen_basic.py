#!/usr/bin/env python3
"""Writes verus/contracts/basic.vc."""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INTS = [("u8", 1), ("u16", 2), ("u32", 4), ("u64", 8), ("u128", 16), ("usize", 8)]
o = ["# integers, bool, byte arrays, the alloy types, Option, Arc, NonZeroUsize (written by tools/gen_basic.py)",
     "@@ raw", "use ::core::mem;", "broadcast use { axiom_mem_limit, lemma_le_len };", """
pub proof fn lemma_pow256s()
    ensures pow256(1) == 0x100, pow256(2) == 0x1_0000, pow256(4) == 0x1_0000_0000, pow256(8) == 0x1_0000_0000_0000_0000,
        pow256(16) == 0x1_0000_0000_0000_0000_0000_0000_0000_0000
{
    reveal_with_fuel(pow256, 17);
}
"""]


def laws(rt="Self::valid(v)", k=None):
    return ""


def uint(t, k, view, wf="true", low="0"):
    return f"""
impl Ssz for {t} {{
    type V = int;
    open spec fn v(&self) -> int {{ {view} }}
    open spec fn wf(&self) -> bool {{ {wf} }}
    open spec fn valid(v: int) -> bool {{ {low} <= v < pow256({k}) }}
    open spec fn ok() -> bool {{ true }}
    open spec fn fixed() -> bool {{ true }}
    open spec fn flen() -> nat {{ {k} }}
    open spec fn enc(v: int) -> Seq<u8> {{ le_bytes(v, {k}) }}
    open spec fn dec(b: Seq<u8>) -> Option<int> {{ if b.len() == {k}{' && le_value(b) != 0' if low == '1' else ''} {{ Some(le_value(b)) }} else {{ None }} }}
    open spec fn rt() -> bool {{ true }}
    open spec fn strict() -> bool {{ true }}
    proof fn law_wf(&self) {{ lemma_pow256s(); {'' if t[0] in 'ub' or t == 'NonZeroUsize' else 'self.axiom_range();'} }}
    proof fn law_len(v: int) {{ lemma_le_len(v, {k}); }}
    proof fn law_flen() {{ }}
    proof fn law_dec(b: Seq<u8>) {{ lemma_le_back(b); }}
    proof fn law_rt(v: int) {{ lemma_le_len(v, {k}); lemma_le_there(v, {k}); }}
    proof fn law_strict(b: Seq<u8>) {{ lemma_le_back(b); }}
}}
"""


for t, k in INTS:
    o += [f"@@ raw\n{uint(t, k, '*self as int')}", f"@@ impl Encode for {t}",
          f"@@ fn Encode for {t}::ssz_append\n@start\n    proof {{ lemma_pow256s(); }}", f"@@ impl Decode for {t}"]

o.append("@@ raw\n" + uint("NonZeroUsize", 8, "self.0 as int", "self.0 != 0", "1"))
o += ["@@ impl Encode for NonZeroUsize", "@@ impl Decode for NonZeroUsize"]
for t, k in (("U256", 32), ("U128", 16)):
    o += ["@@ raw\n" + uint(t, k, "self.n()"), f"@@ impl Encode for {t}", f"@@ impl Decode for {t}"]

o.append("""@@ raw
impl Ssz for bool {
    type V = bool;
    open spec fn v(&self) -> bool { *self }
    open spec fn wf(&self) -> bool { true }
    open spec fn valid(v: bool) -> bool { true }
    open spec fn ok() -> bool { true }
    open spec fn fixed() -> bool { true }
    open spec fn flen() -> nat { 1 }
    open spec fn enc(v: bool) -> Seq<u8> { seq![if v { 1u8 } else { 0u8 }] }
    open spec fn dec(b: Seq<u8>) -> Option<bool> { if b.len() == 1 && b[0] <= 1 { Some(b[0] == 1) } else { None } }
    open spec fn rt() -> bool { true }
    open spec fn strict() -> bool { true }
    proof fn law_wf(&self) { }
    proof fn law_len(v: bool) { }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) { }
    proof fn law_rt(v: bool) { }
    proof fn law_strict(b: Seq<u8>) { assert(Self::enc(Self::dec(b).unwrap()) =~= b); }
}
@@ impl Encode for bool
@@ fn Encode for bool::ssz_append
@start
    let ghost b0 = buf@;
    proof { reveal_with_fuel(le_bytes, 3); }
@finish
    proof { reveal_with_fuel(le_bytes, 3); assert(buf@ =~= b0 + Self::enc(self.v())); }
@@ impl Decode for bool
""")


def raw_bytes(head, n, view):
    return f"""@@ raw
impl{head} {{
    type V = Seq<u8>;
    open spec fn v(&self) -> Seq<u8> {{ {view} }}
    open spec fn wf(&self) -> bool {{ true }}
    open spec fn valid(v: Seq<u8>) -> bool {{ v.len() == {n} }}
    open spec fn ok() -> bool {{ true }}
    open spec fn fixed() -> bool {{ true }}
    open spec fn flen() -> nat {{ {n} as nat }}
    open spec fn enc(v: Seq<u8>) -> Seq<u8> {{ v }}
    open spec fn dec(b: Seq<u8>) -> Option<Seq<u8>> {{ if b.len() == {n} {{ Some(b) }} else {{ None }} }}
    open spec fn rt() -> bool {{ true }}
    open spec fn strict() -> bool {{ true }}
    proof fn law_wf(&self) {{ }}
    proof fn law_len(v: Seq<u8>) {{ }}
    proof fn law_flen() {{ }}
    proof fn law_dec(b: Seq<u8>) {{ }}
    proof fn law_rt(v: Seq<u8>) {{ }}
    proof fn law_strict(b: Seq<u8>) {{ }}
}}
"""


for key, head, n, view in (("[u8;N]", "<const N: usize> Ssz for [u8; N]", "N", "self@"),
                           ("FixedBytes<N>", "<const N: usize> Ssz for FixedBytes<N>", "N", "self.0@"),
                           ("Address", " Ssz for Address", 20, "self.0.0@"),
                           ("Bloom", " Ssz for Bloom", 256, "self.0.0@")):
    o += [raw_bytes(head, n, view), f"@@ impl Encode for {key}", f"@@ impl Decode for {key}"]

o.append("""@@ raw
impl Ssz for Bytes {
    type V = Seq<u8>;
    open spec fn v(&self) -> Seq<u8> { self.0@ }
    open spec fn wf(&self) -> bool { true }
    open spec fn valid(v: Seq<u8>) -> bool { true }
    open spec fn ok() -> bool { true }
    open spec fn fixed() -> bool { false }
    open spec fn flen() -> nat { 4 }
    open spec fn enc(v: Seq<u8>) -> Seq<u8> { v }
    open spec fn dec(b: Seq<u8>) -> Option<Seq<u8>> { Some(b) }
    open spec fn rt() -> bool { true }
    open spec fn strict() -> bool { true }
    proof fn law_wf(&self) { }
    proof fn law_len(v: Seq<u8>) { }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) { }
    proof fn law_rt(v: Seq<u8>) { }
    proof fn law_strict(b: Seq<u8>) { }
}
@@ impl Encode for Bytes
@@ impl Decode for Bytes

@@ raw
impl VInto<u8> for UnionSelector {
    open spec fn into_spec(self) -> u8 { self.0 }
    fn v_into(self) -> (r: u8) { self.0 }
}

/// Union[None, T]
pub open spec fn opt_enc<T: Ssz>(v: Option<T::V>) -> Seq<u8> {
    match v { None => seq![0u8], Some(x) => seq![1u8] + T::enc(x) }
}

pub open spec fn opt_dec<T: Ssz>(b: Seq<u8>) -> Option<Option<T::V>> {
    if b.len() == 0 { None }
    else if b[0] == 0 { if b.len() == 1 { Some(None) } else { None } }
    else if b[0] == 1 { match T::dec(b.skip(1)) { Some(x) => Some(Some(x)), None => None } }
    else { None }
}

impl<T: Ssz> Ssz for Option<T> {
    type V = Option<T::V>;
    open spec fn v(&self) -> Option<T::V> { match self { None => None, Some(x) => Some(x.v()) } }
    open spec fn wf(&self) -> bool { match self { None => true, Some(x) => x.wf() } }
    open spec fn valid(v: Option<T::V>) -> bool { match v { None => true, Some(x) => T::valid(x) } }
    open spec fn ok() -> bool { T::ok() }
    open spec fn fixed() -> bool { false }
    open spec fn flen() -> nat { 4 }
    open spec fn enc(v: Option<T::V>) -> Seq<u8> { opt_enc::<T>(v) }
    open spec fn dec(b: Seq<u8>) -> Option<Option<T::V>> { opt_dec::<T>(b) }
    open spec fn rt() -> bool { T::rt() }
    open spec fn strict() -> bool { T::strict() }
    proof fn law_wf(&self) { match self { None => {}, Some(x) => { x.law_wf(); } } }
    proof fn law_len(v: Option<T::V>) { }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) { if b[0] == 1 { T::law_dec(b.skip(1)); } }
    proof fn law_rt(v: Option<T::V>) {
        match v { None => {}, Some(x) => { T::law_rt(x); assert(opt_enc::<T>(v).skip(1) =~= T::enc(x)); } }
    }
    proof fn law_strict(b: Seq<u8>) {
        if b[0] == 1 { T::law_strict(b.skip(1)); assert(seq![1u8] + b.skip(1) =~= b); } else { assert(seq![0u8] =~= b); }
    }
}
@@ impl Encode for Option<T>
@@ fn Encode for Option<T>::ssz_append
@props C01 C03 C07 C10 C15
@start
    let ghost b0 = buf@;
@finish
    proof { assert(b0 + opt_enc::<T>(self.v()) =~= match self { None => b0.push(0u8), Some(x) => b0.push(1u8) + T::enc(x.v()) }); }
@@ impl Decode for Option<T>
@@ fn Decode for Option<T>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C07 C15

@@ raw
impl<T: Ssz> Ssz for Arc<T> {
    type V = T::V;
    open spec fn v(&self) -> T::V { self.0.v() }
    open spec fn wf(&self) -> bool { self.0.wf() }
    open spec fn valid(v: T::V) -> bool { T::valid(v) }
    open spec fn ok() -> bool { T::ok() }
    open spec fn fixed() -> bool { T::fixed() }
    open spec fn flen() -> nat { T::flen() }
    open spec fn enc(v: T::V) -> Seq<u8> { T::enc(v) }
    open spec fn dec(b: Seq<u8>) -> Option<T::V> { T::dec(b) }
    open spec fn rt() -> bool { T::rt() }
    open spec fn strict() -> bool { T::strict() }
    proof fn law_wf(&self) { self.0.law_wf(); }
    proof fn law_len(v: T::V) { T::law_len(v); }
    proof fn law_flen() { T::law_flen(); }
    proof fn law_dec(b: Seq<u8>) { T::law_dec(b); }
    proof fn law_rt(v: T::V) { T::law_rt(v); }
    proof fn law_strict(b: Seq<u8>) { T::law_strict(b); }
}
@@ impl Encode for Arc<T>
@@ impl Decode for Arc<T>
""")
open(os.path.join(V, "verus", "contracts", "basic.vc"), "w").write("\n".join(o))

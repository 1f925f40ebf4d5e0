//! Bitfields (C11-C14, C18, C20) against plain `Vec<bool>`.
use crate::case::*;
use crate::codecs::{ensure, short};
use crate::model::*;
use arbitrary::{Arbitrary, Unstructured};
use serde::de::value::{
    BorrowedStrDeserializer, Error as SerdeErr, StrDeserializer, StringDeserializer,
};
use serde::de::IntoDeserializer;
use serde::Deserialize;
use smallvec::SmallVec;
use ssz::{BitList, BitVector, BitVectorDynamic, Decode, Encode};
use std::any::Any;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use typenum::Unsigned;

pub trait Bf: Any {
    fn any(&self) -> &dyn Any;
    fn dup(&self) -> Box<dyn Bf>;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn get(&self, i: usize) -> Option<bool>;
    fn set(&mut self, i: usize, v: bool) -> bool;
    fn iter(&self) -> Vec<bool>;
    fn num(&self) -> usize;
    fn highest(&self) -> Option<usize>;
    fn is_zero(&self) -> bool;
    fn equals(&self, o: &dyn Bf) -> bool;
    fn hash(&self) -> u64;
    fn slice(&self) -> Vec<u8>;
    fn raw(&self) -> Vec<u8>;
    fn into_bytes(&self) -> Vec<u8>;
    fn ssz(&self) -> Vec<u8>;
    fn ssz_len(&self) -> usize;
    fn shift(&mut self, n: usize) -> bool;
    fn diff_in(&mut self, o: &dyn Bf);
    fn diff(&self, o: &dyn Bf) -> Box<dyn Bf>;
    fn union(&self, o: &dyn Bf) -> Option<Box<dyn Bf>>;
    fn inter(&self, o: &dyn Bf) -> Option<Box<dyn Bf>>;
    fn subset(&self, o: &dyn Bf) -> Option<bool>;
    fn json(&self) -> String;
    fn display(&self) -> Option<String>;
}

macro_rules! forward {
    () => {
        fn any(&self) -> &dyn Any {
            self
        }
        fn dup(&self) -> Box<dyn Bf> {
            Box::new(self.clone())
        }
        fn len(&self) -> usize {
            Self::len(self)
        }
        fn is_empty(&self) -> bool {
            Self::is_empty(self)
        }
        fn get(&self, i: usize) -> Option<bool> {
            Self::get(self, i).ok()
        }
        fn set(&mut self, i: usize, v: bool) -> bool {
            Self::set(self, i, v).is_ok()
        }
        fn iter(&self) -> Vec<bool> {
            let mut v = vec![];
            for b in Self::iter(self) {
                v.push(b)
            }
            v
        }
        fn num(&self) -> usize {
            self.num_set_bits()
        }
        fn highest(&self) -> Option<usize> {
            self.highest_set_bit()
        }
        fn is_zero(&self) -> bool {
            Self::is_zero(self)
        }
        fn equals(&self, o: &dyn Bf) -> bool {
            *self == *cast::<Self>(o)
        }
        fn hash(&self) -> u64 {
            let mut h = DefaultHasher::new();
            Hash::hash(self, &mut h);
            h.finish()
        }
        fn slice(&self) -> Vec<u8> {
            self.as_slice().to_vec()
        }
        fn raw(&self) -> Vec<u8> {
            self.clone().into_raw_bytes().to_vec()
        }
        fn into_bytes(&self) -> Vec<u8> {
            Self::into_bytes(self.clone()).to_vec()
        }
        fn ssz(&self) -> Vec<u8> {
            self.as_ssz_bytes()
        }
        fn ssz_len(&self) -> usize {
            self.ssz_bytes_len()
        }
        fn shift(&mut self, n: usize) -> bool {
            self.shift_up(n).is_ok()
        }
        fn diff_in(&mut self, o: &dyn Bf) {
            self.difference_inplace(cast::<Self>(o))
        }
        fn diff(&self, o: &dyn Bf) -> Box<dyn Bf> {
            Box::new(self.difference(cast::<Self>(o)))
        }
        fn json(&self) -> String {
            serde_json::to_string(self).unwrap()
        }
    };
}
fn cast<T: 'static>(o: &dyn Bf) -> &T {
    o.any().downcast_ref::<T>().expect("harness: operand type")
}
impl<N: Unsigned + Clone + 'static> Bf for BitList<N> {
    forward!();
    fn union(&self, o: &dyn Bf) -> Option<Box<dyn Bf>> {
        Some(Box::new(Self::union(self, cast(o))))
    }
    fn inter(&self, o: &dyn Bf) -> Option<Box<dyn Bf>> {
        Some(Box::new(self.intersection(cast(o))))
    }
    fn subset(&self, o: &dyn Bf) -> Option<bool> {
        Some(self.is_subset(cast(o)))
    }
    fn display(&self) -> Option<String> {
        None
    }
}
impl<N: Unsigned + Clone + 'static> Bf for BitVector<N> {
    forward!();
    fn union(&self, o: &dyn Bf) -> Option<Box<dyn Bf>> {
        Some(Box::new(Self::union(self, cast(o))))
    }
    fn inter(&self, o: &dyn Bf) -> Option<Box<dyn Bf>> {
        Some(Box::new(self.intersection(cast(o))))
    }
    fn subset(&self, o: &dyn Bf) -> Option<bool> {
        Some(self.is_subset(cast(o)))
    }
    fn display(&self) -> Option<String> {
        Some(self.to_string())
    }
}
impl Bf for BitVectorDynamic {
    forward!();
    fn union(&self, o: &dyn Bf) -> Option<Box<dyn Bf>> {
        Self::union(self, cast(o)).ok().map(|x| Box::new(x) as _)
    }
    fn inter(&self, o: &dyn Bf) -> Option<Box<dyn Bf>> {
        self.intersection(cast(o)).ok().map(|x| Box::new(x) as _)
    }
    fn subset(&self, _: &dyn Bf) -> Option<bool> {
        None
    }
    fn display(&self) -> Option<String> {
        None
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    List,
    Vector,
    Dyn,
}
type BoxBf = Box<dyn Bf>;
#[derive(Clone, Copy)]
pub struct Fam {
    pub kind: Kind,
    pub n: usize,
    /// with_capacity(len) / new() / new(len)
    pub mk: fn(usize) -> Option<BoxBf>,
    pub from_bytes: fn(&[u8]) -> Option<BoxBf>,
    pub from_ssz: fn(&[u8]) -> Option<BoxBf>,
    /// via JSON, str, borrowed str, owned string deserializers
    pub serde: fn(&str) -> [Option<BoxBf>; 4],
    pub arbitrary: Option<fn(&[u8]) -> Option<BoxBf>>,
    pub max_len: fn() -> usize,
}
fn serde_all<T: for<'x> Deserialize<'x> + Bf>(s: &str) -> [Option<BoxBf>; 4] {
    let a = serde_json::to_string(s)
        .ok()
        .and_then(|j| serde_json::from_str::<T>(&j).ok());
    let d: StrDeserializer<'_, SerdeErr> = s.into_deserializer();
    let b = T::deserialize(d).ok();
    let c = T::deserialize(BorrowedStrDeserializer::<SerdeErr>::new(s)).ok();
    let d: StringDeserializer<SerdeErr> = s.to_string().into_deserializer();
    let d = T::deserialize(d).ok();
    [a, b, c, d].map(|x| x.map(|x| Box::new(x) as BoxBf))
}
fn sv(b: &[u8]) -> SmallVec<[u8; 128]> {
    SmallVec::from_slice(b)
}
fn bx<T: Bf>(x: T) -> BoxBf {
    Box::new(x)
}
fn list<N: Unsigned + Clone + 'static>() -> Fam {
    Fam {
        kind: Kind::List,
        n: N::to_usize(),
        mk: |n| BitList::<N>::with_capacity(n).ok().map(bx),
        from_bytes: |b| BitList::<N>::from_bytes(sv(b)).ok().map(bx),
        from_ssz: |b| BitList::<N>::from_ssz_bytes(b).ok().map(bx),
        serde: serde_all::<BitList<N>>,
        arbitrary: Some(|b| {
            BitList::<N>::arbitrary(&mut Unstructured::new(b))
                .ok()
                .map(bx)
        }),
        max_len: BitList::<N>::max_len,
    }
}
fn vector<N: Unsigned + Clone + 'static>() -> Fam {
    Fam {
        kind: Kind::Vector,
        n: N::to_usize(),
        mk: |n| {
            if n == N::to_usize() {
                Some(bx(BitVector::<N>::new()))
            } else {
                None
            }
        },
        from_bytes: |b| BitVector::<N>::from_bytes(sv(b)).ok().map(bx),
        from_ssz: |b| BitVector::<N>::from_ssz_bytes(b).ok().map(bx),
        serde: serde_all::<BitVector<N>>,
        arbitrary: Some(|b| {
            BitVector::<N>::arbitrary(&mut Unstructured::new(b))
                .ok()
                .map(bx)
        }),
        max_len: BitVector::<N>::capacity,
    }
}
fn dynamic() -> Fam {
    Fam {
        kind: Kind::Dyn,
        n: 0,
        mk: |n| BitVectorDynamic::new(n).ok().map(bx),
        from_bytes: |b| {
            BitVectorDynamic::from_bytes_with_len(sv(b), b.len() * 8)
                .ok()
                .map(bx)
        },
        from_ssz: |b| BitVectorDynamic::from_ssz_bytes(b).ok().map(bx),
        serde: serde_all::<BitVectorDynamic>,
        arbitrary: None,
        max_len: || usize::MAX,
    }
}
impl Fam {
    fn schema(&self) -> Schema {
        match self.kind {
            Kind::List => Schema::Bitlist(self.n),
            Kind::Vector => Schema::Bitvector(self.n),
            Kind::Dyn => Schema::BitDyn,
        }
    }
    fn name(&self) -> String {
        format!("{:?}{}", self.kind, self.n)
    }
    fn valid_len(&self, l: usize) -> bool {
        match self.kind {
            Kind::List => l <= self.n,
            Kind::Vector => l == self.n,
            Kind::Dyn => l > 0 && l % 8 == 0,
        }
    }
    fn rand_bits(&self, r: &mut Rng) -> Vec<bool> {
        gen(&self.schema(), r, 2).bits().to_vec()
    }
    fn build(&self, bits: &[bool]) -> BoxBf {
        let mut b = (self.mk)(bits.len()).expect("constructor refused a valid length");
        for (i, x) in bits.iter().enumerate() {
            assert!(b.set(i, *x), "set({i}) refused below the length");
        }
        b
    }
}

fn fams() -> Vec<Fam> {
    use typenum::*;
    macro_rules! go { ($($n:ident)*) => { vec![$(list::<$n>(), vector::<$n>()),*] } }
    let mut v = go!(U0 U1 U2 U3 U4 U5 U6 U7 U8 U9 U10 U11 U12 U13 U14 U15 U16 U17 U23 U24 U25 U31 U32 U33
        U48 U63 U64 U65 U127 U128 U129 U255 U256 U257 U512 U1000 U1023 U1024 U2048 U4096);
    // one byte more than fits inline, and around it
    v.push(list::<Sum<U1024, U1>>());
    v.push(list::<Sum<U1024, U8>>());
    v.push(list::<Sum<U1024, U16>>());
    v.push(vector::<Sum<U1024, U1>>());
    v.push(vector::<Sum<U1024, U8>>());
    v.push(list::<Sum<U1024, U15>>());
    v.push(list::<U1099511627776>());
    v.push(dynamic());
    v
}

/// Every observation of `b` equals that of the plain bit sequence `m`.
fn observe(f: &Fam, b: &dyn Bf, m: &[bool], what: &str) -> Result<(), String> {
    let n = m.len();
    let ctx = || {
        format!(
            "{} {what}: expected bits {}",
            f.name(),
            short(m.iter().map(|x| *x as u8).collect::<Vec<_>>())
        )
    };
    ensure!(b.len() == n, "{}: len() = {}", ctx(), b.len());
    ensure!(
        f.valid_len(n),
        "{}: length is out of bounds for the type",
        ctx()
    );
    ensure!(
        b.is_empty() == (n == 0),
        "{}: is_empty() = {}",
        ctx(),
        b.is_empty()
    );
    for (i, x) in m.iter().enumerate() {
        ensure!(b.get(i) == Some(*x), "{}: get({i}) = {:?}", ctx(), b.get(i));
    }
    for i in [
        n,
        n + 1,
        n + 7,
        n + 8,
        2 * n + 1,
        usize::MAX,
        usize::MAX / 8 + 1,
    ] {
        if i >= n {
            ensure!(
                b.get(i).is_none(),
                "{}: get({i}) = {:?} beyond the length",
                ctx(),
                b.get(i)
            );
        }
    }
    ensure!(b.iter() == m, "{}: iter() = {:?}", ctx(), short(b.iter()));
    let cnt = m.iter().filter(|x| **x).count();
    ensure!(b.num() == cnt, "{}: num_set_bits() = {}", ctx(), b.num());
    let hi = m.iter().rposition(|x| *x);
    ensure!(
        b.highest() == hi,
        "{}: highest_set_bit() = {:?}",
        ctx(),
        b.highest()
    );
    ensure!(
        b.is_zero() == (cnt == 0),
        "{}: is_zero() = {}",
        ctx(),
        b.is_zero()
    );
    let want = bits_to_bytes(m);
    ensure!(
        b.slice() == want,
        "{}: as_slice() = {:02x?}, expected {:02x?}",
        ctx(),
        b.slice(),
        want
    );
    ensure!(
        b.raw() == want,
        "{}: into_raw_bytes() = {:02x?}",
        ctx(),
        b.raw()
    );
    let enc = ser(&f.schema(), &Val::Bits(m.to_vec()));
    ensure!(
        b.ssz() == enc,
        "{}: as_ssz_bytes() = {:02x?}, expected {:02x?}",
        ctx(),
        b.ssz(),
        enc
    );
    ensure!(
        b.ssz_len() == enc.len(),
        "{}: ssz_bytes_len() = {}",
        ctx(),
        b.ssz_len()
    );
    ensure!(
        b.into_bytes() == enc,
        "{}: into_bytes() = {:02x?}, expected {:02x?}",
        ctx(),
        b.into_bytes(),
        enc
    );
    let fresh = f.build(m);
    ensure!(
        b.equals(&*fresh) && fresh.equals(b),
        "{}: differs from a freshly built equal bitfield",
        ctx()
    );
    ensure!(
        b.hash() == fresh.hash(),
        "{}: hash differs from a freshly built equal bitfield",
        ctx()
    );
    let d = b.dup();
    ensure!(
        d.equals(b) && d.slice() == want && d.len() == n,
        "{}: clone differs",
        ctx()
    );
    if n > 0 {
        let mut other = m.to_vec();
        let k = (cnt * 7 + n / 2) % n;
        other[k] = !other[k];
        ensure!(
            !b.equals(&*f.build(&other)),
            "{}: equal to a bitfield differing in bit {k}",
            ctx()
        );
    }
    for l in [n + 1, n.wrapping_sub(1), n + 8, n.wrapping_sub(8)] {
        if f.valid_len(l) && l < 5000 {
            let o: Vec<bool> = (0..l).map(|i| m.get(i).copied().unwrap_or(false)).collect();
            ensure!(
                !b.equals(&*f.build(&o)),
                "{}: equal to a bitfield of length {l}",
                ctx()
            );
        }
    }
    if let Some(s) = b.display() {
        let w: String = m.iter().map(|x| if *x { '1' } else { '0' }).collect();
        ensure!(s == w, "{}: Display gives {s}", ctx());
    }
    Ok(())
}

/// Random operation history (C11).
fn history(f: &Fam, input: &[u8]) -> Result<(), String> {
    let mut r = rng_of(input);
    let mut m = f.rand_bits(&mut r);
    if r.coin(3) {
        m.iter_mut().for_each(|x| *x = false);
    }
    let mut log = String::new();
    let mut b: BoxBf = match r.below(3) {
        0 => f.build(&m),
        1 => (f.from_ssz)(&ser(&f.schema(), &Val::Bits(m.clone())))
            .ok_or_else(|| format!("{}: decode of {:?} failed", f.name(), short(&m)))?,
        _ => (f.from_bytes)(&ser(&f.schema(), &Val::Bits(m.clone())))
            .ok_or_else(|| format!("{}: from_bytes of {:?} failed", f.name(), short(&m)))?,
    };
    observe(f, &*b, &m, "after construction")?;
    let steps = 1 + r.below(12);
    for _ in 0..steps {
        let n = m.len();
        let what;
        match r.below(9) {
            0 | 1 | 2 => {
                let i = match r.below(8) {
                    0 => n,
                    1 => n + r.below(9),
                    2 => usize::MAX - r.below(3),
                    _ => r.below(n.max(1)),
                };
                let v = r.coin(2);
                let ok = b.set(i, v);
                what = format!("set({i},{v})");
                ensure!(
                    ok == (i < n),
                    "{} bits {:?}: {what} returned ok={ok}{log}",
                    f.name(),
                    short(&m)
                );
                if i < n {
                    m[i] = v;
                }
            }
            3 | 4 => {
                let k = match r.below(8) {
                    0 => n,
                    1 => n + 1 + r.below(9),
                    2 => usize::MAX,
                    3 => 0,
                    4 => 1,
                    _ => r.below(n + 1),
                };
                let ok = b.shift(k);
                what = format!("shift_up({k})");
                ensure!(
                    ok == (k <= n),
                    "{} bits {:?}: {what} returned ok={ok}{log}",
                    f.name(),
                    short(&m)
                );
                if k <= n {
                    let mut s = vec![false; k];
                    s.extend_from_slice(&m[..n - k]);
                    m = s;
                }
            }
            5 => {
                let o = f.rand_bits(&mut r);
                b.diff_in(&*f.build(&o));
                what = format!("difference_inplace({:?})", short(&o));
                for (i, x) in m.iter_mut().enumerate() {
                    *x = *x && !o.get(i).copied().unwrap_or(false);
                }
            }
            6 => {
                let o = f.rand_bits(&mut r);
                b = b.diff(&*f.build(&o));
                what = format!("difference({:?})", short(&o));
                for (i, x) in m.iter_mut().enumerate() {
                    *x = *x && !o.get(i).copied().unwrap_or(false);
                }
            }
            7 => {
                b = b.dup();
                what = "clone".into();
            }
            _ => {
                what = "encode+decode".into();
                b = (f.from_ssz)(&b.ssz()).ok_or_else(|| {
                    format!("{}: re-decoding {:02x?} failed{log}", f.name(), b.ssz())
                })?;
            }
        }
        log += &format!(" <- {}", short(&what));
        observe(f, &*b, &m, &format!("after{log}"))?;
    }
    Ok(())
}

fn pair(f: &Fam, x: &[bool], y: &[bool]) -> Result<(), String> {
    let (a, b) = (f.build(x), f.build(y));
    let at = |v: &[bool], i: usize| v.get(i).copied().unwrap_or(false);
    let (ul, il) = match f.kind {
        Kind::List => (x.len().max(y.len()), x.len().min(y.len())),
        Kind::Vector => (f.n, f.n),
        Kind::Dyn => (x.len().max(y.len()), x.len().max(y.len())),
    };
    let ops = format!(
        "operands {:?} {:?}",
        short(x.iter().map(|x| *x as u8).collect::<Vec<_>>()),
        short(y.iter().map(|x| *x as u8).collect::<Vec<_>>())
    );
    let u = a
        .union(&*b)
        .ok_or_else(|| format!("{} {ops}: union failed", f.name()))?;
    let w: Vec<bool> = (0..ul).map(|i| at(x, i) || at(y, i)).collect();
    observe(f, &*u, &w, &format!("union of {ops}"))?;
    let u = a
        .inter(&*b)
        .ok_or_else(|| format!("{} {ops}: intersection failed", f.name()))?;
    let w: Vec<bool> = (0..il).map(|i| at(x, i) && at(y, i)).collect();
    observe(f, &*u, &w, &format!("intersection of {ops}"))?;
    let w: Vec<bool> = (0..x.len()).map(|i| x[i] && !at(y, i)).collect();
    observe(f, &*a.diff(&*b), &w, &format!("difference of {ops}"))?;
    let mut d = a.dup();
    d.diff_in(&*b);
    observe(f, &*d, &w, &format!("difference_inplace of {ops}"))?;
    let s = (0..x.len()).all(|i| !x[i] || at(y, i));
    if let Some(got) = a.subset(&*b) {
        ensure!(got == s, "{} {ops}: is_subset = {got}", f.name());
    }
    observe(f, &*a, x, "left operand after set operations")?;
    observe(f, &*b, y, "right operand after set operations")
}

fn enum_bits(mut k: u64) -> Vec<bool> {
    // all bit strings by length
    let mut l = 0;
    while k >= 1 << l {
        k -= 1 << l;
        l += 1;
    }
    (0..l).map(|i| k >> i & 1 == 1).collect()
}

fn bytes_case(f: &Fam, b: &[u8], through: &str, got: Option<BoxBf>) -> Result<(), String> {
    match (got, de(&f.schema(), b)) {
        (None, None) => Ok(()),
        (Some(g), None) => Err(format!(
            "{} {through}: accepted invalid {:02x?} as {} bits {:02x?}",
            f.name(),
            b,
            g.len(),
            g.slice()
        )),
        (None, Some(w)) => Err(format!(
            "{} {through}: rejected valid {:02x?} ({:?})",
            f.name(),
            b,
            short(w)
        )),
        (Some(g), Some(w)) => observe(f, &*g, w.bits(), &format!("{through} {:02x?}", b)),
    }
}

fn bit_bytes(f: &Fam, r: &mut Rng) -> Vec<u8> {
    let n = f.n.min(6000);
    match r.below(8) {
        0 => {
            let k = r.below(5);
            r.bytes(k)
        }
        1 | 2 => {
            // around the size boundary
            let k = match r.below(5) {
                0 => n / 8,
                1 => n / 8 + 1,
                2 => (n + 7) / 8,
                3 => (n + 7) / 8 + 1,
                _ => n / 8 + 2,
            };
            let mut b = r.bytes(k);
            if let Some(x) = b.last_mut() {
                *x = match r.below(4) {
                    0 => 0,
                    1 => 1 << r.below(8),
                    2 => (1u16 << r.below(9)).wrapping_sub(1) as u8,
                    _ => *x,
                };
            }
            b
        }
        _ => {
            let mut b = ser(&f.schema(), &Val::Bits(f.rand_bits(r)));
            for _ in 0..r.below(3) {
                match r.below(6) {
                    0 => b.push(0),
                    1 => {
                        b.pop();
                    }
                    2 => {
                        if let Some(x) = b.last_mut() {
                            *x = x.wrapping_mul(2)
                        }
                    }
                    3 => {
                        if let Some(x) = b.last_mut() {
                            *x |= 1 << r.below(8)
                        }
                    }
                    4 => {
                        let x = r.byte();
                        b.push(x)
                    }
                    _ => mutate(&mut b, r),
                }
            }
            b.truncate(8192);
            b
        }
    }
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(s: &str) -> Option<Vec<u8>> {
    let s = s.strip_prefix("0x")?.as_bytes();
    if s.len() % 2 != 0 {
        return None;
    }
    let d = |c: u8| match c {
        b'0'..=b'9' => Some(c - b'0'),
        b'a'..=b'f' => Some(c - b'a' + 10),
        b'A'..=b'F' => Some(c - b'A' + 10),
        _ => None,
    };
    s.chunks(2)
        .map(|p| Some(d(p[0])? * 16 + d(p[1])?))
        .collect()
}

fn resize_check<N: Unsigned + Clone + 'static, M: Unsigned + Clone + 'static>(
    input: &[u8],
) -> Result<(), String> {
    let (f, g) = (list::<N>(), list::<M>());
    let mut r = rng_of(input);
    let bits = f.rand_bits(&mut r);
    let mut b = BitList::<N>::with_capacity(bits.len()).map_err(|e| format!("{e:?}"))?;
    for (i, x) in bits.iter().enumerate() {
        b.set(i, *x).map_err(|e| format!("{e:?}"))?;
    }
    let res = b.resize::<M>();
    if M::to_usize() >= N::to_usize() {
        let x = res.map_err(|e| {
            format!(
                "resize of {:?} from {} to {} failed: {e:?}",
                short(&bits),
                f.n,
                g.n
            )
        })?;
        let mut got = Bf::iter(&x);
        let n = got.len();
        ensure!(n <= g.n, "resize from {} to {} has {n} bits", f.n, g.n);
        observe(&g, &x, &got, "after resize")?;
        let mut want = bits.clone();
        let w = want.len().max(n);
        want.resize(w, false);
        got.resize(w, false);
        ensure!(
            got == want,
            "resize from {} to {}: {:?} became {:?}",
            f.n,
            g.n,
            short(&bits),
            short(&got)
        );
    } else {
        ensure!(
            res.is_err(),
            "resize from {} to the smaller {} succeeded",
            f.n,
            g.n
        );
    }
    observe(&f, &b, &bits, "operand after resize")
}

fn constructors(f: &Fam, n: usize) -> Result<(), String> {
    if f.kind != Kind::Vector {
        let want = f.valid_len(n);
        // large accepted sizes would only test the allocator
        if want && n > 1 << 24 {
            return Ok(());
        }
        let got = (f.mk)(n);
        ensure!(
            got.is_some() == want,
            "{}: constructor with length {n} returned ok={}",
            f.name(),
            got.is_some()
        );
        if let Some(b) = got {
            if n < 10000 {
                observe(f, &*b, &vec![false; n], "after construction")?;
            }
        }
    } else {
        let b = (f.mk)(f.n).unwrap();
        observe(f, &*b, &vec![false; f.n], "new()")?;
    }
    if f.kind != Kind::Dyn {
        ensure!(
            (f.max_len)() == f.n,
            "{}: capacity reported as {}",
            f.name(),
            (f.max_len)()
        );
    }
    Ok(())
}

pub fn cases() -> Vec<Case> {
    let mut out: Vec<Case> = vec![];
    let seed_in = || Box::new(|i: u64, s: u64| seed_bytes(s, i));
    for f in fams() {
        let huge = f.n > 1 << 20;
        let big = f.n > 200;
        let byte_input = move |fixed: u64| {
            Box::new(move |i: u64, s: u64| {
                if i < fixed {
                    exhaustive(i)
                } else {
                    bit_bytes(&f, &mut Rng::new(s ^ i.wrapping_mul(0xA24BAED4963EE407)))
                }
            })
        };
        let fixed = if f.n <= 24 || f.kind == Kind::Dyn {
            N2
        } else {
            600
        };
        out.push(Case {
            prop: "C11",
            name: format!("C11/history/{}", f.name()),
            fixed: 0,
            random: if big { 300 } else { 3000 },
            input: seed_in(),
            run: Box::new(move |b| history(&f, b)),
        });
        out.push(Case {
            prop: "C12",
            name: format!("C12/random/{}", f.name()),
            fixed: 0,
            random: if big { 400 } else { 3000 },
            input: seed_in(),
            run: Box::new(move |b| {
                let mut r = rng_of(b);
                let x = f.rand_bits(&mut r);
                let mut y = f.rand_bits(&mut r);
                match r.below(4) {
                    // make subsets and equal operands common
                    0 => {
                        let l = y.len();
                        for i in 0..l {
                            if i < x.len() {
                                y[i] = x[i] || y[i]
                            }
                        }
                    }
                    1 => y = x.clone(),
                    2 => {
                        y = x.clone();
                        if let Some(k) = (!y.is_empty()).then(|| r.below(y.len())) {
                            y[k] = !y[k];
                        }
                    }
                    _ => {}
                }
                pair(&f, &x, &y)
            }),
        });
        let m = if f.kind == Kind::Vector && f.n <= 5 {
            Some(1u64 << f.n)
        } else if f.kind == Kind::List && f.n <= 6 {
            Some((1u64 << (f.n.min(5) + 1)) - 1)
        } else {
            None
        };
        if let Some(m) = m {
            out.push(Case {
                prop: "C12",
                name: format!("C12/all-pairs/{}", f.name()),
                fixed: m * m,
                random: 0,
                input: Box::new(|i, _| i.to_le_bytes().to_vec()),
                run: Box::new(move |b| {
                    let i = b.iter().rev().fold(0u64, |a, d| a * 256 + *d as u64);
                    let (p, q) = (i / m % m, i % m);
                    let mk = |k: u64| {
                        if f.kind == Kind::Vector {
                            (0..f.n).map(|j| k >> j & 1 == 1).collect::<Vec<_>>()
                        } else {
                            enum_bits(k)
                        }
                    };
                    pair(&f, &mk(p), &mk(q))
                }),
            });
        }
        // C13: lengths
        out.push(Case {
            prop: "C13",
            name: format!("C13/construct/{}", f.name()),
            fixed: 60,
            random: 40,
            input: Box::new(move |i, s| {
                let n = if i < 20 {
                    i as usize
                } else if i < 45 {
                    f.n.saturating_sub(12).saturating_add((i - 20) as usize)
                } else if i < 60 {
                    usize::MAX - (i as usize - 45)
                } else {
                    Rng::new(s ^ i).next() as usize >> (i % 60)
                };
                n.to_le_bytes().to_vec()
            }),
            run: Box::new(move |b| {
                constructors(
                    &f,
                    b.iter()
                        .rev()
                        .fold(0usize, |a, d| a.wrapping_mul(256).wrapping_add(*d as usize)),
                )
            }),
        });
        out.push(Case {
            prop: "C13",
            name: format!("C13/decode/{}", f.name()),
            fixed,
            random: 4000,
            input: byte_input(fixed),
            run: Box::new(move |b| {
                let mut all = vec![
                    ("from_bytes", (f.from_bytes)(b)),
                    ("from_ssz_bytes", (f.from_ssz)(b)),
                ];
                let h = format!("0x{}", hex(b));
                for x in (f.serde)(&h) {
                    all.push(("serde", x));
                }
                for (w, x) in all {
                    if let Some(x) = x {
                        ensure!(
                            f.valid_len(x.len()),
                            "{} {w} of {:02x?} holds {} bits",
                            f.name(),
                            b,
                            x.len()
                        );
                        ensure!(
                            x.slice().len() == std::cmp::max(1, (x.len() + 7) / 8),
                            "{} {w} of {:02x?}: {} bytes for {} bits",
                            f.name(),
                            b,
                            x.slice().len(),
                            x.len()
                        );
                    } else {
                        ensure!(
                            de(&f.schema(), b).is_none(),
                            "{} {w} refused {:02x?} although it is within the bound",
                            f.name(),
                            b
                        );
                    }
                }
                Ok(())
            }),
        });
        out.push(Case {
            prop: "C13",
            name: format!("C13/ops/{}", f.name()),
            fixed: 0,
            random: if big { 200 } else { 1500 },
            input: seed_in(),
            run: Box::new(move |b| {
                let mut r = rng_of(b);
                let x = f.rand_bits(&mut r);
                let y = f.rand_bits(&mut r);
                pair(&f, &x, &y)?;
                history(&f, b)
            }),
        });
        // C14
        out.push(Case {
            prop: "C14",
            name: format!("C14/bytes/{}", f.name()),
            fixed: if f.n <= 24 || f.kind == Kind::Dyn {
                N5
            } else {
                600
            },
            random: 8000,
            input: byte_input(if f.n <= 24 || f.kind == Kind::Dyn {
                N5
            } else {
                600
            }),
            run: Box::new(move |b| {
                bytes_case(&f, b, "from_bytes", (f.from_bytes)(b))?;
                bytes_case(&f, b, "from_ssz_bytes", (f.from_ssz)(b))
            }),
        });
        out.push(Case {
            prop: "C14",
            name: format!("C14/values/{}", f.name()),
            fixed: 0,
            random: 1000,
            input: seed_in(),
            run: Box::new(move |b| {
                let m = f.rand_bits(&mut rng_of(b));
                let x = f.build(&m);
                let want = ser(&f.schema(), &Val::Bits(m.clone()));
                ensure!(
                    x.into_bytes() == want && x.ssz() == want,
                    "{} {:?}: into_bytes {:02x?}, as_ssz_bytes {:02x?}, expected {:02x?}",
                    f.name(),
                    short(&m),
                    x.into_bytes(),
                    x.ssz(),
                    want
                );
                bytes_case(&f, &want, "from_bytes", (f.from_bytes)(&want))
            }),
        });
        // C18
        out.push(Case {
            prop: "C18",
            name: format!("C18/values/{}", f.name()),
            fixed: 0,
            random: 1200,
            input: seed_in(),
            run: Box::new(move |b| {
                let m = f.rand_bits(&mut rng_of(b));
                let x = f.build(&m);
                let want = format!("0x{}", hex(&ser(&f.schema(), &Val::Bits(m.clone()))));
                ensure!(
                    x.json() == format!("\"{want}\""),
                    "{} {:?}: serialized as {}, expected \"{want}\"",
                    f.name(),
                    short(&m),
                    x.json()
                );
                for (k, y) in (f.serde)(&want).into_iter().enumerate() {
                    let y = y.ok_or_else(|| {
                        format!("{}: {want} rejected by deserializer {k}", f.name())
                    })?;
                    observe(&f, &*y, &m, "after serde round trip")?;
                }
                Ok(())
            }),
        });
        let str_case = move |s: &str| -> Result<(), String> {
            let b = unhex(s);
            for (k, got) in (f.serde)(s).into_iter().enumerate() {
                match (&b, got) {
                    (None, None) => {}
                    (None, Some(_)) => {
                        return Err(format!(
                            "{}: deserializer {k} accepted {s:?}, not 0x-prefixed even-length hex",
                            f.name()
                        ))
                    }
                    (Some(b), got) => bytes_case(&f, b, &format!("serde[{k}] {s:?}"), got)?,
                }
            }
            Ok(())
        };
        out.push(Case {
            prop: "C18",
            name: format!("C18/strings/{}", f.name()),
            fixed: 0,
            random: 3000,
            input: Box::new(move |i, s| {
                let r = &mut Rng::new(s ^ i.wrapping_mul(0xA24BAED4963EE407));
                let mut t = format!("0x{}", hex(&bit_bytes(&f, r)));
                if r.coin(4) {
                    t = t.to_uppercase().replacen("0X", "0x", 1);
                }
                match r.below(16) {
                    0 => t = t[2..].to_string(),
                    1 => {
                        t.pop();
                    }
                    2 => t.push('0'),
                    3 => t = t.replacen("0x", "0X", 1),
                    4 => t.insert(0, ' '),
                    5 => t.push(' '),
                    6 => {
                        let k = r.below(t.len() + 1);
                        t.insert(k, ['g', 'x', '-', '\u{e9}', '0', 'F', '_'][r.below(7)]);
                    }
                    7 => t = format!("0x{t}"),
                    8 => {
                        t = ["", "0", "0x", "x", "0x0", "00", "0x00", "0x01", "0x1"][r.below(9)]
                            .to_string()
                    }
                    _ => {}
                }
                t.into_bytes()
            }),
            run: Box::new(move |b| match std::str::from_utf8(b) {
                Ok(s) => str_case(s),
                Err(_) => Ok(()),
            }),
        });
        if let Some(arb) = f.arbitrary {
            let check = move |b: &[u8]| -> Result<bool, String> {
                let (x, p) = crate::alloc::peak(|| arb(b));
                if huge {
                    ensure!(
                        p <= 65536 + 64 * b.len(),
                        "{}: generating from {} bytes held {p} heap bytes",
                        f.name(),
                        b.len()
                    );
                }
                if let Some(x) = x {
                    let n = x.len();
                    ensure!(
                        f.valid_len(n),
                        "{}: generated {n} bits from {:02x?}",
                        f.name(),
                        b
                    );
                    let m: Vec<bool> = (0..n).map(|i| x.get(i).unwrap()).collect();
                    observe(&f, &*x, &m, &format!("generated from {:02x?}", short(b)))?;
                    let y = (f.from_ssz)(&x.ssz()).ok_or_else(|| {
                        format!("{}: generated {:?} does not decode", f.name(), short(&m))
                    })?;
                    ensure!(
                        y.equals(&*x),
                        "{}: generated {:?} changes in an SSZ round trip",
                        f.name(),
                        short(&m)
                    );
                    return Ok(true);
                }
                Ok(false)
            };
            let gen_in = move |i: u64, s: u64| {
                let r = &mut Rng::new(s ^ i.wrapping_mul(0xA24BAED4963EE407));
                let n = match r.below(4) {
                    0 => r.below(12),
                    1 => 8 + r.below(8),
                    2 => (f.n.min(5000) + 7) / 8 + r.below(12),
                    _ => f.n.min(700) + r.below(20),
                };
                let mut b: Vec<u8> = (0..n).map(|_| r.byte()).collect();
                if r.coin(2) {
                    // a small number in the first (or last) word
                    let w = match r.below(3) {
                        0 => r.below(10),
                        1 => r.below(f.n.min(5000) + 3),
                        _ => (f.n.min(5000) + 7) / 8,
                    };
                    for k in 0..8.min(b.len()) {
                        b[k] = (w as u64).to_le_bytes()[k];
                    }
                }
                b
            };
            out.push(Case {
                prop: "C20",
                name: format!("C20/generate/{}", f.name()),
                fixed: 257,
                random: 4000,
                input: Box::new(move |i, s| if i < 257 { exhaustive(i) } else { gen_in(i, s) }),
                run: Box::new(move |b| check(b).map(|_| ())),
            });
            if f.n >= 1 {
                out.push(Case {
                    prop: "C20",
                    name: format!("C20/reachable/{}", f.name()),
                    fixed: 1,
                    random: 0,
                    input: Box::new(|_, s| s.to_le_bytes().to_vec()),
                    run: Box::new(move |b| {
                        let s = b
                            .iter()
                            .rev()
                            .fold(0u64, |a, d| a.wrapping_mul(256).wrapping_add(*d as u64));
                        for i in 0..60000 {
                            let x = if i < 300 {
                                let mut v = vec![(i % 3) as u8; 0];
                                v.resize(
                                    (f.n.min(5000) + 7) / 8 + 16,
                                    [0u8, 1, 255][(i % 3) as usize],
                                );
                                v
                            } else {
                                gen_in(i, s)
                            };
                            if check(&x)? {
                                return Ok(());
                            }
                        }
                        Err(format!(
                            "{}: no input out of 60000 makes the generator succeed",
                            f.name()
                        ))
                    }),
                });
            }
        }
    }
    macro_rules! rs { ($(($a:ty, $b:ty))*) => { $( out.push(Case { prop: "C13", name: format!("C13/resize/{}-{}", <$a>::to_usize(), <$b>::to_usize()), fixed: 0, random: 400, input: seed_in(), run: Box::new(resize_check::<$a, $b>) }); )* } }
    use typenum::*;
    rs!((U0, U0) (U0, U1) (U1, U0) (U1, U1) (U0, U8) (U7, U8) (U8, U7) (U8, U8) (U8, U9) (U9, U8) (U1, U16) (U16, U16) (U16, U17)
        (U17, U16) (U5, U64) (U64, U5) (U64, U1024) (U1023, U1024) (U1024, U1023) (U1024, U2048) (U2048, U1024) (U15, U31) (U31, U15)
        (U9, Sum<U1024, U8>) (Sub1<Shleft<U1, U64>>, U8));
    let f = dynamic();
    out.push(Case {
        prop: "C14",
        name: "C14/from_bytes_with_len".into(),
        fixed: 0,
        random: 20000,
        input: seed_in(),
        run: Box::new(move |b| from_len(&f, b)),
    });
    out.push(Case {
        prop: "C13",
        name: "C13/from_bytes_with_len".into(),
        fixed: 0,
        random: 20000,
        input: seed_in(),
        run: Box::new(move |b| from_len(&f, b)),
    });
    out
}

fn from_len(f: &Fam, input: &[u8]) -> Result<(), String> {
    let mut r = rng_of(input);
    let k = r.below(5);
    let b = r.bytes(k);
    let len = match r.below(6) {
        0 => r.below(48),
        1 => usize::MAX - r.below(9),
        2 => 8 * r.below(6),
        3 => (8 * k).saturating_sub(r.below(9)),
        4 => 8 * k + r.below(9),
        _ => 8 * k,
    };
    let got = BitVectorDynamic::from_bytes_with_len(sv(&b), len);
    let want = !b.is_empty() && len == 8 * b.len();
    ensure!(
        got.is_ok() == want,
        "from_bytes_with_len({:02x?}, {len}) returned ok={}",
        b,
        got.is_ok()
    );
    if let Ok(x) = got {
        observe(f, &x, &bytes_to_bits(&b), "from_bytes_with_len")?;
    }
    Ok(())
}

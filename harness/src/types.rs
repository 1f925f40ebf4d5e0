//! Mapping between Rust types of the crate under test and the reference model.
use crate::model::*;
use alloy_primitives::{Address, Bloom, Bytes, FixedBytes, U128, U256};
use smallvec::SmallVec;
use ssz::{BitList, BitVector, BitVectorDynamic, Decode, Encode};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::num::NonZeroUsize;
use std::sync::Arc;
use typenum::Unsigned;

pub trait Ty: Encode + Decode + PartialEq + Debug + Send + 'static {
    fn schema() -> Schema;
    fn from_val(v: &Val) -> Self;
    fn to_val(&self) -> Val;
    /// Fields skipped by the decoder hold their default value.
    fn skipped_default(&self) -> bool {
        true
    }
    /// Upper estimate of heap bytes per input byte.
    fn mem() -> usize {
        8
    }
}

fn min_wire(s: &Schema) -> usize {
    match fixed_len(s) {
        Some(n) => n.max(1),
        None => 4,
    }
}
fn item_mem<T: Ty>() -> usize {
    // a growing vector keeps the old and the new buffer alive: 3x, plus slack
    4 * std::mem::size_of::<T>()
        .max(1)
        .div_ceil(min_wire(&T::schema()))
        + T::mem()
}

macro_rules! uint {
    ($($t:ty, $n:expr);*) => {$(
        impl Ty for $t {
            fn schema() -> Schema { Schema::Uint($n) }
            fn from_val(v: &Val) -> Self { v.u128() as $t }
            fn to_val(&self) -> Val { Val::uint(*self as u128, $n) }
        }
    )*};
}
uint!(u8, 1; u16, 2; u32, 4; u64, 8; u128, 16; usize, 8);

impl Ty for bool {
    fn schema() -> Schema {
        Schema::Bool
    }
    fn from_val(v: &Val) -> Self {
        *v == Val::Bool(true)
    }
    fn to_val(&self) -> Val {
        Val::Bool(*self)
    }
}
impl Ty for NonZeroUsize {
    fn schema() -> Schema {
        Schema::NonZero
    }
    fn from_val(v: &Val) -> Self {
        NonZeroUsize::new(v.u128() as usize).unwrap()
    }
    fn to_val(&self) -> Val {
        Val::uint(self.get() as u128, 8)
    }
}
impl<const N: usize> Ty for [u8; N] {
    fn schema() -> Schema {
        Schema::Bytes(N)
    }
    fn from_val(v: &Val) -> Self {
        v.bytes().try_into().unwrap()
    }
    fn to_val(&self) -> Val {
        Val::Bytes(self.to_vec())
    }
}
impl<const N: usize> Ty for FixedBytes<N> {
    fn schema() -> Schema {
        Schema::Bytes(N)
    }
    fn from_val(v: &Val) -> Self {
        FixedBytes(v.bytes().try_into().unwrap())
    }
    fn to_val(&self) -> Val {
        Val::Bytes(self.0.to_vec())
    }
}
impl Ty for Address {
    fn schema() -> Schema {
        Schema::Bytes(20)
    }
    fn from_val(v: &Val) -> Self {
        Address(FixedBytes::<20>::from_val(v))
    }
    fn to_val(&self) -> Val {
        Val::Bytes(self.0 .0.to_vec())
    }
}
impl Ty for Bloom {
    fn schema() -> Schema {
        Schema::Bytes(256)
    }
    fn from_val(v: &Val) -> Self {
        Bloom(FixedBytes::<256>::from_val(v))
    }
    fn to_val(&self) -> Val {
        Val::Bytes(self.0 .0.to_vec())
    }
}
impl Ty for Bytes {
    fn schema() -> Schema {
        Schema::ByteList
    }
    fn from_val(v: &Val) -> Self {
        Bytes::from(v.bytes().to_vec())
    }
    fn to_val(&self) -> Val {
        Val::Bytes(self.0.to_vec())
    }
}
impl Ty for U256 {
    fn schema() -> Schema {
        Schema::Uint(32)
    }
    fn from_val(v: &Val) -> Self {
        let mut be = v.bytes().to_vec();
        be.reverse();
        U256::from_be_slice(&be)
    }
    fn to_val(&self) -> Val {
        let mut l = vec![];
        for limb in self.as_limbs() {
            l.extend_from_slice(Val::uint(*limb as u128, 8).bytes());
        }
        Val::Uint(l)
    }
}
impl Ty for U128 {
    fn schema() -> Schema {
        Schema::Uint(16)
    }
    fn from_val(v: &Val) -> Self {
        U128::from(v.u128())
    }
    fn to_val(&self) -> Val {
        let l = self.as_limbs();
        Val::uint(l[0] as u128 | (l[1] as u128) << 64, 16)
    }
}
impl<T: Ty> Ty for Vec<T> {
    fn schema() -> Schema {
        Schema::List(Box::new(T::schema()))
    }
    fn from_val(v: &Val) -> Self {
        v.seq().iter().map(T::from_val).collect()
    }
    fn to_val(&self) -> Val {
        Val::Seq(self.iter().map(T::to_val).collect())
    }
    fn skipped_default(&self) -> bool {
        self.iter().all(T::skipped_default)
    }
    fn mem() -> usize {
        item_mem::<T>()
    }
}
impl<T: Ty, const N: usize> Ty for SmallVec<[T; N]> {
    fn schema() -> Schema {
        Schema::List(Box::new(T::schema()))
    }
    fn from_val(v: &Val) -> Self {
        v.seq().iter().map(T::from_val).collect()
    }
    fn to_val(&self) -> Val {
        Val::Seq(self.iter().map(T::to_val).collect())
    }
    fn mem() -> usize {
        item_mem::<T>() * 2
    }
}
impl<K: Ty + Ord, V: Ty> Ty for BTreeMap<K, V> {
    fn schema() -> Schema {
        Schema::Map(Box::new(K::schema()), Box::new(V::schema()))
    }
    fn from_val(v: &Val) -> Self {
        v.seq()
            .iter()
            .map(|e| (K::from_val(&e.seq()[0]), V::from_val(&e.seq()[1])))
            .collect()
    }
    fn to_val(&self) -> Val {
        Val::Seq(
            self.iter()
                .map(|(k, v)| Val::Seq(vec![k.to_val(), v.to_val()]))
                .collect(),
        )
    }
    fn mem() -> usize {
        8 * <(K, V)>::mem() + 64 + item_mem::<(K, V)>() * 12
    }
}
impl<T: Ty + Ord> Ty for BTreeSet<T> {
    fn schema() -> Schema {
        Schema::Set(Box::new(T::schema()))
    }
    fn from_val(v: &Val) -> Self {
        v.seq().iter().map(T::from_val).collect()
    }
    fn to_val(&self) -> Val {
        Val::Seq(self.iter().map(T::to_val).collect())
    }
    fn mem() -> usize {
        64 + item_mem::<T>() * 12
    }
}
impl<T: Ty> Ty for Option<T> {
    fn schema() -> Schema {
        Schema::Union(vec![None, Some(T::schema())])
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::Var(0, _) => None,
            Val::Var(_, Some(x)) => Some(T::from_val(x)),
            _ => panic!(),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            None => Val::Var(0, None),
            Some(x) => Val::Var(1, Some(Box::new(x.to_val()))),
        }
    }
    fn mem() -> usize {
        T::mem()
    }
}
impl<T: Ty + Sync> Ty for Arc<T> {
    fn schema() -> Schema {
        T::schema()
    }
    fn from_val(v: &Val) -> Self {
        Arc::new(T::from_val(v))
    }
    fn to_val(&self) -> Val {
        (**self).to_val()
    }
    fn mem() -> usize {
        T::mem() + (std::mem::size_of::<T>() + 32).div_ceil(min_wire(&T::schema()))
    }
}
impl<N: Unsigned + Clone + Send + PartialEq + Debug + 'static> Ty for BitList<N> {
    fn schema() -> Schema {
        Schema::Bitlist(N::to_usize())
    }
    fn from_val(v: &Val) -> Self {
        let b = v.bits();
        let mut r = Self::with_capacity(b.len()).unwrap();
        for (i, x) in b.iter().enumerate() {
            r.set(i, *x).unwrap();
        }
        r
    }
    fn to_val(&self) -> Val {
        Val::Bits((0..self.len()).map(|i| self.get(i).unwrap()).collect())
    }
}
impl<N: Unsigned + Clone + Send + PartialEq + Debug + 'static> Ty for BitVector<N> {
    fn schema() -> Schema {
        Schema::Bitvector(N::to_usize())
    }
    fn from_val(v: &Val) -> Self {
        let mut r = Self::new();
        for (i, x) in v.bits().iter().enumerate() {
            r.set(i, *x).unwrap();
        }
        r
    }
    fn to_val(&self) -> Val {
        Val::Bits((0..self.len()).map(|i| self.get(i).unwrap()).collect())
    }
}
impl Ty for BitVectorDynamic {
    fn schema() -> Schema {
        Schema::BitDyn
    }
    fn from_val(v: &Val) -> Self {
        let mut r = Self::new(v.bits().len()).unwrap();
        for (i, x) in v.bits().iter().enumerate() {
            r.set(i, *x).unwrap();
        }
        r
    }
    fn to_val(&self) -> Val {
        Val::Bits((0..self.len()).map(|i| self.get(i).unwrap()).collect())
    }
}
macro_rules! tuple {
    ($($T:ident $i:tt),+) => {
        impl<$($T: Ty),+> Ty for ($($T,)+) {
            fn schema() -> Schema { Schema::Container(vec![$($T::schema()),+]) }
            fn from_val(v: &Val) -> Self { let s = v.seq(); ($($T::from_val(&s[$i]),)+) }
            fn to_val(&self) -> Val { Val::Seq(vec![$(self.$i.to_val()),+]) }
            fn mem() -> usize { 0 $(.max($T::mem()))+ }
        }
    };
}
tuple!(A 0, B 1);
tuple!(A 0, B 1, C 2);
tuple!(A 0, B 1, C 2, D 3);
tuple!(A 0, B 1, C 2, D 3, E 4);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11);

/// Type-erased access to the codec of one concrete type. Kept small: it is compiled per type.
pub struct Codec {
    pub name: &'static str,
    pub schema: Schema,
    pub mem: usize,
    /// [enc.is_fixed, enc.fixed_len, dec.is_fixed, dec.fixed_len]
    pub meta: fn() -> [usize; 4],
    /// append to a buffer that already holds the prefix
    /// appended to a buffer with these contents and this much spare capacity: by the value, by `&T`, by `Arc<T>`
    pub append: fn(&Val, &[u8], usize) -> [Vec<u8>; 3],
    /// as_ssz_bytes, ssz_encode, &T, &&T, Arc<T>, 1-field SszEncoder where applicable
    pub entries: fn(&Val) -> Vec<(&'static str, Vec<u8>)>,
    /// ssz_bytes_len of T, &T, Arc<T>
    pub size: fn(&Val) -> [usize; 3],
    pub as_bytes: fn(&Val) -> Vec<u8>,
    /// (value, re-encoding, skipped fields are default) or the Debug of the error
    pub decode: fn(&[u8]) -> Result<(Val, Vec<u8>, bool), String>,
    /// decode and drop; Some(true) on Ok
    pub decode_only: fn(&[u8]) -> bool,
    /// decode through Arc<T>
    pub decode_arc: fn(&[u8]) -> Option<Val>,
    /// from_ssz_bytes(as_ssz_bytes(v)) == v by PartialEq
    pub round: fn(&Val) -> Result<bool, String>,
}

impl Codec {
    pub fn new<T: Ty + Sync>(name: &'static str) -> Codec {
        Codec {
            name,
            schema: T::schema(),
            mem: T::mem(),
            meta: || {
                [
                    <T as Encode>::is_ssz_fixed_len() as usize,
                    <T as Encode>::ssz_fixed_len(),
                    <T as Decode>::is_ssz_fixed_len() as usize,
                    <T as Decode>::ssz_fixed_len(),
                ]
            },
            append: |v, p, spare| {
                let buf = || {
                    let mut b = Vec::with_capacity(p.len() + spare);
                    b.extend_from_slice(p);
                    b
                };
                let (mut a, mut b, mut c) = (buf(), buf(), buf());
                let x = T::from_val(v);
                x.ssz_append(&mut a);
                <&T as Encode>::ssz_append(&&x, &mut b);
                <Arc<T> as Encode>::ssz_append(&Arc::new(x), &mut c);
                [a, b, c]
            },
            entries: |v| {
                let x = T::from_val(v);
                let mut out = vec![
                    ("as_ssz_bytes", x.as_ssz_bytes()),
                    ("ssz_encode", ssz::ssz_encode(&x)),
                    ("<&T>::as_ssz_bytes", <&T as Encode>::as_ssz_bytes(&&x)),
                    ("ssz_encode(&&T)", ssz::ssz_encode(&&x)),
                ];
                let a = Arc::new(x);
                out.push(("Arc<T>", a.as_ssz_bytes()));
                let mut buf = vec![];
                <Arc<T> as Encode>::ssz_append(&a, &mut buf);
                out.push(("Arc<T>::ssz_append", buf));
                let b = a.clone();
                out.push(("shared Arc<T>", b.as_ssz_bytes()));
                let mut buf = vec![];
                <Arc<T> as Encode>::ssz_append(&b, &mut buf);
                out.push(("shared Arc<T>::ssz_append", buf));
                let mut buf = vec![];
                <&T as Encode>::ssz_append(&&*a, &mut buf);
                out.push(("<&T>::ssz_append", buf));
                out
            },
            size: |v| {
                let x = T::from_val(v);
                let n = x.ssz_bytes_len();
                let m = <&T as Encode>::ssz_bytes_len(&&x);
                [n, m, Arc::new(x).ssz_bytes_len()]
            },
            as_bytes: |v| T::from_val(v).as_ssz_bytes(),
            decode: |b| match T::from_ssz_bytes(b) {
                Ok(x) => Ok((x.to_val(), x.as_ssz_bytes(), x.skipped_default())),
                Err(e) => Err(format!("{e:?}")),
            },
            decode_only: |b| T::from_ssz_bytes(b).is_ok(),
            decode_arc: |b| {
                <Arc<T> as Decode>::from_ssz_bytes(b)
                    .ok()
                    .map(|x| x.to_val())
            },
            round: |v| {
                let x = T::from_val(v);
                let b = x.as_ssz_bytes();
                match T::from_ssz_bytes(&b) {
                    Ok(y) => Ok(y == x),
                    Err(e) => Err(format!("{e:?}")),
                }
            },
        }
    }
}

macro_rules! reg {
    ($v:ident; $($t:ty),* $(,)?) => { $( $v.push(Codec::new::<$t>(stringify!($t))); )* };
}
pub(crate) use reg;

pub fn registry() -> Vec<Codec> {
    use alloy_primitives::{U128, U256};
    use typenum::*;
    let mut v = vec![];
    reg!(v;
        u8, u16, u32, u64, u128, usize, bool, NonZeroUsize,
        [u8; 0], [u8; 1], [u8; 4], [u8; 32], [u8; 48],
        FixedBytes<0>, FixedBytes<4>, FixedBytes<32>, Address, Bloom, Bytes, U256, U128,
        Vec<u8>, Vec<u16>, Vec<u32>, Vec<u64>, Vec<u128>, Vec<usize>, Vec<bool>, Vec<NonZeroUsize>,
        Vec<[u8; 0]>, Vec<[u8; 3]>, Vec<FixedBytes<4>>, Vec<Address>, Vec<Bloom>, Vec<Bytes>, Vec<U256>, Vec<U128>,
        Vec<Vec<u8>>, Vec<Vec<u16>>, Vec<Vec<Vec<u8>>>, Vec<Vec<Vec<Vec<u16>>>>, Vec<Vec<bool>>,
        Vec<(u8, u16)>, Vec<(u8, Vec<u8>)>, Vec<(Vec<u8>, u8)>, Vec<Option<u8>>, Vec<Option<Vec<u16>>>,
        Vec<Vec<Option<u16>>>,
        SmallVec<[u8; 8]>, SmallVec<[u16; 1]>, SmallVec<[Vec<u8>; 2]>, SmallVec<[SmallVec<[u16; 8]>; 8]>,
        SmallVec<[[u8; 0]; 4]>, SmallVec<[(u8, u64); 4]>, Vec<SmallVec<[u8; 2]>>,
        Option<u8>, Option<u16>, Option<bool>, Option<Vec<u8>>, Option<Option<u8>>, Option<(u8, Vec<u16>)>,
        Option<[u8; 0]>, Option<Bytes>, Option<BitList<U5>>, Option<Vec<Vec<u8>>>,
        Arc<u64>, Arc<Vec<u16>>, Vec<Arc<u16>>, Vec<Arc<Vec<u8>>>, Option<Arc<u32>>, Arc<Option<u16>>,
        (u8, u8), (u8, u64), (u16, Vec<u8>), (Vec<u8>, u16), (Vec<u8>, Vec<u16>), ([u8; 0], u8), ([u8; 0], [u8; 0]),
        (bool, NonZeroUsize), (U256, Address), (Option<u8>, Option<Vec<u8>>), (Bytes, u8), (Bytes, Bytes),
        ((u8, u16), u32), ((u8, Vec<u8>), u16), (u8, (Vec<u8>, (Vec<u16>, u8))), (Vec<(u8, Vec<u8>)>, u8),
        (u8, u16, u32), (Vec<u8>, u16, Vec<u8>), (u8, Vec<u16>, u8), (Vec<u8>, Vec<u8>, Vec<u8>),
        (u8, u16, u32, u64), (u8, Vec<u8>, u32, Vec<u16>),
        (u8, u16, u32, u64, u128), (Vec<u8>, u16, Vec<u16>, u64, bool),
        (u8, u16, u32, u64, u128, u8), (u8, u16, u32, Vec<u8>, Vec<u8>, u8),
        (u8, u16, u32, u64, u128, bool, u8), (u8, Vec<u8>, u32, u64, u128, Vec<u16>, u8),
        (u8, u16, u32, u64, u128, bool, u16, u8), (u8, u16, Vec<u8>, u64, u128, Vec<u16>, u8, Option<u8>),
        (u8, u16, u32, u64, u128, bool, u8, u16, u32), (u8, u16, u32, u64, u128, bool, Vec<u8>, Vec<u16>, u8),
        (u8, u16, u32, u64, u128, bool, u8, u16, u32, u64), (Vec<u8>, u16, u32, u64, u128, bool, u8, u16, u32, Vec<u8>),
        (u8, u16, u32, u64, u128, bool, u8, u16, u32, u64, u8), (u8, u16, u32, u64, u128, bool, u8, u16, u32, Vec<u8>, Vec<u16>),
        (u8, u16, u32, u64, u128, bool, u8, u16, u32, u64, u8, u16),
        (u8, Vec<u8>, u16, Vec<u16>, u32, Vec<u32>, u64, Vec<u64>, bool, Option<u8>, u8, Bytes),
        (Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>),
        BTreeMap<u8, u8>, BTreeMap<u8, u16>, BTreeMap<u16, Vec<u8>>, BTreeMap<Vec<u8>, u16>, BTreeMap<Vec<u8>, Vec<u16>>,
        BTreeMap<u32, bool>, BTreeMap<u8, Option<u8>>, BTreeMap<[u8; 0], [u8; 0]>, BTreeMap<u8, Vec<Vec<u8>>>,
        BTreeMap<u8, BTreeMap<u8, u8>>, BTreeMap<(u8, u8), u8>, Vec<BTreeMap<u8, u8>>, BTreeMap<bool, U256>,
        BTreeMap<[u8; 0], u8>, BTreeMap<u16, (u8, Vec<u8>)>,
        BTreeSet<u8>, BTreeSet<u16>, BTreeSet<Vec<u8>>, BTreeSet<(u8, Vec<u8>)>, BTreeSet<bool>, BTreeSet<[u8; 0]>,
        BTreeSet<U256>, BTreeSet<Vec<Vec<u8>>>, BTreeSet<Option<u8>>, (BTreeSet<u8>, BTreeMap<u8, u8>), BTreeSet<BTreeSet<u8>>,
        BitList<U0>, BitList<U1>, BitList<U7>, BitList<U8>, BitList<U9>, BitList<U16>, BitList<U17>, BitList<U64>,
        BitList<U1024>, BitList<U2048>, BitList<U4096>,
        BitVector<U0>, BitVector<U1>, BitVector<U7>, BitVector<U8>, BitVector<U9>, BitVector<U16>, BitVector<U17>,
        BitVector<U64>, BitVector<U512>, BitVector<Sum<U1024, U8>>, BitVector<U2048>, BitVectorDynamic,
        Vec<BitList<U9>>, Vec<BitVector<U9>>, Vec<BitVector<U0>>, Vec<BitVectorDynamic>, (BitList<U3>, BitVector<U3>, BitVectorDynamic),
        (BitVector<U4>, u8, BitList<U8>), Option<BitVector<U12>>,
    );
    v
}

use derive_corpus::*;
use alloy_primitives::{Address, Bloom, Bytes, FixedBytes, U128, U256};
use smallvec::SmallVec;
use ssz::{*};
use std::{collections::{BTreeMap as Map, BTreeSet as Set}, num::NonZeroUsize, sync::Arc};
use arbitrary::{Arbitrary, Unstructured};
use serde::{Deserialize, Serialize};
use typenum::*;
type SmV<T, const N: usize> = SmallVec<[T; N]>;
type B0 = U0; type B1 = U1; type B7 = U7; type B8 = U8; type B9 = U9; type B64 = U64; type B1030 = Sum<U1000, U30>;
fn sv(b: &[u8]) -> SmallVec<[u8; 128]> { SmallVec::from_slice(b) }
fn u8_of(x: UnionSelector) -> u8 { x.into() }
trait Text: Sized { fn to_str(&self) -> Option<String>; fn of_str(s: &str) -> Option<Self>; }
impl<X: Serialize + for<'a> Deserialize<'a>> Text for X {
    fn to_str(&self) -> Option<String> { serde_json::to_string(self).ok().map(|s| s[1..s.len() - 1].to_string()) }
    fn of_str(s: &str) -> Option<Self> { serde_json::from_value(serde_json::Value::String(s.to_string())).ok() }
}
fn unstructured(b: &[u8]) -> Unstructured<'_> { Unstructured::new(b) }
trait Made: Sized { fn made(u: &mut Unstructured<'_>) -> arbitrary::Result<Self>; }
impl<X: for<'a> Arbitrary<'a>> Made for X { fn made(u: &mut Unstructured<'_>) -> arbitrary::Result<Self> { X::arbitrary(u) } }
trait V2: Sized { fn v2clone(&self) -> Self; }
impl<N: Unsigned + Clone> V2 for Bitfield<Variable<N>> { fn v2clone(&self) -> Self { self.clone() } }
include!("driver.rs");
fn main() { run() }

//! Definitions for the derive macros and their reference schemas.
#![allow(dead_code, clippy::all)]
use crate::model::*;
use crate::types::*;
use alloy_primitives::{Address, Bytes, U256};
use smallvec::SmallVec;
use ssz::{BitList, BitVector, BitVectorDynamic, Decode, Encode};
use ssz_derive::{Decode, Encode};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use typenum::*;

ssz::four_byte_option_impl!(leg_u8, u8);
ssz::four_byte_option_impl!(leg_u16, u16);
ssz::four_byte_option_impl!(leg_vec, Vec<u8>);
ssz::four_byte_option_impl!(leg_vecvec, Vec<Vec<u16>>);

/// Fixed-size field codec that differs from the type's own codec: big-endian u16.
pub mod be16 {
    pub mod encode {
        pub fn is_ssz_fixed_len() -> bool {
            true
        }
        pub fn ssz_fixed_len() -> usize {
            2
        }
        pub fn ssz_bytes_len(_: &u16) -> usize {
            2
        }
        pub fn ssz_append(x: &u16, buf: &mut Vec<u8>) {
            buf.push((*x / 256) as u8);
            buf.push((*x % 256) as u8)
        }
    }
    pub mod decode {
        pub fn is_ssz_fixed_len() -> bool {
            true
        }
        pub fn ssz_fixed_len() -> usize {
            2
        }
        pub fn from_ssz_bytes(b: &[u8]) -> Result<u16, ssz::DecodeError> {
            if b.len() != 2 {
                return Err(ssz::DecodeError::BytesInvalid("be16".into()));
            }
            Ok(b[0] as u16 * 256 + b[1] as u16)
        }
    }
}
/// Fixed-size field codec for a type whose own codec is variable-size: exactly three bytes.
pub mod fix3 {
    pub mod encode {
        pub fn is_ssz_fixed_len() -> bool {
            true
        }
        pub fn ssz_fixed_len() -> usize {
            3
        }
        pub fn ssz_bytes_len(_: &Vec<u8>) -> usize {
            3
        }
        pub fn ssz_append(x: &Vec<u8>, buf: &mut Vec<u8>) {
            buf.extend_from_slice(&x[0..3])
        }
    }
    pub mod decode {
        pub fn is_ssz_fixed_len() -> bool {
            true
        }
        pub fn ssz_fixed_len() -> usize {
            3
        }
        pub fn from_ssz_bytes(b: &[u8]) -> Result<Vec<u8>, ssz::DecodeError> {
            if b.len() != 3 {
                return Err(ssz::DecodeError::BytesInvalid("fix3".into()));
            }
            Ok(b.to_vec())
        }
    }
}
/// Variable-size codec for a type without a codec of its own.
#[derive(Debug, PartialEq, Clone, Default)]
pub struct Blob(pub Vec<u8>);
pub mod blob {
    pub mod encode {
        use super::super::Blob;
        pub fn is_ssz_fixed_len() -> bool {
            false
        }
        pub fn ssz_fixed_len() -> usize {
            4
        }
        pub fn ssz_bytes_len(x: &Blob) -> usize {
            x.0.len()
        }
        pub fn ssz_append(x: &Blob, buf: &mut Vec<u8>) {
            buf.extend_from_slice(&x.0)
        }
    }
    pub mod decode {
        use super::super::Blob;
        pub fn is_ssz_fixed_len() -> bool {
            false
        }
        pub fn ssz_fixed_len() -> usize {
            4
        }
        pub fn from_ssz_bytes(b: &[u8]) -> Result<Blob, ssz::DecodeError> {
            Ok(Blob(b.to_vec()))
        }
    }
}
fn bx(v: &Val) -> &Val {
    match v {
        Val::Var(_, Some(b)) => b,
        _ => panic!("model"),
    }
}
fn vi(v: &Val) -> usize {
    match v {
        Val::Var(i, _) => *i,
        _ => panic!("model"),
    }
}

#[derive(Debug, PartialEq, Clone, Default)]
pub struct NoSsz(pub u8);
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct Empty0 {}
impl Ty for Empty0 {
    fn schema() -> Schema {
        Schema::Container(vec![])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {}
    }
    fn mem() -> usize {
        64usize
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct C1F {
    pub f0: u8,
}
impl Ty for C1F {
    fn schema() -> Schema {
        Schema::Container(vec![<u8 as Ty>::schema()])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![self.f0.to_val()])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <u8 as Ty>::from_val(&v.seq()[0]),
        }
    }
    fn mem() -> usize {
        64usize.max(<u8 as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct C1V {
    pub f0: Vec<u8>,
}
impl Ty for C1V {
    fn schema() -> Schema {
        Schema::Container(vec![<Vec<u8> as Ty>::schema()])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![self.f0.to_val()])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <Vec<u8> as Ty>::from_val(&v.seq()[0]),
        }
    }
    fn mem() -> usize {
        64usize.max(<Vec<u8> as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct C1Z {
    pub f0: [u8; 0],
}
impl Ty for C1Z {
    fn schema() -> Schema {
        Schema::Container(vec![<[u8; 0] as Ty>::schema()])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![self.f0.to_val()])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <[u8; 0] as Ty>::from_val(&v.seq()[0]),
        }
    }
    fn mem() -> usize {
        64usize.max(<[u8; 0] as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct PFF {
    pub f0: u8,
    pub f1: u16,
}
impl Ty for PFF {
    fn schema() -> Schema {
        Schema::Container(vec![<u8 as Ty>::schema(), <u16 as Ty>::schema()])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![self.f0.to_val(), self.f1.to_val()])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <u8 as Ty>::from_val(&v.seq()[0]),
            f1: <u16 as Ty>::from_val(&v.seq()[1]),
        }
    }
    fn mem() -> usize {
        64usize.max(<u8 as Ty>::mem()).max(<u16 as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct PFV {
    pub f0: u8,
    pub f1: Vec<u16>,
}
impl Ty for PFV {
    fn schema() -> Schema {
        Schema::Container(vec![<u8 as Ty>::schema(), <Vec<u16> as Ty>::schema()])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![self.f0.to_val(), self.f1.to_val()])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <u8 as Ty>::from_val(&v.seq()[0]),
            f1: <Vec<u16> as Ty>::from_val(&v.seq()[1]),
        }
    }
    fn mem() -> usize {
        64usize.max(<u8 as Ty>::mem()).max(<Vec<u16> as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct PVF {
    pub f0: Vec<u8>,
    pub f1: u16,
}
impl Ty for PVF {
    fn schema() -> Schema {
        Schema::Container(vec![<Vec<u8> as Ty>::schema(), <u16 as Ty>::schema()])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![self.f0.to_val(), self.f1.to_val()])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <Vec<u8> as Ty>::from_val(&v.seq()[0]),
            f1: <u16 as Ty>::from_val(&v.seq()[1]),
        }
    }
    fn mem() -> usize {
        64usize.max(<Vec<u8> as Ty>::mem()).max(<u16 as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct PVV {
    pub f0: Vec<u8>,
    pub f1: Vec<u16>,
}
impl Ty for PVV {
    fn schema() -> Schema {
        Schema::Container(vec![<Vec<u8> as Ty>::schema(), <Vec<u16> as Ty>::schema()])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![self.f0.to_val(), self.f1.to_val()])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <Vec<u8> as Ty>::from_val(&v.seq()[0]),
            f1: <Vec<u16> as Ty>::from_val(&v.seq()[1]),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<Vec<u8> as Ty>::mem())
            .max(<Vec<u16> as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct PFFF {
    pub f0: u8,
    pub f1: u16,
    pub f2: u32,
}
impl Ty for PFFF {
    fn schema() -> Schema {
        Schema::Container(vec![
            <u8 as Ty>::schema(),
            <u16 as Ty>::schema(),
            <u32 as Ty>::schema(),
        ])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val()])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <u8 as Ty>::from_val(&v.seq()[0]),
            f1: <u16 as Ty>::from_val(&v.seq()[1]),
            f2: <u32 as Ty>::from_val(&v.seq()[2]),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<u8 as Ty>::mem())
            .max(<u16 as Ty>::mem())
            .max(<u32 as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct PFFV {
    pub f0: u8,
    pub f1: u16,
    pub f2: Vec<Vec<u8>>,
}
impl Ty for PFFV {
    fn schema() -> Schema {
        Schema::Container(vec![
            <u8 as Ty>::schema(),
            <u16 as Ty>::schema(),
            <Vec<Vec<u8>> as Ty>::schema(),
        ])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val()])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <u8 as Ty>::from_val(&v.seq()[0]),
            f1: <u16 as Ty>::from_val(&v.seq()[1]),
            f2: <Vec<Vec<u8>> as Ty>::from_val(&v.seq()[2]),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<u8 as Ty>::mem())
            .max(<u16 as Ty>::mem())
            .max(<Vec<Vec<u8>> as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct PFVF {
    pub f0: u8,
    pub f1: Vec<u16>,
    pub f2: u32,
}
impl Ty for PFVF {
    fn schema() -> Schema {
        Schema::Container(vec![
            <u8 as Ty>::schema(),
            <Vec<u16> as Ty>::schema(),
            <u32 as Ty>::schema(),
        ])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val()])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <u8 as Ty>::from_val(&v.seq()[0]),
            f1: <Vec<u16> as Ty>::from_val(&v.seq()[1]),
            f2: <u32 as Ty>::from_val(&v.seq()[2]),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<u8 as Ty>::mem())
            .max(<Vec<u16> as Ty>::mem())
            .max(<u32 as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct PFVV {
    pub f0: u8,
    pub f1: Vec<u16>,
    pub f2: Vec<Vec<u8>>,
}
impl Ty for PFVV {
    fn schema() -> Schema {
        Schema::Container(vec![
            <u8 as Ty>::schema(),
            <Vec<u16> as Ty>::schema(),
            <Vec<Vec<u8>> as Ty>::schema(),
        ])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val()])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <u8 as Ty>::from_val(&v.seq()[0]),
            f1: <Vec<u16> as Ty>::from_val(&v.seq()[1]),
            f2: <Vec<Vec<u8>> as Ty>::from_val(&v.seq()[2]),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<u8 as Ty>::mem())
            .max(<Vec<u16> as Ty>::mem())
            .max(<Vec<Vec<u8>> as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct PVFF {
    pub f0: Vec<u8>,
    pub f1: u16,
    pub f2: u32,
}
impl Ty for PVFF {
    fn schema() -> Schema {
        Schema::Container(vec![
            <Vec<u8> as Ty>::schema(),
            <u16 as Ty>::schema(),
            <u32 as Ty>::schema(),
        ])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val()])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <Vec<u8> as Ty>::from_val(&v.seq()[0]),
            f1: <u16 as Ty>::from_val(&v.seq()[1]),
            f2: <u32 as Ty>::from_val(&v.seq()[2]),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<Vec<u8> as Ty>::mem())
            .max(<u16 as Ty>::mem())
            .max(<u32 as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct PVFV {
    pub f0: Vec<u8>,
    pub f1: u16,
    pub f2: Vec<Vec<u8>>,
}
impl Ty for PVFV {
    fn schema() -> Schema {
        Schema::Container(vec![
            <Vec<u8> as Ty>::schema(),
            <u16 as Ty>::schema(),
            <Vec<Vec<u8>> as Ty>::schema(),
        ])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val()])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <Vec<u8> as Ty>::from_val(&v.seq()[0]),
            f1: <u16 as Ty>::from_val(&v.seq()[1]),
            f2: <Vec<Vec<u8>> as Ty>::from_val(&v.seq()[2]),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<Vec<u8> as Ty>::mem())
            .max(<u16 as Ty>::mem())
            .max(<Vec<Vec<u8>> as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct PVVF {
    pub f0: Vec<u8>,
    pub f1: Vec<u16>,
    pub f2: u32,
}
impl Ty for PVVF {
    fn schema() -> Schema {
        Schema::Container(vec![
            <Vec<u8> as Ty>::schema(),
            <Vec<u16> as Ty>::schema(),
            <u32 as Ty>::schema(),
        ])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val()])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <Vec<u8> as Ty>::from_val(&v.seq()[0]),
            f1: <Vec<u16> as Ty>::from_val(&v.seq()[1]),
            f2: <u32 as Ty>::from_val(&v.seq()[2]),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<Vec<u8> as Ty>::mem())
            .max(<Vec<u16> as Ty>::mem())
            .max(<u32 as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct PVVV {
    pub f0: Vec<u8>,
    pub f1: Vec<u16>,
    pub f2: Vec<Vec<u8>>,
}
impl Ty for PVVV {
    fn schema() -> Schema {
        Schema::Container(vec![
            <Vec<u8> as Ty>::schema(),
            <Vec<u16> as Ty>::schema(),
            <Vec<Vec<u8>> as Ty>::schema(),
        ])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val()])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <Vec<u8> as Ty>::from_val(&v.seq()[0]),
            f1: <Vec<u16> as Ty>::from_val(&v.seq()[1]),
            f2: <Vec<Vec<u8>> as Ty>::from_val(&v.seq()[2]),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<Vec<u8> as Ty>::mem())
            .max(<Vec<u16> as Ty>::mem())
            .max(<Vec<Vec<u8>> as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct PFFFV {
    pub f0: u8,
    pub f1: u16,
    pub f2: u32,
    pub f3: Option<u8>,
}
impl Ty for PFFFV {
    fn schema() -> Schema {
        Schema::Container(vec![
            <u8 as Ty>::schema(),
            <u16 as Ty>::schema(),
            <u32 as Ty>::schema(),
            <Option<u8> as Ty>::schema(),
        ])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![
            self.f0.to_val(),
            self.f1.to_val(),
            self.f2.to_val(),
            self.f3.to_val(),
        ])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <u8 as Ty>::from_val(&v.seq()[0]),
            f1: <u16 as Ty>::from_val(&v.seq()[1]),
            f2: <u32 as Ty>::from_val(&v.seq()[2]),
            f3: <Option<u8> as Ty>::from_val(&v.seq()[3]),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<u8 as Ty>::mem())
            .max(<u16 as Ty>::mem())
            .max(<u32 as Ty>::mem())
            .max(<Option<u8> as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct PFFVF {
    pub f0: u8,
    pub f1: u16,
    pub f2: Vec<Vec<u8>>,
    pub f3: u64,
}
impl Ty for PFFVF {
    fn schema() -> Schema {
        Schema::Container(vec![
            <u8 as Ty>::schema(),
            <u16 as Ty>::schema(),
            <Vec<Vec<u8>> as Ty>::schema(),
            <u64 as Ty>::schema(),
        ])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![
            self.f0.to_val(),
            self.f1.to_val(),
            self.f2.to_val(),
            self.f3.to_val(),
        ])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <u8 as Ty>::from_val(&v.seq()[0]),
            f1: <u16 as Ty>::from_val(&v.seq()[1]),
            f2: <Vec<Vec<u8>> as Ty>::from_val(&v.seq()[2]),
            f3: <u64 as Ty>::from_val(&v.seq()[3]),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<u8 as Ty>::mem())
            .max(<u16 as Ty>::mem())
            .max(<Vec<Vec<u8>> as Ty>::mem())
            .max(<u64 as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct PFFVV {
    pub f0: u8,
    pub f1: u16,
    pub f2: Vec<Vec<u8>>,
    pub f3: Option<u8>,
}
impl Ty for PFFVV {
    fn schema() -> Schema {
        Schema::Container(vec![
            <u8 as Ty>::schema(),
            <u16 as Ty>::schema(),
            <Vec<Vec<u8>> as Ty>::schema(),
            <Option<u8> as Ty>::schema(),
        ])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![
            self.f0.to_val(),
            self.f1.to_val(),
            self.f2.to_val(),
            self.f3.to_val(),
        ])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <u8 as Ty>::from_val(&v.seq()[0]),
            f1: <u16 as Ty>::from_val(&v.seq()[1]),
            f2: <Vec<Vec<u8>> as Ty>::from_val(&v.seq()[2]),
            f3: <Option<u8> as Ty>::from_val(&v.seq()[3]),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<u8 as Ty>::mem())
            .max(<u16 as Ty>::mem())
            .max(<Vec<Vec<u8>> as Ty>::mem())
            .max(<Option<u8> as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct PFVFF {
    pub f0: u8,
    pub f1: Vec<u16>,
    pub f2: u32,
    pub f3: u64,
}
impl Ty for PFVFF {
    fn schema() -> Schema {
        Schema::Container(vec![
            <u8 as Ty>::schema(),
            <Vec<u16> as Ty>::schema(),
            <u32 as Ty>::schema(),
            <u64 as Ty>::schema(),
        ])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![
            self.f0.to_val(),
            self.f1.to_val(),
            self.f2.to_val(),
            self.f3.to_val(),
        ])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <u8 as Ty>::from_val(&v.seq()[0]),
            f1: <Vec<u16> as Ty>::from_val(&v.seq()[1]),
            f2: <u32 as Ty>::from_val(&v.seq()[2]),
            f3: <u64 as Ty>::from_val(&v.seq()[3]),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<u8 as Ty>::mem())
            .max(<Vec<u16> as Ty>::mem())
            .max(<u32 as Ty>::mem())
            .max(<u64 as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct PFVFV {
    pub f0: u8,
    pub f1: Vec<u16>,
    pub f2: u32,
    pub f3: Option<u8>,
}
impl Ty for PFVFV {
    fn schema() -> Schema {
        Schema::Container(vec![
            <u8 as Ty>::schema(),
            <Vec<u16> as Ty>::schema(),
            <u32 as Ty>::schema(),
            <Option<u8> as Ty>::schema(),
        ])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![
            self.f0.to_val(),
            self.f1.to_val(),
            self.f2.to_val(),
            self.f3.to_val(),
        ])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <u8 as Ty>::from_val(&v.seq()[0]),
            f1: <Vec<u16> as Ty>::from_val(&v.seq()[1]),
            f2: <u32 as Ty>::from_val(&v.seq()[2]),
            f3: <Option<u8> as Ty>::from_val(&v.seq()[3]),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<u8 as Ty>::mem())
            .max(<Vec<u16> as Ty>::mem())
            .max(<u32 as Ty>::mem())
            .max(<Option<u8> as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct PFVVF {
    pub f0: u8,
    pub f1: Vec<u16>,
    pub f2: Vec<Vec<u8>>,
    pub f3: u64,
}
impl Ty for PFVVF {
    fn schema() -> Schema {
        Schema::Container(vec![
            <u8 as Ty>::schema(),
            <Vec<u16> as Ty>::schema(),
            <Vec<Vec<u8>> as Ty>::schema(),
            <u64 as Ty>::schema(),
        ])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![
            self.f0.to_val(),
            self.f1.to_val(),
            self.f2.to_val(),
            self.f3.to_val(),
        ])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <u8 as Ty>::from_val(&v.seq()[0]),
            f1: <Vec<u16> as Ty>::from_val(&v.seq()[1]),
            f2: <Vec<Vec<u8>> as Ty>::from_val(&v.seq()[2]),
            f3: <u64 as Ty>::from_val(&v.seq()[3]),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<u8 as Ty>::mem())
            .max(<Vec<u16> as Ty>::mem())
            .max(<Vec<Vec<u8>> as Ty>::mem())
            .max(<u64 as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct PFVVV {
    pub f0: u8,
    pub f1: Vec<u16>,
    pub f2: Vec<Vec<u8>>,
    pub f3: Option<u8>,
}
impl Ty for PFVVV {
    fn schema() -> Schema {
        Schema::Container(vec![
            <u8 as Ty>::schema(),
            <Vec<u16> as Ty>::schema(),
            <Vec<Vec<u8>> as Ty>::schema(),
            <Option<u8> as Ty>::schema(),
        ])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![
            self.f0.to_val(),
            self.f1.to_val(),
            self.f2.to_val(),
            self.f3.to_val(),
        ])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <u8 as Ty>::from_val(&v.seq()[0]),
            f1: <Vec<u16> as Ty>::from_val(&v.seq()[1]),
            f2: <Vec<Vec<u8>> as Ty>::from_val(&v.seq()[2]),
            f3: <Option<u8> as Ty>::from_val(&v.seq()[3]),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<u8 as Ty>::mem())
            .max(<Vec<u16> as Ty>::mem())
            .max(<Vec<Vec<u8>> as Ty>::mem())
            .max(<Option<u8> as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct PVFFF {
    pub f0: Vec<u8>,
    pub f1: u16,
    pub f2: u32,
    pub f3: u64,
}
impl Ty for PVFFF {
    fn schema() -> Schema {
        Schema::Container(vec![
            <Vec<u8> as Ty>::schema(),
            <u16 as Ty>::schema(),
            <u32 as Ty>::schema(),
            <u64 as Ty>::schema(),
        ])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![
            self.f0.to_val(),
            self.f1.to_val(),
            self.f2.to_val(),
            self.f3.to_val(),
        ])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <Vec<u8> as Ty>::from_val(&v.seq()[0]),
            f1: <u16 as Ty>::from_val(&v.seq()[1]),
            f2: <u32 as Ty>::from_val(&v.seq()[2]),
            f3: <u64 as Ty>::from_val(&v.seq()[3]),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<Vec<u8> as Ty>::mem())
            .max(<u16 as Ty>::mem())
            .max(<u32 as Ty>::mem())
            .max(<u64 as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct PVFFV {
    pub f0: Vec<u8>,
    pub f1: u16,
    pub f2: u32,
    pub f3: Option<u8>,
}
impl Ty for PVFFV {
    fn schema() -> Schema {
        Schema::Container(vec![
            <Vec<u8> as Ty>::schema(),
            <u16 as Ty>::schema(),
            <u32 as Ty>::schema(),
            <Option<u8> as Ty>::schema(),
        ])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![
            self.f0.to_val(),
            self.f1.to_val(),
            self.f2.to_val(),
            self.f3.to_val(),
        ])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <Vec<u8> as Ty>::from_val(&v.seq()[0]),
            f1: <u16 as Ty>::from_val(&v.seq()[1]),
            f2: <u32 as Ty>::from_val(&v.seq()[2]),
            f3: <Option<u8> as Ty>::from_val(&v.seq()[3]),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<Vec<u8> as Ty>::mem())
            .max(<u16 as Ty>::mem())
            .max(<u32 as Ty>::mem())
            .max(<Option<u8> as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct PVFVF {
    pub f0: Vec<u8>,
    pub f1: u16,
    pub f2: Vec<Vec<u8>>,
    pub f3: u64,
}
impl Ty for PVFVF {
    fn schema() -> Schema {
        Schema::Container(vec![
            <Vec<u8> as Ty>::schema(),
            <u16 as Ty>::schema(),
            <Vec<Vec<u8>> as Ty>::schema(),
            <u64 as Ty>::schema(),
        ])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![
            self.f0.to_val(),
            self.f1.to_val(),
            self.f2.to_val(),
            self.f3.to_val(),
        ])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <Vec<u8> as Ty>::from_val(&v.seq()[0]),
            f1: <u16 as Ty>::from_val(&v.seq()[1]),
            f2: <Vec<Vec<u8>> as Ty>::from_val(&v.seq()[2]),
            f3: <u64 as Ty>::from_val(&v.seq()[3]),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<Vec<u8> as Ty>::mem())
            .max(<u16 as Ty>::mem())
            .max(<Vec<Vec<u8>> as Ty>::mem())
            .max(<u64 as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct PVFVV {
    pub f0: Vec<u8>,
    pub f1: u16,
    pub f2: Vec<Vec<u8>>,
    pub f3: Option<u8>,
}
impl Ty for PVFVV {
    fn schema() -> Schema {
        Schema::Container(vec![
            <Vec<u8> as Ty>::schema(),
            <u16 as Ty>::schema(),
            <Vec<Vec<u8>> as Ty>::schema(),
            <Option<u8> as Ty>::schema(),
        ])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![
            self.f0.to_val(),
            self.f1.to_val(),
            self.f2.to_val(),
            self.f3.to_val(),
        ])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <Vec<u8> as Ty>::from_val(&v.seq()[0]),
            f1: <u16 as Ty>::from_val(&v.seq()[1]),
            f2: <Vec<Vec<u8>> as Ty>::from_val(&v.seq()[2]),
            f3: <Option<u8> as Ty>::from_val(&v.seq()[3]),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<Vec<u8> as Ty>::mem())
            .max(<u16 as Ty>::mem())
            .max(<Vec<Vec<u8>> as Ty>::mem())
            .max(<Option<u8> as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct PVVFF {
    pub f0: Vec<u8>,
    pub f1: Vec<u16>,
    pub f2: u32,
    pub f3: u64,
}
impl Ty for PVVFF {
    fn schema() -> Schema {
        Schema::Container(vec![
            <Vec<u8> as Ty>::schema(),
            <Vec<u16> as Ty>::schema(),
            <u32 as Ty>::schema(),
            <u64 as Ty>::schema(),
        ])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![
            self.f0.to_val(),
            self.f1.to_val(),
            self.f2.to_val(),
            self.f3.to_val(),
        ])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <Vec<u8> as Ty>::from_val(&v.seq()[0]),
            f1: <Vec<u16> as Ty>::from_val(&v.seq()[1]),
            f2: <u32 as Ty>::from_val(&v.seq()[2]),
            f3: <u64 as Ty>::from_val(&v.seq()[3]),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<Vec<u8> as Ty>::mem())
            .max(<Vec<u16> as Ty>::mem())
            .max(<u32 as Ty>::mem())
            .max(<u64 as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct PVVFV {
    pub f0: Vec<u8>,
    pub f1: Vec<u16>,
    pub f2: u32,
    pub f3: Option<u8>,
}
impl Ty for PVVFV {
    fn schema() -> Schema {
        Schema::Container(vec![
            <Vec<u8> as Ty>::schema(),
            <Vec<u16> as Ty>::schema(),
            <u32 as Ty>::schema(),
            <Option<u8> as Ty>::schema(),
        ])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![
            self.f0.to_val(),
            self.f1.to_val(),
            self.f2.to_val(),
            self.f3.to_val(),
        ])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <Vec<u8> as Ty>::from_val(&v.seq()[0]),
            f1: <Vec<u16> as Ty>::from_val(&v.seq()[1]),
            f2: <u32 as Ty>::from_val(&v.seq()[2]),
            f3: <Option<u8> as Ty>::from_val(&v.seq()[3]),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<Vec<u8> as Ty>::mem())
            .max(<Vec<u16> as Ty>::mem())
            .max(<u32 as Ty>::mem())
            .max(<Option<u8> as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct PVVVF {
    pub f0: Vec<u8>,
    pub f1: Vec<u16>,
    pub f2: Vec<Vec<u8>>,
    pub f3: u64,
}
impl Ty for PVVVF {
    fn schema() -> Schema {
        Schema::Container(vec![
            <Vec<u8> as Ty>::schema(),
            <Vec<u16> as Ty>::schema(),
            <Vec<Vec<u8>> as Ty>::schema(),
            <u64 as Ty>::schema(),
        ])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![
            self.f0.to_val(),
            self.f1.to_val(),
            self.f2.to_val(),
            self.f3.to_val(),
        ])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <Vec<u8> as Ty>::from_val(&v.seq()[0]),
            f1: <Vec<u16> as Ty>::from_val(&v.seq()[1]),
            f2: <Vec<Vec<u8>> as Ty>::from_val(&v.seq()[2]),
            f3: <u64 as Ty>::from_val(&v.seq()[3]),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<Vec<u8> as Ty>::mem())
            .max(<Vec<u16> as Ty>::mem())
            .max(<Vec<Vec<u8>> as Ty>::mem())
            .max(<u64 as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct C6 {
    pub f0: Vec<u8>,
    pub f1: u8,
    pub f2: Vec<u8>,
    pub f3: u8,
    pub f4: Vec<u8>,
    pub f5: u8,
}
impl Ty for C6 {
    fn schema() -> Schema {
        Schema::Container(vec![
            <Vec<u8> as Ty>::schema(),
            <u8 as Ty>::schema(),
            <Vec<u8> as Ty>::schema(),
            <u8 as Ty>::schema(),
            <Vec<u8> as Ty>::schema(),
            <u8 as Ty>::schema(),
        ])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![
            self.f0.to_val(),
            self.f1.to_val(),
            self.f2.to_val(),
            self.f3.to_val(),
            self.f4.to_val(),
            self.f5.to_val(),
        ])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <Vec<u8> as Ty>::from_val(&v.seq()[0]),
            f1: <u8 as Ty>::from_val(&v.seq()[1]),
            f2: <Vec<u8> as Ty>::from_val(&v.seq()[2]),
            f3: <u8 as Ty>::from_val(&v.seq()[3]),
            f4: <Vec<u8> as Ty>::from_val(&v.seq()[4]),
            f5: <u8 as Ty>::from_val(&v.seq()[5]),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<Vec<u8> as Ty>::mem())
            .max(<u8 as Ty>::mem())
            .max(<Vec<u8> as Ty>::mem())
            .max(<u8 as Ty>::mem())
            .max(<Vec<u8> as Ty>::mem())
            .max(<u8 as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct C8F {
    pub f0: u8,
    pub f1: u16,
    pub f2: u32,
    pub f3: u64,
    pub f4: u128,
    pub f5: bool,
    pub f6: [u8; 4],
    pub f7: U256,
}
impl Ty for C8F {
    fn schema() -> Schema {
        Schema::Container(vec![
            <u8 as Ty>::schema(),
            <u16 as Ty>::schema(),
            <u32 as Ty>::schema(),
            <u64 as Ty>::schema(),
            <u128 as Ty>::schema(),
            <bool as Ty>::schema(),
            <[u8; 4] as Ty>::schema(),
            <U256 as Ty>::schema(),
        ])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![
            self.f0.to_val(),
            self.f1.to_val(),
            self.f2.to_val(),
            self.f3.to_val(),
            self.f4.to_val(),
            self.f5.to_val(),
            self.f6.to_val(),
            self.f7.to_val(),
        ])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <u8 as Ty>::from_val(&v.seq()[0]),
            f1: <u16 as Ty>::from_val(&v.seq()[1]),
            f2: <u32 as Ty>::from_val(&v.seq()[2]),
            f3: <u64 as Ty>::from_val(&v.seq()[3]),
            f4: <u128 as Ty>::from_val(&v.seq()[4]),
            f5: <bool as Ty>::from_val(&v.seq()[5]),
            f6: <[u8; 4] as Ty>::from_val(&v.seq()[6]),
            f7: <U256 as Ty>::from_val(&v.seq()[7]),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<u8 as Ty>::mem())
            .max(<u16 as Ty>::mem())
            .max(<u32 as Ty>::mem())
            .max(<u64 as Ty>::mem())
            .max(<u128 as Ty>::mem())
            .max(<bool as Ty>::mem())
            .max(<[u8; 4] as Ty>::mem())
            .max(<U256 as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct C10 {
    pub f0: bool,
    pub f1: Vec<u16>,
    pub f2: U256,
    pub f3: Address,
    pub f4: Bytes,
    pub f5: [u8; 3],
    pub f6: BitList<U9>,
    pub f7: BitVector<U9>,
    pub f8: BitVectorDynamic,
    pub f9: u128,
}
impl Ty for C10 {
    fn schema() -> Schema {
        Schema::Container(vec![
            <bool as Ty>::schema(),
            <Vec<u16> as Ty>::schema(),
            <U256 as Ty>::schema(),
            <Address as Ty>::schema(),
            <Bytes as Ty>::schema(),
            <[u8; 3] as Ty>::schema(),
            <BitList<U9> as Ty>::schema(),
            <BitVector<U9> as Ty>::schema(),
            <BitVectorDynamic as Ty>::schema(),
            <u128 as Ty>::schema(),
        ])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![
            self.f0.to_val(),
            self.f1.to_val(),
            self.f2.to_val(),
            self.f3.to_val(),
            self.f4.to_val(),
            self.f5.to_val(),
            self.f6.to_val(),
            self.f7.to_val(),
            self.f8.to_val(),
            self.f9.to_val(),
        ])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <bool as Ty>::from_val(&v.seq()[0]),
            f1: <Vec<u16> as Ty>::from_val(&v.seq()[1]),
            f2: <U256 as Ty>::from_val(&v.seq()[2]),
            f3: <Address as Ty>::from_val(&v.seq()[3]),
            f4: <Bytes as Ty>::from_val(&v.seq()[4]),
            f5: <[u8; 3] as Ty>::from_val(&v.seq()[5]),
            f6: <BitList<U9> as Ty>::from_val(&v.seq()[6]),
            f7: <BitVector<U9> as Ty>::from_val(&v.seq()[7]),
            f8: <BitVectorDynamic as Ty>::from_val(&v.seq()[8]),
            f9: <u128 as Ty>::from_val(&v.seq()[9]),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<bool as Ty>::mem())
            .max(<Vec<u16> as Ty>::mem())
            .max(<U256 as Ty>::mem())
            .max(<Address as Ty>::mem())
            .max(<Bytes as Ty>::mem())
            .max(<[u8; 3] as Ty>::mem())
            .max(<BitList<U9> as Ty>::mem())
            .max(<BitVector<U9> as Ty>::mem())
            .max(<BitVectorDynamic as Ty>::mem())
            .max(<u128 as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct C10V {
    pub f0: Vec<u8>,
    pub f1: Vec<u8>,
    pub f2: Vec<u8>,
    pub f3: Vec<u8>,
    pub f4: Vec<u8>,
    pub f5: Vec<u8>,
    pub f6: Vec<u8>,
    pub f7: Vec<u8>,
    pub f8: Vec<u8>,
    pub f9: Vec<u8>,
}
impl Ty for C10V {
    fn schema() -> Schema {
        Schema::Container(vec![
            <Vec<u8> as Ty>::schema(),
            <Vec<u8> as Ty>::schema(),
            <Vec<u8> as Ty>::schema(),
            <Vec<u8> as Ty>::schema(),
            <Vec<u8> as Ty>::schema(),
            <Vec<u8> as Ty>::schema(),
            <Vec<u8> as Ty>::schema(),
            <Vec<u8> as Ty>::schema(),
            <Vec<u8> as Ty>::schema(),
            <Vec<u8> as Ty>::schema(),
        ])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![
            self.f0.to_val(),
            self.f1.to_val(),
            self.f2.to_val(),
            self.f3.to_val(),
            self.f4.to_val(),
            self.f5.to_val(),
            self.f6.to_val(),
            self.f7.to_val(),
            self.f8.to_val(),
            self.f9.to_val(),
        ])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <Vec<u8> as Ty>::from_val(&v.seq()[0]),
            f1: <Vec<u8> as Ty>::from_val(&v.seq()[1]),
            f2: <Vec<u8> as Ty>::from_val(&v.seq()[2]),
            f3: <Vec<u8> as Ty>::from_val(&v.seq()[3]),
            f4: <Vec<u8> as Ty>::from_val(&v.seq()[4]),
            f5: <Vec<u8> as Ty>::from_val(&v.seq()[5]),
            f6: <Vec<u8> as Ty>::from_val(&v.seq()[6]),
            f7: <Vec<u8> as Ty>::from_val(&v.seq()[7]),
            f8: <Vec<u8> as Ty>::from_val(&v.seq()[8]),
            f9: <Vec<u8> as Ty>::from_val(&v.seq()[9]),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<Vec<u8> as Ty>::mem())
            .max(<Vec<u8> as Ty>::mem())
            .max(<Vec<u8> as Ty>::mem())
            .max(<Vec<u8> as Ty>::mem())
            .max(<Vec<u8> as Ty>::mem())
            .max(<Vec<u8> as Ty>::mem())
            .max(<Vec<u8> as Ty>::mem())
            .max(<Vec<u8> as Ty>::mem())
            .max(<Vec<u8> as Ty>::mem())
            .max(<Vec<u8> as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct C17V {
    pub f0: u8,
    pub f1: Vec<u8>,
    pub f2: Vec<u8>,
    pub f3: u8,
    pub f4: Vec<u8>,
    pub f5: Vec<u8>,
    pub f6: u8,
    pub f7: Vec<u8>,
    pub f8: Vec<u8>,
    pub f9: u8,
    pub f10: Vec<u8>,
    pub f11: Vec<u8>,
    pub f12: u8,
    pub f13: Vec<u8>,
    pub f14: Vec<u8>,
    pub f15: u8,
    pub f16: Vec<u8>,
}
impl Ty for C17V {
    fn schema() -> Schema {
        Schema::Container(vec![
            <u8 as Ty>::schema(),
            <Vec<u8> as Ty>::schema(),
            <Vec<u8> as Ty>::schema(),
            <u8 as Ty>::schema(),
            <Vec<u8> as Ty>::schema(),
            <Vec<u8> as Ty>::schema(),
            <u8 as Ty>::schema(),
            <Vec<u8> as Ty>::schema(),
            <Vec<u8> as Ty>::schema(),
            <u8 as Ty>::schema(),
            <Vec<u8> as Ty>::schema(),
            <Vec<u8> as Ty>::schema(),
            <u8 as Ty>::schema(),
            <Vec<u8> as Ty>::schema(),
            <Vec<u8> as Ty>::schema(),
            <u8 as Ty>::schema(),
            <Vec<u8> as Ty>::schema(),
        ])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![
            self.f0.to_val(),
            self.f1.to_val(),
            self.f2.to_val(),
            self.f3.to_val(),
            self.f4.to_val(),
            self.f5.to_val(),
            self.f6.to_val(),
            self.f7.to_val(),
            self.f8.to_val(),
            self.f9.to_val(),
            self.f10.to_val(),
            self.f11.to_val(),
            self.f12.to_val(),
            self.f13.to_val(),
            self.f14.to_val(),
            self.f15.to_val(),
            self.f16.to_val(),
        ])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <u8 as Ty>::from_val(&v.seq()[0]),
            f1: <Vec<u8> as Ty>::from_val(&v.seq()[1]),
            f2: <Vec<u8> as Ty>::from_val(&v.seq()[2]),
            f3: <u8 as Ty>::from_val(&v.seq()[3]),
            f4: <Vec<u8> as Ty>::from_val(&v.seq()[4]),
            f5: <Vec<u8> as Ty>::from_val(&v.seq()[5]),
            f6: <u8 as Ty>::from_val(&v.seq()[6]),
            f7: <Vec<u8> as Ty>::from_val(&v.seq()[7]),
            f8: <Vec<u8> as Ty>::from_val(&v.seq()[8]),
            f9: <u8 as Ty>::from_val(&v.seq()[9]),
            f10: <Vec<u8> as Ty>::from_val(&v.seq()[10]),
            f11: <Vec<u8> as Ty>::from_val(&v.seq()[11]),
            f12: <u8 as Ty>::from_val(&v.seq()[12]),
            f13: <Vec<u8> as Ty>::from_val(&v.seq()[13]),
            f14: <Vec<u8> as Ty>::from_val(&v.seq()[14]),
            f15: <u8 as Ty>::from_val(&v.seq()[15]),
            f16: <Vec<u8> as Ty>::from_val(&v.seq()[16]),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<u8 as Ty>::mem())
            .max(<Vec<u8> as Ty>::mem())
            .max(<Vec<u8> as Ty>::mem())
            .max(<u8 as Ty>::mem())
            .max(<Vec<u8> as Ty>::mem())
            .max(<Vec<u8> as Ty>::mem())
            .max(<u8 as Ty>::mem())
            .max(<Vec<u8> as Ty>::mem())
            .max(<Vec<u8> as Ty>::mem())
            .max(<u8 as Ty>::mem())
            .max(<Vec<u8> as Ty>::mem())
            .max(<Vec<u8> as Ty>::mem())
            .max(<u8 as Ty>::mem())
            .max(<Vec<u8> as Ty>::mem())
            .max(<Vec<u8> as Ty>::mem())
            .max(<u8 as Ty>::mem())
            .max(<Vec<u8> as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct Inner {
    pub f0: u8,
    pub f1: Vec<u8>,
}
impl Ty for Inner {
    fn schema() -> Schema {
        Schema::Container(vec![<u8 as Ty>::schema(), <Vec<u8> as Ty>::schema()])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![self.f0.to_val(), self.f1.to_val()])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <u8 as Ty>::from_val(&v.seq()[0]),
            f1: <Vec<u8> as Ty>::from_val(&v.seq()[1]),
        }
    }
    fn mem() -> usize {
        64usize.max(<u8 as Ty>::mem()).max(<Vec<u8> as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct InnerF {
    pub f0: u8,
    pub f1: u16,
}
impl Ty for InnerF {
    fn schema() -> Schema {
        Schema::Container(vec![<u8 as Ty>::schema(), <u16 as Ty>::schema()])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![self.f0.to_val(), self.f1.to_val()])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <u8 as Ty>::from_val(&v.seq()[0]),
            f1: <u16 as Ty>::from_val(&v.seq()[1]),
        }
    }
    fn mem() -> usize {
        64usize.max(<u8 as Ty>::mem()).max(<u16 as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct FixBig {
    pub f0: [u8; 32],
    pub f1: [u8; 48],
    pub f2: InnerF,
    pub f3: u64,
}
impl Ty for FixBig {
    fn schema() -> Schema {
        Schema::Container(vec![
            <[u8; 32] as Ty>::schema(),
            <[u8; 48] as Ty>::schema(),
            <InnerF as Ty>::schema(),
            <u64 as Ty>::schema(),
        ])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![
            self.f0.to_val(),
            self.f1.to_val(),
            self.f2.to_val(),
            self.f3.to_val(),
        ])
    }
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <[u8; 32] as Ty>::from_val(&v.seq()[0]),
            f1: <[u8; 48] as Ty>::from_val(&v.seq()[1]),
            f2: <InnerF as Ty>::from_val(&v.seq()[2]),
            f3: <u64 as Ty>::from_val(&v.seq()[3]),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<[u8; 32] as Ty>::mem())
            .max(<[u8; 48] as Ty>::mem())
            .max(<InnerF as Ty>::mem())
            .max(<u64 as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct FixBig2 {
    pub f0: FixBig,
    pub f1: U256,
    pub f2: [u8; 255],
    pub f3: u16,
    pub f4: [u8; 700],
}
impl Ty for FixBig2 {
    fn schema() -> Schema {
        Schema::Container(vec![
            <FixBig as Ty>::schema(),
            <U256 as Ty>::schema(),
            <[u8; 255] as Ty>::schema(),
            <u16 as Ty>::schema(),
            <[u8; 700] as Ty>::schema(),
        ])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![
            self.f0.to_val(),
            self.f1.to_val(),
            self.f2.to_val(),
            self.f3.to_val(),
            self.f4.to_val(),
        ])
    }
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <FixBig as Ty>::from_val(&v.seq()[0]),
            f1: <U256 as Ty>::from_val(&v.seq()[1]),
            f2: <[u8; 255] as Ty>::from_val(&v.seq()[2]),
            f3: <u16 as Ty>::from_val(&v.seq()[3]),
            f4: <[u8; 700] as Ty>::from_val(&v.seq()[4]),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<FixBig as Ty>::mem())
            .max(<U256 as Ty>::mem())
            .max(<[u8; 255] as Ty>::mem())
            .max(<u16 as Ty>::mem())
            .max(<[u8; 700] as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct FixHead {
    pub f0: FixBig2,
    pub f1: Vec<u8>,
    pub f2: FixBig,
    pub f3: Vec<u16>,
}
impl Ty for FixHead {
    fn schema() -> Schema {
        Schema::Container(vec![
            <FixBig2 as Ty>::schema(),
            <Vec<u8> as Ty>::schema(),
            <FixBig as Ty>::schema(),
            <Vec<u16> as Ty>::schema(),
        ])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![
            self.f0.to_val(),
            self.f1.to_val(),
            self.f2.to_val(),
            self.f3.to_val(),
        ])
    }
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <FixBig2 as Ty>::from_val(&v.seq()[0]),
            f1: <Vec<u8> as Ty>::from_val(&v.seq()[1]),
            f2: <FixBig as Ty>::from_val(&v.seq()[2]),
            f3: <Vec<u16> as Ty>::from_val(&v.seq()[3]),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<FixBig2 as Ty>::mem())
            .max(<Vec<u8> as Ty>::mem())
            .max(<FixBig as Ty>::mem())
            .max(<Vec<u16> as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct Nest1 {
    pub f0: Inner,
    pub f1: u8,
}
impl Ty for Nest1 {
    fn schema() -> Schema {
        Schema::Container(vec![<Inner as Ty>::schema(), <u8 as Ty>::schema()])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![self.f0.to_val(), self.f1.to_val()])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <Inner as Ty>::from_val(&v.seq()[0]),
            f1: <u8 as Ty>::from_val(&v.seq()[1]),
        }
    }
    fn mem() -> usize {
        64usize.max(<Inner as Ty>::mem()).max(<u8 as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct Nest2 {
    pub f0: u8,
    pub f1: InnerF,
    pub f2: Inner,
    pub f3: InnerF,
}
impl Ty for Nest2 {
    fn schema() -> Schema {
        Schema::Container(vec![
            <u8 as Ty>::schema(),
            <InnerF as Ty>::schema(),
            <Inner as Ty>::schema(),
            <InnerF as Ty>::schema(),
        ])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![
            self.f0.to_val(),
            self.f1.to_val(),
            self.f2.to_val(),
            self.f3.to_val(),
        ])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <u8 as Ty>::from_val(&v.seq()[0]),
            f1: <InnerF as Ty>::from_val(&v.seq()[1]),
            f2: <Inner as Ty>::from_val(&v.seq()[2]),
            f3: <InnerF as Ty>::from_val(&v.seq()[3]),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<u8 as Ty>::mem())
            .max(<InnerF as Ty>::mem())
            .max(<Inner as Ty>::mem())
            .max(<InnerF as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct Nest3 {
    pub f0: Vec<Inner>,
    pub f1: Vec<InnerF>,
    pub f2: Nest2,
}
impl Ty for Nest3 {
    fn schema() -> Schema {
        Schema::Container(vec![
            <Vec<Inner> as Ty>::schema(),
            <Vec<InnerF> as Ty>::schema(),
            <Nest2 as Ty>::schema(),
        ])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val()])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <Vec<Inner> as Ty>::from_val(&v.seq()[0]),
            f1: <Vec<InnerF> as Ty>::from_val(&v.seq()[1]),
            f2: <Nest2 as Ty>::from_val(&v.seq()[2]),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<Vec<Inner> as Ty>::mem())
            .max(<Vec<InnerF> as Ty>::mem())
            .max(<Nest2 as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct Nest4 {
    pub f0: Option<Inner>,
    pub f1: Vec<Nest3>,
    pub f2: (u8, Inner),
}
impl Ty for Nest4 {
    fn schema() -> Schema {
        Schema::Container(vec![
            <Option<Inner> as Ty>::schema(),
            <Vec<Nest3> as Ty>::schema(),
            <(u8, Inner) as Ty>::schema(),
        ])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val()])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <Option<Inner> as Ty>::from_val(&v.seq()[0]),
            f1: <Vec<Nest3> as Ty>::from_val(&v.seq()[1]),
            f2: <(u8, Inner) as Ty>::from_val(&v.seq()[2]),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<Option<Inner> as Ty>::mem())
            .max(<Vec<Nest3> as Ty>::mem())
            .max(<(u8, Inner) as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct CMap {
    pub f0: BTreeMap<u8, u16>,
    pub f1: u8,
    pub f2: BTreeSet<Vec<u8>>,
}
impl Ty for CMap {
    fn schema() -> Schema {
        Schema::Container(vec![
            <BTreeMap<u8, u16> as Ty>::schema(),
            <u8 as Ty>::schema(),
            <BTreeSet<Vec<u8>> as Ty>::schema(),
        ])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val()])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <BTreeMap<u8, u16> as Ty>::from_val(&v.seq()[0]),
            f1: <u8 as Ty>::from_val(&v.seq()[1]),
            f2: <BTreeSet<Vec<u8>> as Ty>::from_val(&v.seq()[2]),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<BTreeMap<u8, u16> as Ty>::mem())
            .max(<u8 as Ty>::mem())
            .max(<BTreeSet<Vec<u8>> as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct CArc {
    pub f0: Arc<u16>,
    pub f1: Arc<Vec<u8>>,
}
impl Ty for CArc {
    fn schema() -> Schema {
        Schema::Container(vec![
            <Arc<u16> as Ty>::schema(),
            <Arc<Vec<u8>> as Ty>::schema(),
        ])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![self.f0.to_val(), self.f1.to_val()])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <Arc<u16> as Ty>::from_val(&v.seq()[0]),
            f1: <Arc<Vec<u8>> as Ty>::from_val(&v.seq()[1]),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<Arc<u16> as Ty>::mem())
            .max(<Arc<Vec<u8>> as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct CSmall {
    pub f0: SmallVec<[u16; 2]>,
    pub f1: u8,
    pub f2: SmallVec<[Vec<u8>; 1]>,
}
impl Ty for CSmall {
    fn schema() -> Schema {
        Schema::Container(vec![
            <SmallVec<[u16; 2]> as Ty>::schema(),
            <u8 as Ty>::schema(),
            <SmallVec<[Vec<u8>; 1]> as Ty>::schema(),
        ])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val()])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <SmallVec<[u16; 2]> as Ty>::from_val(&v.seq()[0]),
            f1: <u8 as Ty>::from_val(&v.seq()[1]),
            f2: <SmallVec<[Vec<u8>; 1]> as Ty>::from_val(&v.seq()[2]),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<SmallVec<[u16; 2]> as Ty>::mem())
            .max(<u8 as Ty>::mem())
            .max(<SmallVec<[Vec<u8>; 1]> as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct CZero {
    pub f0: [u8; 0],
    pub f1: Vec<u8>,
    pub f2: [u8; 0],
    pub f3: u8,
}
impl Ty for CZero {
    fn schema() -> Schema {
        Schema::Container(vec![
            <[u8; 0] as Ty>::schema(),
            <Vec<u8> as Ty>::schema(),
            <[u8; 0] as Ty>::schema(),
            <u8 as Ty>::schema(),
        ])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![
            self.f0.to_val(),
            self.f1.to_val(),
            self.f2.to_val(),
            self.f3.to_val(),
        ])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <[u8; 0] as Ty>::from_val(&v.seq()[0]),
            f1: <Vec<u8> as Ty>::from_val(&v.seq()[1]),
            f2: <[u8; 0] as Ty>::from_val(&v.seq()[2]),
            f3: <u8 as Ty>::from_val(&v.seq()[3]),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<[u8; 0] as Ty>::mem())
            .max(<Vec<u8> as Ty>::mem())
            .max(<[u8; 0] as Ty>::mem())
            .max(<u8 as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct SkipFirst {
    #[ssz(skip_serializing, skip_deserializing)]
    pub f0: u64,
    pub f1: u8,
    pub f2: u16,
}
impl Ty for SkipFirst {
    fn schema() -> Schema {
        Schema::Container(vec![<u8 as Ty>::schema(), <u16 as Ty>::schema()])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![self.f1.to_val(), self.f2.to_val()])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: 1 << 40,
            f1: <u8 as Ty>::from_val(&v.seq()[0]),
            f2: <u16 as Ty>::from_val(&v.seq()[1]),
        }
    }
    fn skipped_default(&self) -> bool {
        self.f0 == <u64 as Default>::default()
    }
    fn mem() -> usize {
        64usize.max(<u8 as Ty>::mem()).max(<u16 as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct SkipMid {
    pub f0: u8,
    #[ssz(skip_serializing, skip_deserializing)]
    pub f1: Vec<u8>,
    pub f2: u16,
}
impl Ty for SkipMid {
    fn schema() -> Schema {
        Schema::Container(vec![<u8 as Ty>::schema(), <u16 as Ty>::schema()])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![self.f0.to_val(), self.f2.to_val()])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <u8 as Ty>::from_val(&v.seq()[0]),
            f1: vec![9, 9],
            f2: <u16 as Ty>::from_val(&v.seq()[1]),
        }
    }
    fn skipped_default(&self) -> bool {
        self.f1 == <Vec<u8> as Default>::default()
    }
    fn mem() -> usize {
        64usize.max(<u8 as Ty>::mem()).max(<u16 as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct SkipLast {
    pub f0: u8,
    pub f1: u16,
    #[ssz(skip_serializing, skip_deserializing)]
    pub f2: u32,
}
impl Ty for SkipLast {
    fn schema() -> Schema {
        Schema::Container(vec![<u8 as Ty>::schema(), <u16 as Ty>::schema()])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![self.f0.to_val(), self.f1.to_val()])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <u8 as Ty>::from_val(&v.seq()[0]),
            f1: <u16 as Ty>::from_val(&v.seq()[1]),
            f2: 70000,
        }
    }
    fn skipped_default(&self) -> bool {
        self.f2 == <u32 as Default>::default()
    }
    fn mem() -> usize {
        64usize.max(<u8 as Ty>::mem()).max(<u16 as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct SkipVarFirst {
    #[ssz(skip_serializing, skip_deserializing)]
    pub f0: Vec<u16>,
    pub f1: Vec<u8>,
    pub f2: u16,
}
impl Ty for SkipVarFirst {
    fn schema() -> Schema {
        Schema::Container(vec![<Vec<u8> as Ty>::schema(), <u16 as Ty>::schema()])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![self.f1.to_val(), self.f2.to_val()])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: vec![5],
            f1: <Vec<u8> as Ty>::from_val(&v.seq()[0]),
            f2: <u16 as Ty>::from_val(&v.seq()[1]),
        }
    }
    fn skipped_default(&self) -> bool {
        self.f0 == <Vec<u16> as Default>::default()
    }
    fn mem() -> usize {
        64usize.max(<Vec<u8> as Ty>::mem()).max(<u16 as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct SkipVarMid {
    pub f0: Vec<u8>,
    #[ssz(skip_serializing, skip_deserializing)]
    pub f1: u64,
    pub f2: Vec<u16>,
}
impl Ty for SkipVarMid {
    fn schema() -> Schema {
        Schema::Container(vec![<Vec<u8> as Ty>::schema(), <Vec<u16> as Ty>::schema()])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![self.f0.to_val(), self.f2.to_val()])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <Vec<u8> as Ty>::from_val(&v.seq()[0]),
            f1: 1 << 40,
            f2: <Vec<u16> as Ty>::from_val(&v.seq()[1]),
        }
    }
    fn skipped_default(&self) -> bool {
        self.f1 == <u64 as Default>::default()
    }
    fn mem() -> usize {
        64usize
            .max(<Vec<u8> as Ty>::mem())
            .max(<Vec<u16> as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct SkipVarLast {
    pub f0: u16,
    pub f1: Vec<u8>,
    #[ssz(skip_serializing, skip_deserializing)]
    pub f2: Vec<u8>,
}
impl Ty for SkipVarLast {
    fn schema() -> Schema {
        Schema::Container(vec![<u16 as Ty>::schema(), <Vec<u8> as Ty>::schema()])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![self.f0.to_val(), self.f1.to_val()])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <u16 as Ty>::from_val(&v.seq()[0]),
            f1: <Vec<u8> as Ty>::from_val(&v.seq()[1]),
            f2: vec![9, 9],
        }
    }
    fn skipped_default(&self) -> bool {
        self.f2 == <Vec<u8> as Default>::default()
    }
    fn mem() -> usize {
        64usize.max(<u16 as Ty>::mem()).max(<Vec<u8> as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct SkipMany {
    #[ssz(skip_serializing, skip_deserializing)]
    pub f0: u8,
    pub f1: u16,
    #[ssz(skip_serializing, skip_deserializing)]
    pub f2: u32,
    pub f3: Vec<u8>,
    #[ssz(skip_serializing, skip_deserializing)]
    pub f4: NoSsz,
    pub f5: bool,
    #[ssz(skip_serializing, skip_deserializing)]
    pub f6: Option<u8>,
}
impl Ty for SkipMany {
    fn schema() -> Schema {
        Schema::Container(vec![
            <u16 as Ty>::schema(),
            <Vec<u8> as Ty>::schema(),
            <bool as Ty>::schema(),
        ])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![self.f1.to_val(), self.f3.to_val(), self.f5.to_val()])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: 7,
            f1: <u16 as Ty>::from_val(&v.seq()[0]),
            f2: 70000,
            f3: <Vec<u8> as Ty>::from_val(&v.seq()[1]),
            f4: NoSsz(4),
            f5: <bool as Ty>::from_val(&v.seq()[2]),
            f6: Some(3),
        }
    }
    fn skipped_default(&self) -> bool {
        self.f0 == <u8 as Default>::default()
            && self.f2 == <u32 as Default>::default()
            && self.f4 == <NoSsz as Default>::default()
            && self.f6 == <Option<u8> as Default>::default()
    }
    fn mem() -> usize {
        64usize
            .max(<u16 as Ty>::mem())
            .max(<Vec<u8> as Ty>::mem())
            .max(<bool as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct SkipAll {
    #[ssz(skip_serializing, skip_deserializing)]
    pub f0: u8,
    #[ssz(skip_serializing, skip_deserializing)]
    pub f1: Vec<u8>,
}
impl Ty for SkipAll {
    fn schema() -> Schema {
        Schema::Container(vec![])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: 7,
            f1: vec![9, 9],
        }
    }
    fn skipped_default(&self) -> bool {
        self.f0 == <u8 as Default>::default() && self.f1 == <Vec<u8> as Default>::default()
    }
    fn mem() -> usize {
        64usize
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct SkipAllButFixed {
    #[ssz(skip_serializing, skip_deserializing)]
    pub f0: u8,
    pub f1: u16,
    #[ssz(skip_serializing, skip_deserializing)]
    pub f2: Vec<u8>,
}
impl Ty for SkipAllButFixed {
    fn schema() -> Schema {
        Schema::Container(vec![<u16 as Ty>::schema()])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![self.f1.to_val()])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: 7,
            f1: <u16 as Ty>::from_val(&v.seq()[0]),
            f2: vec![9, 9],
        }
    }
    fn skipped_default(&self) -> bool {
        self.f0 == <u8 as Default>::default() && self.f2 == <Vec<u8> as Default>::default()
    }
    fn mem() -> usize {
        64usize.max(<u16 as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct SkipNest {
    pub f0: SkipMid,
    pub f1: SkipVarMid,
    pub f2: Vec<SkipMany>,
}
impl Ty for SkipNest {
    fn schema() -> Schema {
        Schema::Container(vec![
            <SkipMid as Ty>::schema(),
            <SkipVarMid as Ty>::schema(),
            <Vec<SkipMany> as Ty>::schema(),
        ])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val()])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <SkipMid as Ty>::from_val(&v.seq()[0]),
            f1: <SkipVarMid as Ty>::from_val(&v.seq()[1]),
            f2: <Vec<SkipMany> as Ty>::from_val(&v.seq()[2]),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<SkipMid as Ty>::mem())
            .max(<SkipVarMid as Ty>::mem())
            .max(<Vec<SkipMany> as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct WithFixed {
    #[ssz(with = "be16")]
    pub f0: u16,
    pub f1: u16,
}
impl Ty for WithFixed {
    fn schema() -> Schema {
        Schema::Container(vec![Schema::Bytes(2), <u16 as Ty>::schema()])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![
            Val::Bytes(vec![(self.f0 / 256) as u8, (self.f0 % 256) as u8]),
            self.f1.to_val(),
        ])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: {
                let b = v.seq()[0].bytes();
                b[0] as u16 * 256 + b[1] as u16
            },
            f1: <u16 as Ty>::from_val(&v.seq()[1]),
        }
    }
    fn mem() -> usize {
        64usize.max(<u16 as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct WithFixedVar {
    pub f0: u16,
    #[ssz(with = "be16")]
    pub f1: u16,
    pub f2: Vec<u8>,
}
impl Ty for WithFixedVar {
    fn schema() -> Schema {
        Schema::Container(vec![
            <u16 as Ty>::schema(),
            Schema::Bytes(2),
            <Vec<u8> as Ty>::schema(),
        ])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![
            self.f0.to_val(),
            Val::Bytes(vec![(self.f1 / 256) as u8, (self.f1 % 256) as u8]),
            self.f2.to_val(),
        ])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <u16 as Ty>::from_val(&v.seq()[0]),
            f1: {
                let b = v.seq()[1].bytes();
                b[0] as u16 * 256 + b[1] as u16
            },
            f2: <Vec<u8> as Ty>::from_val(&v.seq()[2]),
        }
    }
    fn mem() -> usize {
        64usize.max(<u16 as Ty>::mem()).max(<Vec<u8> as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct WithFixedOfVar {
    #[ssz(with = "fix3")]
    pub f0: Vec<u8>,
    pub f1: u8,
}
impl Ty for WithFixedOfVar {
    fn schema() -> Schema {
        Schema::Container(vec![Schema::Bytes(3), <u8 as Ty>::schema()])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![Val::Bytes(self.f0.clone()), self.f1.to_val()])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: v.seq()[0].bytes().to_vec(),
            f1: <u8 as Ty>::from_val(&v.seq()[1]),
        }
    }
    fn mem() -> usize {
        64usize.max(<u8 as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct WithFixedOfVar2 {
    #[ssz(with = "fix3")]
    pub f0: Vec<u8>,
    pub f1: Vec<u8>,
    #[ssz(with = "be16")]
    pub f2: u16,
}
impl Ty for WithFixedOfVar2 {
    fn schema() -> Schema {
        Schema::Container(vec![
            Schema::Bytes(3),
            <Vec<u8> as Ty>::schema(),
            Schema::Bytes(2),
        ])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![
            Val::Bytes(self.f0.clone()),
            self.f1.to_val(),
            Val::Bytes(vec![(self.f2 / 256) as u8, (self.f2 % 256) as u8]),
        ])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: v.seq()[0].bytes().to_vec(),
            f1: <Vec<u8> as Ty>::from_val(&v.seq()[1]),
            f2: {
                let b = v.seq()[2].bytes();
                b[0] as u16 * 256 + b[1] as u16
            },
        }
    }
    fn mem() -> usize {
        64usize.max(<Vec<u8> as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct WithVar {
    pub f0: u8,
    #[ssz(with = "blob")]
    pub f1: Blob,
    pub f2: u16,
}
impl Ty for WithVar {
    fn schema() -> Schema {
        Schema::Container(vec![
            <u8 as Ty>::schema(),
            Schema::ByteList,
            <u16 as Ty>::schema(),
        ])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![
            self.f0.to_val(),
            Val::Bytes(self.f1.0.clone()),
            self.f2.to_val(),
        ])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <u8 as Ty>::from_val(&v.seq()[0]),
            f1: Blob(v.seq()[1].bytes().to_vec()),
            f2: <u16 as Ty>::from_val(&v.seq()[2]),
        }
    }
    fn mem() -> usize {
        64usize.max(<u8 as Ty>::mem()).max(<u16 as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct WithVar2 {
    #[ssz(with = "blob")]
    pub f0: Blob,
    #[ssz(with = "blob")]
    pub f1: Blob,
}
impl Ty for WithVar2 {
    fn schema() -> Schema {
        Schema::Container(vec![Schema::ByteList, Schema::ByteList])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![
            Val::Bytes(self.f0.0.clone()),
            Val::Bytes(self.f1.0.clone()),
        ])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: Blob(v.seq()[0].bytes().to_vec()),
            f1: Blob(v.seq()[1].bytes().to_vec()),
        }
    }
    fn mem() -> usize {
        64usize
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct WithLeg {
    #[ssz(with = "leg_u16")]
    pub f0: Option<u16>,
    pub f1: u8,
}
impl Ty for WithLeg {
    fn schema() -> Schema {
        Schema::Container(vec![
            Schema::Legacy(Box::new(<u16 as Ty>::schema())),
            <u8 as Ty>::schema(),
        ])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![self.f0.to_val(), self.f1.to_val()])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <Option<u16> as Ty>::from_val(&v.seq()[0]),
            f1: <u8 as Ty>::from_val(&v.seq()[1]),
        }
    }
    fn mem() -> usize {
        64usize.max(<u8 as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct WithLeg2 {
    pub f0: u8,
    #[ssz(with = "leg_vec")]
    pub f1: Option<Vec<u8>>,
    pub f2: Option<u8>,
    #[ssz(with = "leg_vecvec")]
    pub f3: Option<Vec<Vec<u16>>>,
}
impl Ty for WithLeg2 {
    fn schema() -> Schema {
        Schema::Container(vec![
            <u8 as Ty>::schema(),
            Schema::Legacy(Box::new(<Vec<u8> as Ty>::schema())),
            <Option<u8> as Ty>::schema(),
            Schema::Legacy(Box::new(<Vec<Vec<u16>> as Ty>::schema())),
        ])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![
            self.f0.to_val(),
            self.f1.to_val(),
            self.f2.to_val(),
            self.f3.to_val(),
        ])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <u8 as Ty>::from_val(&v.seq()[0]),
            f1: <Option<Vec<u8>> as Ty>::from_val(&v.seq()[1]),
            f2: <Option<u8> as Ty>::from_val(&v.seq()[2]),
            f3: <Option<Vec<Vec<u16>>> as Ty>::from_val(&v.seq()[3]),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<u8 as Ty>::mem())
            .max(<Option<u8> as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct WithLeg3 {
    #[ssz(with = "leg_u8")]
    pub f0: Option<u8>,
    #[ssz(with = "leg_u8")]
    pub f1: Option<u8>,
    pub f2: Vec<u8>,
}
impl Ty for WithLeg3 {
    fn schema() -> Schema {
        Schema::Container(vec![
            Schema::Legacy(Box::new(<u8 as Ty>::schema())),
            Schema::Legacy(Box::new(<u8 as Ty>::schema())),
            <Vec<u8> as Ty>::schema(),
        ])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val()])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <Option<u8> as Ty>::from_val(&v.seq()[0]),
            f1: <Option<u8> as Ty>::from_val(&v.seq()[1]),
            f2: <Vec<u8> as Ty>::from_val(&v.seq()[2]),
        }
    }
    fn mem() -> usize {
        64usize.max(<Vec<u8> as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct WithSkip {
    #[ssz(with = "be16")]
    pub f0: u16,
    #[ssz(skip_serializing, skip_deserializing)]
    pub f1: u64,
    #[ssz(with = "leg_u16")]
    pub f2: Option<u16>,
    #[ssz(skip_serializing, skip_deserializing)]
    pub f3: NoSsz,
}
impl Ty for WithSkip {
    fn schema() -> Schema {
        Schema::Container(vec![
            Schema::Bytes(2),
            Schema::Legacy(Box::new(<u16 as Ty>::schema())),
        ])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![
            Val::Bytes(vec![(self.f0 / 256) as u8, (self.f0 % 256) as u8]),
            self.f2.to_val(),
        ])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: {
                let b = v.seq()[0].bytes();
                b[0] as u16 * 256 + b[1] as u16
            },
            f1: 1 << 40,
            f2: <Option<u16> as Ty>::from_val(&v.seq()[1]),
            f3: NoSsz(4),
        }
    }
    fn skipped_default(&self) -> bool {
        self.f1 == <u64 as Default>::default() && self.f3 == <NoSsz as Default>::default()
    }
    fn mem() -> usize {
        64usize
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct WithNest {
    pub f0: WithFixed,
    pub f1: Vec<WithLeg>,
    pub f2: WithVar,
}
impl Ty for WithNest {
    fn schema() -> Schema {
        Schema::Container(vec![
            <WithFixed as Ty>::schema(),
            <Vec<WithLeg> as Ty>::schema(),
            <WithVar as Ty>::schema(),
        ])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val()])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <WithFixed as Ty>::from_val(&v.seq()[0]),
            f1: <Vec<WithLeg> as Ty>::from_val(&v.seq()[1]),
            f2: <WithVar as Ty>::from_val(&v.seq()[2]),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<WithFixed as Ty>::mem())
            .max(<Vec<WithLeg> as Ty>::mem())
            .max(<WithVar as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
#[ssz(struct_behaviour = "transparent")]
pub struct TrF {
    pub f0: u16,
}
impl Ty for TrF {
    fn schema() -> Schema {
        <u16 as Ty>::schema()
    }
    fn to_val(&self) -> Val {
        self.f0.to_val()
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <u16 as Ty>::from_val(v),
        }
    }
    fn mem() -> usize {
        64usize.max(<u16 as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
#[ssz(struct_behaviour = "transparent")]
pub struct TrV {
    pub f0: Vec<u8>,
}
impl Ty for TrV {
    fn schema() -> Schema {
        <Vec<u8> as Ty>::schema()
    }
    fn to_val(&self) -> Val {
        self.f0.to_val()
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <Vec<u8> as Ty>::from_val(v),
        }
    }
    fn mem() -> usize {
        64usize.max(<Vec<u8> as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
#[ssz(struct_behaviour = "transparent")]
pub struct TrT(pub u32);
impl Ty for TrT {
    fn schema() -> Schema {
        <u32 as Ty>::schema()
    }
    fn to_val(&self) -> Val {
        self.0.to_val()
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            0: <u32 as Ty>::from_val(v),
        }
    }
    fn mem() -> usize {
        64usize.max(<u32 as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
#[ssz(struct_behaviour = "transparent")]
pub struct TrTV(pub Vec<Vec<u8>>);
impl Ty for TrTV {
    fn schema() -> Schema {
        <Vec<Vec<u8>> as Ty>::schema()
    }
    fn to_val(&self) -> Val {
        self.0.to_val()
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            0: <Vec<Vec<u8>> as Ty>::from_val(v),
        }
    }
    fn mem() -> usize {
        64usize.max(<Vec<Vec<u8>> as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
#[ssz(struct_behaviour = "transparent")]
pub struct TrSkip1 {
    #[ssz(skip_serializing, skip_deserializing)]
    pub f0: u64,
    pub f1: u16,
}
impl Ty for TrSkip1 {
    fn schema() -> Schema {
        <u16 as Ty>::schema()
    }
    fn to_val(&self) -> Val {
        self.f1.to_val()
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: 1 << 40,
            f1: <u16 as Ty>::from_val(v),
        }
    }
    fn skipped_default(&self) -> bool {
        self.f0 == <u64 as Default>::default()
    }
    fn mem() -> usize {
        64usize.max(<u16 as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
#[ssz(struct_behaviour = "transparent")]
pub struct TrSkip2 {
    pub f0: Vec<u8>,
    #[ssz(skip_serializing, skip_deserializing)]
    pub f1: u64,
    #[ssz(skip_serializing, skip_deserializing)]
    pub f2: NoSsz,
}
impl Ty for TrSkip2 {
    fn schema() -> Schema {
        <Vec<u8> as Ty>::schema()
    }
    fn to_val(&self) -> Val {
        self.f0.to_val()
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <Vec<u8> as Ty>::from_val(v),
            f1: 1 << 40,
            f2: NoSsz(4),
        }
    }
    fn skipped_default(&self) -> bool {
        self.f1 == <u64 as Default>::default() && self.f2 == <NoSsz as Default>::default()
    }
    fn mem() -> usize {
        64usize.max(<Vec<u8> as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
#[ssz(struct_behaviour = "transparent")]
pub struct TrTSkip(
    #[ssz(skip_serializing, skip_deserializing)] pub NoSsz,
    pub Vec<u16>,
    #[ssz(skip_serializing, skip_deserializing)] pub u8,
);
impl Ty for TrTSkip {
    fn schema() -> Schema {
        <Vec<u16> as Ty>::schema()
    }
    fn to_val(&self) -> Val {
        self.1.to_val()
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            0: NoSsz(4),
            1: <Vec<u16> as Ty>::from_val(v),
            2: 7,
        }
    }
    fn skipped_default(&self) -> bool {
        self.0 == <NoSsz as Default>::default() && self.2 == <u8 as Default>::default()
    }
    fn mem() -> usize {
        64usize.max(<Vec<u16> as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
#[ssz(struct_behaviour = "transparent")]
pub struct TrTSkipF(
    #[ssz(skip_serializing, skip_deserializing)] pub u8,
    #[ssz(skip_serializing, skip_deserializing)] pub bool,
    pub u16,
);
impl Ty for TrTSkipF {
    fn schema() -> Schema {
        <u16 as Ty>::schema()
    }
    fn to_val(&self) -> Val {
        self.2.to_val()
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            0: 7,
            1: true,
            2: <u16 as Ty>::from_val(v),
        }
    }
    fn skipped_default(&self) -> bool {
        self.0 == <u8 as Default>::default() && self.1 == <bool as Default>::default()
    }
    fn mem() -> usize {
        64usize.max(<u16 as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
#[ssz(struct_behaviour = "transparent")]
pub struct TrInner {
    pub f0: Inner,
}
impl Ty for TrInner {
    fn schema() -> Schema {
        <Inner as Ty>::schema()
    }
    fn to_val(&self) -> Val {
        self.f0.to_val()
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <Inner as Ty>::from_val(v),
        }
    }
    fn mem() -> usize {
        64usize.max(<Inner as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
#[ssz(struct_behaviour = "transparent")]
pub struct TrTr(pub TrV);
impl Ty for TrTr {
    fn schema() -> Schema {
        <TrV as Ty>::schema()
    }
    fn to_val(&self) -> Val {
        self.0.to_val()
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            0: <TrV as Ty>::from_val(v),
        }
    }
    fn mem() -> usize {
        64usize.max(<TrV as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
#[ssz(struct_behaviour = "transparent")]
pub struct TrWith {
    #[ssz(with = "be16")]
    pub f0: u16,
}
impl Ty for TrWith {
    fn schema() -> Schema {
        Schema::Bytes(2)
    }
    fn to_val(&self) -> Val {
        Val::Bytes(vec![(self.f0 / 256) as u8, (self.f0 % 256) as u8])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: {
                let b = v.bytes();
                b[0] as u16 * 256 + b[1] as u16
            },
        }
    }
    fn mem() -> usize {
        64usize
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
#[ssz(struct_behaviour = "transparent")]
pub struct TrWithT(
    #[ssz(with = "leg_u16")] pub Option<u16>,
    #[ssz(skip_serializing, skip_deserializing)] pub u8,
);
impl Ty for TrWithT {
    fn schema() -> Schema {
        Schema::Legacy(Box::new(<u16 as Ty>::schema()))
    }
    fn to_val(&self) -> Val {
        self.0.to_val()
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            0: <Option<u16> as Ty>::from_val(v),
            1: 7,
        }
    }
    fn skipped_default(&self) -> bool {
        self.1 == <u8 as Default>::default()
    }
    fn mem() -> usize {
        64usize
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
#[ssz(struct_behaviour = "transparent")]
pub struct TrWithV {
    #[ssz(skip_serializing, skip_deserializing)]
    pub f0: u8,
    #[ssz(with = "fix3")]
    pub f1: Vec<u8>,
}
impl Ty for TrWithV {
    fn schema() -> Schema {
        Schema::Bytes(3)
    }
    fn to_val(&self) -> Val {
        Val::Bytes(self.f1.clone())
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: 7,
            f1: v.bytes().to_vec(),
        }
    }
    fn skipped_default(&self) -> bool {
        self.f0 == <u8 as Default>::default()
    }
    fn mem() -> usize {
        64usize
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct UseTr {
    pub f0: TrF,
    pub f1: TrV,
    pub f2: TrSkip1,
    pub f3: Vec<TrTSkipF>,
    pub f4: TrWith,
}
impl Ty for UseTr {
    fn schema() -> Schema {
        Schema::Container(vec![
            <TrF as Ty>::schema(),
            <TrV as Ty>::schema(),
            <TrSkip1 as Ty>::schema(),
            <Vec<TrTSkipF> as Ty>::schema(),
            <TrWith as Ty>::schema(),
        ])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![
            self.f0.to_val(),
            self.f1.to_val(),
            self.f2.to_val(),
            self.f3.to_val(),
            self.f4.to_val(),
        ])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <TrF as Ty>::from_val(&v.seq()[0]),
            f1: <TrV as Ty>::from_val(&v.seq()[1]),
            f2: <TrSkip1 as Ty>::from_val(&v.seq()[2]),
            f3: <Vec<TrTSkipF> as Ty>::from_val(&v.seq()[3]),
            f4: <TrWith as Ty>::from_val(&v.seq()[4]),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<TrF as Ty>::mem())
            .max(<TrV as Ty>::mem())
            .max(<TrSkip1 as Ty>::mem())
            .max(<Vec<TrTSkipF> as Ty>::mem())
            .max(<TrWith as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
#[ssz(struct_behaviour = "container")]
pub struct Cont2 {
    pub f0: u8,
    pub f1: Vec<u8>,
}
impl Ty for Cont2 {
    fn schema() -> Schema {
        Schema::Container(vec![<u8 as Ty>::schema(), <Vec<u8> as Ty>::schema()])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![self.f0.to_val(), self.f1.to_val()])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <u8 as Ty>::from_val(&v.seq()[0]),
            f1: <Vec<u8> as Ty>::from_val(&v.seq()[1]),
        }
    }
    fn mem() -> usize {
        64usize.max(<u8 as Ty>::mem()).max(<Vec<u8> as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct G1<A: Encode + Decode> {
    pub f0: A,
}
impl<A: Ty + Sync> Ty for G1<A> {
    fn schema() -> Schema {
        Schema::Container(vec![<A as Ty>::schema()])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![self.f0.to_val()])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <A as Ty>::from_val(&v.seq()[0]),
        }
    }
    fn mem() -> usize {
        64usize.max(<A as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct G2<A: Encode + Decode, B: Encode + Decode> {
    pub f0: A,
    pub f1: B,
}
impl<A: Ty + Sync, B: Ty + Sync> Ty for G2<A, B> {
    fn schema() -> Schema {
        Schema::Container(vec![<A as Ty>::schema(), <B as Ty>::schema()])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![self.f0.to_val(), self.f1.to_val()])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <A as Ty>::from_val(&v.seq()[0]),
            f1: <B as Ty>::from_val(&v.seq()[1]),
        }
    }
    fn mem() -> usize {
        64usize.max(<A as Ty>::mem()).max(<B as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct G3<A: Encode + Decode, B: Encode + Decode, C: Encode + Decode> {
    pub f0: A,
    pub f1: Vec<B>,
    pub f2: C,
}
impl<A: Ty + Sync, B: Ty + Sync, C: Ty + Sync> Ty for G3<A, B, C> {
    fn schema() -> Schema {
        Schema::Container(vec![
            <A as Ty>::schema(),
            <Vec<B> as Ty>::schema(),
            <C as Ty>::schema(),
        ])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val()])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <A as Ty>::from_val(&v.seq()[0]),
            f1: <Vec<B> as Ty>::from_val(&v.seq()[1]),
            f2: <C as Ty>::from_val(&v.seq()[2]),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<A as Ty>::mem())
            .max(<Vec<B> as Ty>::mem())
            .max(<C as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct G4<A: Encode + Decode, B: Encode + Decode, C: Encode + Decode, D: Encode + Decode> {
    pub f0: A,
    pub f1: B,
    pub f2: C,
    pub f3: D,
}
impl<A: Ty + Sync, B: Ty + Sync, C: Ty + Sync, D: Ty + Sync> Ty for G4<A, B, C, D> {
    fn schema() -> Schema {
        Schema::Container(vec![
            <A as Ty>::schema(),
            <B as Ty>::schema(),
            <C as Ty>::schema(),
            <D as Ty>::schema(),
        ])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![
            self.f0.to_val(),
            self.f1.to_val(),
            self.f2.to_val(),
            self.f3.to_val(),
        ])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <A as Ty>::from_val(&v.seq()[0]),
            f1: <B as Ty>::from_val(&v.seq()[1]),
            f2: <C as Ty>::from_val(&v.seq()[2]),
            f3: <D as Ty>::from_val(&v.seq()[3]),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<A as Ty>::mem())
            .max(<B as Ty>::mem())
            .max(<C as Ty>::mem())
            .max(<D as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
#[ssz(struct_behaviour = "transparent")]
pub struct GT<A: Encode + Decode> {
    pub f0: A,
}
impl<A: Ty + Sync> Ty for GT<A> {
    fn schema() -> Schema {
        <A as Ty>::schema()
    }
    fn to_val(&self) -> Val {
        self.f0.to_val()
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <A as Ty>::from_val(v),
        }
    }
    fn mem() -> usize {
        64usize.max(<A as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct GSkip<A: Encode + Decode, B: Encode + Decode> {
    pub f0: A,
    #[ssz(skip_serializing, skip_deserializing)]
    pub f1: u64,
    pub f2: B,
}
impl<A: Ty + Sync, B: Ty + Sync> Ty for GSkip<A, B> {
    fn schema() -> Schema {
        Schema::Container(vec![<A as Ty>::schema(), <B as Ty>::schema()])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![self.f0.to_val(), self.f2.to_val()])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <A as Ty>::from_val(&v.seq()[0]),
            f1: 1 << 40,
            f2: <B as Ty>::from_val(&v.seq()[1]),
        }
    }
    fn skipped_default(&self) -> bool {
        self.f1 == <u64 as Default>::default()
    }
    fn mem() -> usize {
        64usize.max(<A as Ty>::mem()).max(<B as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
#[ssz(enum_behaviour = "union")]
pub enum U1V {
    V0(u8),
}
impl Ty for U1V {
    fn schema() -> Schema {
        Schema::Union(vec![Some(<u8 as Ty>::schema())])
    }
    fn from_val(v: &Val) -> Self {
        match vi(v) {
            0 => Self::V0(<u8 as Ty>::from_val(bx(v))),
            _ => panic!("model"),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::V0(x) => Val::Var(0, Some(Box::new(x.to_val()))),
        }
    }
    fn mem() -> usize {
        64usize.max(<u8 as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
#[ssz(enum_behaviour = "union")]
pub enum U2 {
    V0(u8),
    V1(Vec<u8>),
}
impl Ty for U2 {
    fn schema() -> Schema {
        Schema::Union(vec![
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
        ])
    }
    fn from_val(v: &Val) -> Self {
        match vi(v) {
            0 => Self::V0(<u8 as Ty>::from_val(bx(v))),
            1 => Self::V1(<Vec<u8> as Ty>::from_val(bx(v))),
            _ => panic!("model"),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::V0(x) => Val::Var(0, Some(Box::new(x.to_val()))),
            Self::V1(x) => Val::Var(1, Some(Box::new(x.to_val()))),
        }
    }
    fn mem() -> usize {
        64usize.max(<u8 as Ty>::mem()).max(<Vec<u8> as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
#[ssz(enum_behaviour = "union")]
pub enum U3 {
    V0(u16),
    V1(Inner),
    V2(Vec<Vec<u8>>),
}
impl Ty for U3 {
    fn schema() -> Schema {
        Schema::Union(vec![
            Some(<u16 as Ty>::schema()),
            Some(<Inner as Ty>::schema()),
            Some(<Vec<Vec<u8>> as Ty>::schema()),
        ])
    }
    fn from_val(v: &Val) -> Self {
        match vi(v) {
            0 => Self::V0(<u16 as Ty>::from_val(bx(v))),
            1 => Self::V1(<Inner as Ty>::from_val(bx(v))),
            2 => Self::V2(<Vec<Vec<u8>> as Ty>::from_val(bx(v))),
            _ => panic!("model"),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::V0(x) => Val::Var(0, Some(Box::new(x.to_val()))),
            Self::V1(x) => Val::Var(1, Some(Box::new(x.to_val()))),
            Self::V2(x) => Val::Var(2, Some(Box::new(x.to_val()))),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<u16 as Ty>::mem())
            .max(<Inner as Ty>::mem())
            .max(<Vec<Vec<u8>> as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
#[ssz(enum_behaviour = "union")]
pub enum U5 {
    V0(u8),
    V1(u8),
    V2(bool),
    V3(U2),
    V4((u8, Vec<u8>)),
}
impl Ty for U5 {
    fn schema() -> Schema {
        Schema::Union(vec![
            Some(<u8 as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<bool as Ty>::schema()),
            Some(<U2 as Ty>::schema()),
            Some(<(u8, Vec<u8>) as Ty>::schema()),
        ])
    }
    fn from_val(v: &Val) -> Self {
        match vi(v) {
            0 => Self::V0(<u8 as Ty>::from_val(bx(v))),
            1 => Self::V1(<u8 as Ty>::from_val(bx(v))),
            2 => Self::V2(<bool as Ty>::from_val(bx(v))),
            3 => Self::V3(<U2 as Ty>::from_val(bx(v))),
            4 => Self::V4(<(u8, Vec<u8>) as Ty>::from_val(bx(v))),
            _ => panic!("model"),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::V0(x) => Val::Var(0, Some(Box::new(x.to_val()))),
            Self::V1(x) => Val::Var(1, Some(Box::new(x.to_val()))),
            Self::V2(x) => Val::Var(2, Some(Box::new(x.to_val()))),
            Self::V3(x) => Val::Var(3, Some(Box::new(x.to_val()))),
            Self::V4(x) => Val::Var(4, Some(Box::new(x.to_val()))),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<u8 as Ty>::mem())
            .max(<bool as Ty>::mem())
            .max(<U2 as Ty>::mem())
            .max(<(u8, Vec<u8>) as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
#[ssz(enum_behaviour = "union")]
pub enum UEmptyish {
    V0([u8; 0]),
    V1(Vec<u8>),
}
impl Ty for UEmptyish {
    fn schema() -> Schema {
        Schema::Union(vec![
            Some(<[u8; 0] as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
        ])
    }
    fn from_val(v: &Val) -> Self {
        match vi(v) {
            0 => Self::V0(<[u8; 0] as Ty>::from_val(bx(v))),
            1 => Self::V1(<Vec<u8> as Ty>::from_val(bx(v))),
            _ => panic!("model"),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::V0(x) => Val::Var(0, Some(Box::new(x.to_val()))),
            Self::V1(x) => Val::Var(1, Some(Box::new(x.to_val()))),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<[u8; 0] as Ty>::mem())
            .max(<Vec<u8> as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
#[ssz(enum_behaviour = "union")]
pub enum U127 {
    V0(Vec<u8>),
    V1(u8),
    V2(Vec<u8>),
    V3(u8),
    V4(Vec<u8>),
    V5(u8),
    V6(Vec<u8>),
    V7(u8),
    V8(Vec<u8>),
    V9(u8),
    V10(Vec<u8>),
    V11(u8),
    V12(Vec<u8>),
    V13(u8),
    V14(Vec<u8>),
    V15(u8),
    V16(Vec<u8>),
    V17(u8),
    V18(Vec<u8>),
    V19(u8),
    V20(Vec<u8>),
    V21(u8),
    V22(Vec<u8>),
    V23(u8),
    V24(Vec<u8>),
    V25(u8),
    V26(Vec<u8>),
    V27(u8),
    V28(Vec<u8>),
    V29(u8),
    V30(Vec<u8>),
    V31(u8),
    V32(Vec<u8>),
    V33(u8),
    V34(Vec<u8>),
    V35(u8),
    V36(Vec<u8>),
    V37(u8),
    V38(Vec<u8>),
    V39(u8),
    V40(Vec<u8>),
    V41(u8),
    V42(Vec<u8>),
    V43(u8),
    V44(Vec<u8>),
    V45(u8),
    V46(Vec<u8>),
    V47(u8),
    V48(Vec<u8>),
    V49(u8),
    V50(Vec<u8>),
    V51(u8),
    V52(Vec<u8>),
    V53(u8),
    V54(Vec<u8>),
    V55(u8),
    V56(Vec<u8>),
    V57(u8),
    V58(Vec<u8>),
    V59(u8),
    V60(Vec<u8>),
    V61(u8),
    V62(Vec<u8>),
    V63(u8),
    V64(Vec<u8>),
    V65(u8),
    V66(Vec<u8>),
    V67(u8),
    V68(Vec<u8>),
    V69(u8),
    V70(Vec<u8>),
    V71(u8),
    V72(Vec<u8>),
    V73(u8),
    V74(Vec<u8>),
    V75(u8),
    V76(Vec<u8>),
    V77(u8),
    V78(Vec<u8>),
    V79(u8),
    V80(Vec<u8>),
    V81(u8),
    V82(Vec<u8>),
    V83(u8),
    V84(Vec<u8>),
    V85(u8),
    V86(Vec<u8>),
    V87(u8),
    V88(Vec<u8>),
    V89(u8),
    V90(Vec<u8>),
    V91(u8),
    V92(Vec<u8>),
    V93(u8),
    V94(Vec<u8>),
    V95(u8),
    V96(Vec<u8>),
    V97(u8),
    V98(Vec<u8>),
    V99(u8),
    V100(Vec<u8>),
    V101(u8),
    V102(Vec<u8>),
    V103(u8),
    V104(Vec<u8>),
    V105(u8),
    V106(Vec<u8>),
    V107(u8),
    V108(Vec<u8>),
    V109(u8),
    V110(Vec<u8>),
    V111(u8),
    V112(Vec<u8>),
    V113(u8),
    V114(Vec<u8>),
    V115(u8),
    V116(Vec<u8>),
    V117(u8),
    V118(Vec<u8>),
    V119(u8),
    V120(Vec<u8>),
    V121(u8),
    V122(Vec<u8>),
    V123(u8),
    V124(Vec<u8>),
    V125(u8),
    V126(Vec<u8>),
}
impl Ty for U127 {
    fn schema() -> Schema {
        Schema::Union(vec![
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
            Some(<u8 as Ty>::schema()),
            Some(<Vec<u8> as Ty>::schema()),
        ])
    }
    fn from_val(v: &Val) -> Self {
        match vi(v) {
            0 => Self::V0(<Vec<u8> as Ty>::from_val(bx(v))),
            1 => Self::V1(<u8 as Ty>::from_val(bx(v))),
            2 => Self::V2(<Vec<u8> as Ty>::from_val(bx(v))),
            3 => Self::V3(<u8 as Ty>::from_val(bx(v))),
            4 => Self::V4(<Vec<u8> as Ty>::from_val(bx(v))),
            5 => Self::V5(<u8 as Ty>::from_val(bx(v))),
            6 => Self::V6(<Vec<u8> as Ty>::from_val(bx(v))),
            7 => Self::V7(<u8 as Ty>::from_val(bx(v))),
            8 => Self::V8(<Vec<u8> as Ty>::from_val(bx(v))),
            9 => Self::V9(<u8 as Ty>::from_val(bx(v))),
            10 => Self::V10(<Vec<u8> as Ty>::from_val(bx(v))),
            11 => Self::V11(<u8 as Ty>::from_val(bx(v))),
            12 => Self::V12(<Vec<u8> as Ty>::from_val(bx(v))),
            13 => Self::V13(<u8 as Ty>::from_val(bx(v))),
            14 => Self::V14(<Vec<u8> as Ty>::from_val(bx(v))),
            15 => Self::V15(<u8 as Ty>::from_val(bx(v))),
            16 => Self::V16(<Vec<u8> as Ty>::from_val(bx(v))),
            17 => Self::V17(<u8 as Ty>::from_val(bx(v))),
            18 => Self::V18(<Vec<u8> as Ty>::from_val(bx(v))),
            19 => Self::V19(<u8 as Ty>::from_val(bx(v))),
            20 => Self::V20(<Vec<u8> as Ty>::from_val(bx(v))),
            21 => Self::V21(<u8 as Ty>::from_val(bx(v))),
            22 => Self::V22(<Vec<u8> as Ty>::from_val(bx(v))),
            23 => Self::V23(<u8 as Ty>::from_val(bx(v))),
            24 => Self::V24(<Vec<u8> as Ty>::from_val(bx(v))),
            25 => Self::V25(<u8 as Ty>::from_val(bx(v))),
            26 => Self::V26(<Vec<u8> as Ty>::from_val(bx(v))),
            27 => Self::V27(<u8 as Ty>::from_val(bx(v))),
            28 => Self::V28(<Vec<u8> as Ty>::from_val(bx(v))),
            29 => Self::V29(<u8 as Ty>::from_val(bx(v))),
            30 => Self::V30(<Vec<u8> as Ty>::from_val(bx(v))),
            31 => Self::V31(<u8 as Ty>::from_val(bx(v))),
            32 => Self::V32(<Vec<u8> as Ty>::from_val(bx(v))),
            33 => Self::V33(<u8 as Ty>::from_val(bx(v))),
            34 => Self::V34(<Vec<u8> as Ty>::from_val(bx(v))),
            35 => Self::V35(<u8 as Ty>::from_val(bx(v))),
            36 => Self::V36(<Vec<u8> as Ty>::from_val(bx(v))),
            37 => Self::V37(<u8 as Ty>::from_val(bx(v))),
            38 => Self::V38(<Vec<u8> as Ty>::from_val(bx(v))),
            39 => Self::V39(<u8 as Ty>::from_val(bx(v))),
            40 => Self::V40(<Vec<u8> as Ty>::from_val(bx(v))),
            41 => Self::V41(<u8 as Ty>::from_val(bx(v))),
            42 => Self::V42(<Vec<u8> as Ty>::from_val(bx(v))),
            43 => Self::V43(<u8 as Ty>::from_val(bx(v))),
            44 => Self::V44(<Vec<u8> as Ty>::from_val(bx(v))),
            45 => Self::V45(<u8 as Ty>::from_val(bx(v))),
            46 => Self::V46(<Vec<u8> as Ty>::from_val(bx(v))),
            47 => Self::V47(<u8 as Ty>::from_val(bx(v))),
            48 => Self::V48(<Vec<u8> as Ty>::from_val(bx(v))),
            49 => Self::V49(<u8 as Ty>::from_val(bx(v))),
            50 => Self::V50(<Vec<u8> as Ty>::from_val(bx(v))),
            51 => Self::V51(<u8 as Ty>::from_val(bx(v))),
            52 => Self::V52(<Vec<u8> as Ty>::from_val(bx(v))),
            53 => Self::V53(<u8 as Ty>::from_val(bx(v))),
            54 => Self::V54(<Vec<u8> as Ty>::from_val(bx(v))),
            55 => Self::V55(<u8 as Ty>::from_val(bx(v))),
            56 => Self::V56(<Vec<u8> as Ty>::from_val(bx(v))),
            57 => Self::V57(<u8 as Ty>::from_val(bx(v))),
            58 => Self::V58(<Vec<u8> as Ty>::from_val(bx(v))),
            59 => Self::V59(<u8 as Ty>::from_val(bx(v))),
            60 => Self::V60(<Vec<u8> as Ty>::from_val(bx(v))),
            61 => Self::V61(<u8 as Ty>::from_val(bx(v))),
            62 => Self::V62(<Vec<u8> as Ty>::from_val(bx(v))),
            63 => Self::V63(<u8 as Ty>::from_val(bx(v))),
            64 => Self::V64(<Vec<u8> as Ty>::from_val(bx(v))),
            65 => Self::V65(<u8 as Ty>::from_val(bx(v))),
            66 => Self::V66(<Vec<u8> as Ty>::from_val(bx(v))),
            67 => Self::V67(<u8 as Ty>::from_val(bx(v))),
            68 => Self::V68(<Vec<u8> as Ty>::from_val(bx(v))),
            69 => Self::V69(<u8 as Ty>::from_val(bx(v))),
            70 => Self::V70(<Vec<u8> as Ty>::from_val(bx(v))),
            71 => Self::V71(<u8 as Ty>::from_val(bx(v))),
            72 => Self::V72(<Vec<u8> as Ty>::from_val(bx(v))),
            73 => Self::V73(<u8 as Ty>::from_val(bx(v))),
            74 => Self::V74(<Vec<u8> as Ty>::from_val(bx(v))),
            75 => Self::V75(<u8 as Ty>::from_val(bx(v))),
            76 => Self::V76(<Vec<u8> as Ty>::from_val(bx(v))),
            77 => Self::V77(<u8 as Ty>::from_val(bx(v))),
            78 => Self::V78(<Vec<u8> as Ty>::from_val(bx(v))),
            79 => Self::V79(<u8 as Ty>::from_val(bx(v))),
            80 => Self::V80(<Vec<u8> as Ty>::from_val(bx(v))),
            81 => Self::V81(<u8 as Ty>::from_val(bx(v))),
            82 => Self::V82(<Vec<u8> as Ty>::from_val(bx(v))),
            83 => Self::V83(<u8 as Ty>::from_val(bx(v))),
            84 => Self::V84(<Vec<u8> as Ty>::from_val(bx(v))),
            85 => Self::V85(<u8 as Ty>::from_val(bx(v))),
            86 => Self::V86(<Vec<u8> as Ty>::from_val(bx(v))),
            87 => Self::V87(<u8 as Ty>::from_val(bx(v))),
            88 => Self::V88(<Vec<u8> as Ty>::from_val(bx(v))),
            89 => Self::V89(<u8 as Ty>::from_val(bx(v))),
            90 => Self::V90(<Vec<u8> as Ty>::from_val(bx(v))),
            91 => Self::V91(<u8 as Ty>::from_val(bx(v))),
            92 => Self::V92(<Vec<u8> as Ty>::from_val(bx(v))),
            93 => Self::V93(<u8 as Ty>::from_val(bx(v))),
            94 => Self::V94(<Vec<u8> as Ty>::from_val(bx(v))),
            95 => Self::V95(<u8 as Ty>::from_val(bx(v))),
            96 => Self::V96(<Vec<u8> as Ty>::from_val(bx(v))),
            97 => Self::V97(<u8 as Ty>::from_val(bx(v))),
            98 => Self::V98(<Vec<u8> as Ty>::from_val(bx(v))),
            99 => Self::V99(<u8 as Ty>::from_val(bx(v))),
            100 => Self::V100(<Vec<u8> as Ty>::from_val(bx(v))),
            101 => Self::V101(<u8 as Ty>::from_val(bx(v))),
            102 => Self::V102(<Vec<u8> as Ty>::from_val(bx(v))),
            103 => Self::V103(<u8 as Ty>::from_val(bx(v))),
            104 => Self::V104(<Vec<u8> as Ty>::from_val(bx(v))),
            105 => Self::V105(<u8 as Ty>::from_val(bx(v))),
            106 => Self::V106(<Vec<u8> as Ty>::from_val(bx(v))),
            107 => Self::V107(<u8 as Ty>::from_val(bx(v))),
            108 => Self::V108(<Vec<u8> as Ty>::from_val(bx(v))),
            109 => Self::V109(<u8 as Ty>::from_val(bx(v))),
            110 => Self::V110(<Vec<u8> as Ty>::from_val(bx(v))),
            111 => Self::V111(<u8 as Ty>::from_val(bx(v))),
            112 => Self::V112(<Vec<u8> as Ty>::from_val(bx(v))),
            113 => Self::V113(<u8 as Ty>::from_val(bx(v))),
            114 => Self::V114(<Vec<u8> as Ty>::from_val(bx(v))),
            115 => Self::V115(<u8 as Ty>::from_val(bx(v))),
            116 => Self::V116(<Vec<u8> as Ty>::from_val(bx(v))),
            117 => Self::V117(<u8 as Ty>::from_val(bx(v))),
            118 => Self::V118(<Vec<u8> as Ty>::from_val(bx(v))),
            119 => Self::V119(<u8 as Ty>::from_val(bx(v))),
            120 => Self::V120(<Vec<u8> as Ty>::from_val(bx(v))),
            121 => Self::V121(<u8 as Ty>::from_val(bx(v))),
            122 => Self::V122(<Vec<u8> as Ty>::from_val(bx(v))),
            123 => Self::V123(<u8 as Ty>::from_val(bx(v))),
            124 => Self::V124(<Vec<u8> as Ty>::from_val(bx(v))),
            125 => Self::V125(<u8 as Ty>::from_val(bx(v))),
            126 => Self::V126(<Vec<u8> as Ty>::from_val(bx(v))),
            _ => panic!("model"),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::V0(x) => Val::Var(0, Some(Box::new(x.to_val()))),
            Self::V1(x) => Val::Var(1, Some(Box::new(x.to_val()))),
            Self::V2(x) => Val::Var(2, Some(Box::new(x.to_val()))),
            Self::V3(x) => Val::Var(3, Some(Box::new(x.to_val()))),
            Self::V4(x) => Val::Var(4, Some(Box::new(x.to_val()))),
            Self::V5(x) => Val::Var(5, Some(Box::new(x.to_val()))),
            Self::V6(x) => Val::Var(6, Some(Box::new(x.to_val()))),
            Self::V7(x) => Val::Var(7, Some(Box::new(x.to_val()))),
            Self::V8(x) => Val::Var(8, Some(Box::new(x.to_val()))),
            Self::V9(x) => Val::Var(9, Some(Box::new(x.to_val()))),
            Self::V10(x) => Val::Var(10, Some(Box::new(x.to_val()))),
            Self::V11(x) => Val::Var(11, Some(Box::new(x.to_val()))),
            Self::V12(x) => Val::Var(12, Some(Box::new(x.to_val()))),
            Self::V13(x) => Val::Var(13, Some(Box::new(x.to_val()))),
            Self::V14(x) => Val::Var(14, Some(Box::new(x.to_val()))),
            Self::V15(x) => Val::Var(15, Some(Box::new(x.to_val()))),
            Self::V16(x) => Val::Var(16, Some(Box::new(x.to_val()))),
            Self::V17(x) => Val::Var(17, Some(Box::new(x.to_val()))),
            Self::V18(x) => Val::Var(18, Some(Box::new(x.to_val()))),
            Self::V19(x) => Val::Var(19, Some(Box::new(x.to_val()))),
            Self::V20(x) => Val::Var(20, Some(Box::new(x.to_val()))),
            Self::V21(x) => Val::Var(21, Some(Box::new(x.to_val()))),
            Self::V22(x) => Val::Var(22, Some(Box::new(x.to_val()))),
            Self::V23(x) => Val::Var(23, Some(Box::new(x.to_val()))),
            Self::V24(x) => Val::Var(24, Some(Box::new(x.to_val()))),
            Self::V25(x) => Val::Var(25, Some(Box::new(x.to_val()))),
            Self::V26(x) => Val::Var(26, Some(Box::new(x.to_val()))),
            Self::V27(x) => Val::Var(27, Some(Box::new(x.to_val()))),
            Self::V28(x) => Val::Var(28, Some(Box::new(x.to_val()))),
            Self::V29(x) => Val::Var(29, Some(Box::new(x.to_val()))),
            Self::V30(x) => Val::Var(30, Some(Box::new(x.to_val()))),
            Self::V31(x) => Val::Var(31, Some(Box::new(x.to_val()))),
            Self::V32(x) => Val::Var(32, Some(Box::new(x.to_val()))),
            Self::V33(x) => Val::Var(33, Some(Box::new(x.to_val()))),
            Self::V34(x) => Val::Var(34, Some(Box::new(x.to_val()))),
            Self::V35(x) => Val::Var(35, Some(Box::new(x.to_val()))),
            Self::V36(x) => Val::Var(36, Some(Box::new(x.to_val()))),
            Self::V37(x) => Val::Var(37, Some(Box::new(x.to_val()))),
            Self::V38(x) => Val::Var(38, Some(Box::new(x.to_val()))),
            Self::V39(x) => Val::Var(39, Some(Box::new(x.to_val()))),
            Self::V40(x) => Val::Var(40, Some(Box::new(x.to_val()))),
            Self::V41(x) => Val::Var(41, Some(Box::new(x.to_val()))),
            Self::V42(x) => Val::Var(42, Some(Box::new(x.to_val()))),
            Self::V43(x) => Val::Var(43, Some(Box::new(x.to_val()))),
            Self::V44(x) => Val::Var(44, Some(Box::new(x.to_val()))),
            Self::V45(x) => Val::Var(45, Some(Box::new(x.to_val()))),
            Self::V46(x) => Val::Var(46, Some(Box::new(x.to_val()))),
            Self::V47(x) => Val::Var(47, Some(Box::new(x.to_val()))),
            Self::V48(x) => Val::Var(48, Some(Box::new(x.to_val()))),
            Self::V49(x) => Val::Var(49, Some(Box::new(x.to_val()))),
            Self::V50(x) => Val::Var(50, Some(Box::new(x.to_val()))),
            Self::V51(x) => Val::Var(51, Some(Box::new(x.to_val()))),
            Self::V52(x) => Val::Var(52, Some(Box::new(x.to_val()))),
            Self::V53(x) => Val::Var(53, Some(Box::new(x.to_val()))),
            Self::V54(x) => Val::Var(54, Some(Box::new(x.to_val()))),
            Self::V55(x) => Val::Var(55, Some(Box::new(x.to_val()))),
            Self::V56(x) => Val::Var(56, Some(Box::new(x.to_val()))),
            Self::V57(x) => Val::Var(57, Some(Box::new(x.to_val()))),
            Self::V58(x) => Val::Var(58, Some(Box::new(x.to_val()))),
            Self::V59(x) => Val::Var(59, Some(Box::new(x.to_val()))),
            Self::V60(x) => Val::Var(60, Some(Box::new(x.to_val()))),
            Self::V61(x) => Val::Var(61, Some(Box::new(x.to_val()))),
            Self::V62(x) => Val::Var(62, Some(Box::new(x.to_val()))),
            Self::V63(x) => Val::Var(63, Some(Box::new(x.to_val()))),
            Self::V64(x) => Val::Var(64, Some(Box::new(x.to_val()))),
            Self::V65(x) => Val::Var(65, Some(Box::new(x.to_val()))),
            Self::V66(x) => Val::Var(66, Some(Box::new(x.to_val()))),
            Self::V67(x) => Val::Var(67, Some(Box::new(x.to_val()))),
            Self::V68(x) => Val::Var(68, Some(Box::new(x.to_val()))),
            Self::V69(x) => Val::Var(69, Some(Box::new(x.to_val()))),
            Self::V70(x) => Val::Var(70, Some(Box::new(x.to_val()))),
            Self::V71(x) => Val::Var(71, Some(Box::new(x.to_val()))),
            Self::V72(x) => Val::Var(72, Some(Box::new(x.to_val()))),
            Self::V73(x) => Val::Var(73, Some(Box::new(x.to_val()))),
            Self::V74(x) => Val::Var(74, Some(Box::new(x.to_val()))),
            Self::V75(x) => Val::Var(75, Some(Box::new(x.to_val()))),
            Self::V76(x) => Val::Var(76, Some(Box::new(x.to_val()))),
            Self::V77(x) => Val::Var(77, Some(Box::new(x.to_val()))),
            Self::V78(x) => Val::Var(78, Some(Box::new(x.to_val()))),
            Self::V79(x) => Val::Var(79, Some(Box::new(x.to_val()))),
            Self::V80(x) => Val::Var(80, Some(Box::new(x.to_val()))),
            Self::V81(x) => Val::Var(81, Some(Box::new(x.to_val()))),
            Self::V82(x) => Val::Var(82, Some(Box::new(x.to_val()))),
            Self::V83(x) => Val::Var(83, Some(Box::new(x.to_val()))),
            Self::V84(x) => Val::Var(84, Some(Box::new(x.to_val()))),
            Self::V85(x) => Val::Var(85, Some(Box::new(x.to_val()))),
            Self::V86(x) => Val::Var(86, Some(Box::new(x.to_val()))),
            Self::V87(x) => Val::Var(87, Some(Box::new(x.to_val()))),
            Self::V88(x) => Val::Var(88, Some(Box::new(x.to_val()))),
            Self::V89(x) => Val::Var(89, Some(Box::new(x.to_val()))),
            Self::V90(x) => Val::Var(90, Some(Box::new(x.to_val()))),
            Self::V91(x) => Val::Var(91, Some(Box::new(x.to_val()))),
            Self::V92(x) => Val::Var(92, Some(Box::new(x.to_val()))),
            Self::V93(x) => Val::Var(93, Some(Box::new(x.to_val()))),
            Self::V94(x) => Val::Var(94, Some(Box::new(x.to_val()))),
            Self::V95(x) => Val::Var(95, Some(Box::new(x.to_val()))),
            Self::V96(x) => Val::Var(96, Some(Box::new(x.to_val()))),
            Self::V97(x) => Val::Var(97, Some(Box::new(x.to_val()))),
            Self::V98(x) => Val::Var(98, Some(Box::new(x.to_val()))),
            Self::V99(x) => Val::Var(99, Some(Box::new(x.to_val()))),
            Self::V100(x) => Val::Var(100, Some(Box::new(x.to_val()))),
            Self::V101(x) => Val::Var(101, Some(Box::new(x.to_val()))),
            Self::V102(x) => Val::Var(102, Some(Box::new(x.to_val()))),
            Self::V103(x) => Val::Var(103, Some(Box::new(x.to_val()))),
            Self::V104(x) => Val::Var(104, Some(Box::new(x.to_val()))),
            Self::V105(x) => Val::Var(105, Some(Box::new(x.to_val()))),
            Self::V106(x) => Val::Var(106, Some(Box::new(x.to_val()))),
            Self::V107(x) => Val::Var(107, Some(Box::new(x.to_val()))),
            Self::V108(x) => Val::Var(108, Some(Box::new(x.to_val()))),
            Self::V109(x) => Val::Var(109, Some(Box::new(x.to_val()))),
            Self::V110(x) => Val::Var(110, Some(Box::new(x.to_val()))),
            Self::V111(x) => Val::Var(111, Some(Box::new(x.to_val()))),
            Self::V112(x) => Val::Var(112, Some(Box::new(x.to_val()))),
            Self::V113(x) => Val::Var(113, Some(Box::new(x.to_val()))),
            Self::V114(x) => Val::Var(114, Some(Box::new(x.to_val()))),
            Self::V115(x) => Val::Var(115, Some(Box::new(x.to_val()))),
            Self::V116(x) => Val::Var(116, Some(Box::new(x.to_val()))),
            Self::V117(x) => Val::Var(117, Some(Box::new(x.to_val()))),
            Self::V118(x) => Val::Var(118, Some(Box::new(x.to_val()))),
            Self::V119(x) => Val::Var(119, Some(Box::new(x.to_val()))),
            Self::V120(x) => Val::Var(120, Some(Box::new(x.to_val()))),
            Self::V121(x) => Val::Var(121, Some(Box::new(x.to_val()))),
            Self::V122(x) => Val::Var(122, Some(Box::new(x.to_val()))),
            Self::V123(x) => Val::Var(123, Some(Box::new(x.to_val()))),
            Self::V124(x) => Val::Var(124, Some(Box::new(x.to_val()))),
            Self::V125(x) => Val::Var(125, Some(Box::new(x.to_val()))),
            Self::V126(x) => Val::Var(126, Some(Box::new(x.to_val()))),
        }
    }
    fn mem() -> usize {
        64usize.max(<Vec<u8> as Ty>::mem()).max(<u8 as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
#[ssz(enum_behaviour = "union")]
pub enum U128 {
    V0(bool),
    V1(u16),
    V2(u16),
    V3(bool),
    V4(u16),
    V5(u16),
    V6(bool),
    V7(u16),
    V8(u16),
    V9(bool),
    V10(u16),
    V11(u16),
    V12(bool),
    V13(u16),
    V14(u16),
    V15(bool),
    V16(u16),
    V17(u16),
    V18(bool),
    V19(u16),
    V20(u16),
    V21(bool),
    V22(u16),
    V23(u16),
    V24(bool),
    V25(u16),
    V26(u16),
    V27(bool),
    V28(u16),
    V29(u16),
    V30(bool),
    V31(u16),
    V32(u16),
    V33(bool),
    V34(u16),
    V35(u16),
    V36(bool),
    V37(u16),
    V38(u16),
    V39(bool),
    V40(u16),
    V41(u16),
    V42(bool),
    V43(u16),
    V44(u16),
    V45(bool),
    V46(u16),
    V47(u16),
    V48(bool),
    V49(u16),
    V50(u16),
    V51(bool),
    V52(u16),
    V53(u16),
    V54(bool),
    V55(u16),
    V56(u16),
    V57(bool),
    V58(u16),
    V59(u16),
    V60(bool),
    V61(u16),
    V62(u16),
    V63(bool),
    V64(u16),
    V65(u16),
    V66(bool),
    V67(u16),
    V68(u16),
    V69(bool),
    V70(u16),
    V71(u16),
    V72(bool),
    V73(u16),
    V74(u16),
    V75(bool),
    V76(u16),
    V77(u16),
    V78(bool),
    V79(u16),
    V80(u16),
    V81(bool),
    V82(u16),
    V83(u16),
    V84(bool),
    V85(u16),
    V86(u16),
    V87(bool),
    V88(u16),
    V89(u16),
    V90(bool),
    V91(u16),
    V92(u16),
    V93(bool),
    V94(u16),
    V95(u16),
    V96(bool),
    V97(u16),
    V98(u16),
    V99(bool),
    V100(u16),
    V101(u16),
    V102(bool),
    V103(u16),
    V104(u16),
    V105(bool),
    V106(u16),
    V107(u16),
    V108(bool),
    V109(u16),
    V110(u16),
    V111(bool),
    V112(u16),
    V113(u16),
    V114(bool),
    V115(u16),
    V116(u16),
    V117(bool),
    V118(u16),
    V119(u16),
    V120(bool),
    V121(u16),
    V122(u16),
    V123(bool),
    V124(u16),
    V125(u16),
    V126(bool),
    V127(u16),
}
impl Ty for U128 {
    fn schema() -> Schema {
        Schema::Union(vec![
            Some(<bool as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<bool as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<bool as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<bool as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<bool as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<bool as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<bool as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<bool as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<bool as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<bool as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<bool as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<bool as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<bool as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<bool as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<bool as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<bool as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<bool as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<bool as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<bool as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<bool as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<bool as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<bool as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<bool as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<bool as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<bool as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<bool as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<bool as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<bool as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<bool as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<bool as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<bool as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<bool as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<bool as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<bool as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<bool as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<bool as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<bool as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<bool as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<bool as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<bool as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<bool as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<bool as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
            Some(<bool as Ty>::schema()),
            Some(<u16 as Ty>::schema()),
        ])
    }
    fn from_val(v: &Val) -> Self {
        match vi(v) {
            0 => Self::V0(<bool as Ty>::from_val(bx(v))),
            1 => Self::V1(<u16 as Ty>::from_val(bx(v))),
            2 => Self::V2(<u16 as Ty>::from_val(bx(v))),
            3 => Self::V3(<bool as Ty>::from_val(bx(v))),
            4 => Self::V4(<u16 as Ty>::from_val(bx(v))),
            5 => Self::V5(<u16 as Ty>::from_val(bx(v))),
            6 => Self::V6(<bool as Ty>::from_val(bx(v))),
            7 => Self::V7(<u16 as Ty>::from_val(bx(v))),
            8 => Self::V8(<u16 as Ty>::from_val(bx(v))),
            9 => Self::V9(<bool as Ty>::from_val(bx(v))),
            10 => Self::V10(<u16 as Ty>::from_val(bx(v))),
            11 => Self::V11(<u16 as Ty>::from_val(bx(v))),
            12 => Self::V12(<bool as Ty>::from_val(bx(v))),
            13 => Self::V13(<u16 as Ty>::from_val(bx(v))),
            14 => Self::V14(<u16 as Ty>::from_val(bx(v))),
            15 => Self::V15(<bool as Ty>::from_val(bx(v))),
            16 => Self::V16(<u16 as Ty>::from_val(bx(v))),
            17 => Self::V17(<u16 as Ty>::from_val(bx(v))),
            18 => Self::V18(<bool as Ty>::from_val(bx(v))),
            19 => Self::V19(<u16 as Ty>::from_val(bx(v))),
            20 => Self::V20(<u16 as Ty>::from_val(bx(v))),
            21 => Self::V21(<bool as Ty>::from_val(bx(v))),
            22 => Self::V22(<u16 as Ty>::from_val(bx(v))),
            23 => Self::V23(<u16 as Ty>::from_val(bx(v))),
            24 => Self::V24(<bool as Ty>::from_val(bx(v))),
            25 => Self::V25(<u16 as Ty>::from_val(bx(v))),
            26 => Self::V26(<u16 as Ty>::from_val(bx(v))),
            27 => Self::V27(<bool as Ty>::from_val(bx(v))),
            28 => Self::V28(<u16 as Ty>::from_val(bx(v))),
            29 => Self::V29(<u16 as Ty>::from_val(bx(v))),
            30 => Self::V30(<bool as Ty>::from_val(bx(v))),
            31 => Self::V31(<u16 as Ty>::from_val(bx(v))),
            32 => Self::V32(<u16 as Ty>::from_val(bx(v))),
            33 => Self::V33(<bool as Ty>::from_val(bx(v))),
            34 => Self::V34(<u16 as Ty>::from_val(bx(v))),
            35 => Self::V35(<u16 as Ty>::from_val(bx(v))),
            36 => Self::V36(<bool as Ty>::from_val(bx(v))),
            37 => Self::V37(<u16 as Ty>::from_val(bx(v))),
            38 => Self::V38(<u16 as Ty>::from_val(bx(v))),
            39 => Self::V39(<bool as Ty>::from_val(bx(v))),
            40 => Self::V40(<u16 as Ty>::from_val(bx(v))),
            41 => Self::V41(<u16 as Ty>::from_val(bx(v))),
            42 => Self::V42(<bool as Ty>::from_val(bx(v))),
            43 => Self::V43(<u16 as Ty>::from_val(bx(v))),
            44 => Self::V44(<u16 as Ty>::from_val(bx(v))),
            45 => Self::V45(<bool as Ty>::from_val(bx(v))),
            46 => Self::V46(<u16 as Ty>::from_val(bx(v))),
            47 => Self::V47(<u16 as Ty>::from_val(bx(v))),
            48 => Self::V48(<bool as Ty>::from_val(bx(v))),
            49 => Self::V49(<u16 as Ty>::from_val(bx(v))),
            50 => Self::V50(<u16 as Ty>::from_val(bx(v))),
            51 => Self::V51(<bool as Ty>::from_val(bx(v))),
            52 => Self::V52(<u16 as Ty>::from_val(bx(v))),
            53 => Self::V53(<u16 as Ty>::from_val(bx(v))),
            54 => Self::V54(<bool as Ty>::from_val(bx(v))),
            55 => Self::V55(<u16 as Ty>::from_val(bx(v))),
            56 => Self::V56(<u16 as Ty>::from_val(bx(v))),
            57 => Self::V57(<bool as Ty>::from_val(bx(v))),
            58 => Self::V58(<u16 as Ty>::from_val(bx(v))),
            59 => Self::V59(<u16 as Ty>::from_val(bx(v))),
            60 => Self::V60(<bool as Ty>::from_val(bx(v))),
            61 => Self::V61(<u16 as Ty>::from_val(bx(v))),
            62 => Self::V62(<u16 as Ty>::from_val(bx(v))),
            63 => Self::V63(<bool as Ty>::from_val(bx(v))),
            64 => Self::V64(<u16 as Ty>::from_val(bx(v))),
            65 => Self::V65(<u16 as Ty>::from_val(bx(v))),
            66 => Self::V66(<bool as Ty>::from_val(bx(v))),
            67 => Self::V67(<u16 as Ty>::from_val(bx(v))),
            68 => Self::V68(<u16 as Ty>::from_val(bx(v))),
            69 => Self::V69(<bool as Ty>::from_val(bx(v))),
            70 => Self::V70(<u16 as Ty>::from_val(bx(v))),
            71 => Self::V71(<u16 as Ty>::from_val(bx(v))),
            72 => Self::V72(<bool as Ty>::from_val(bx(v))),
            73 => Self::V73(<u16 as Ty>::from_val(bx(v))),
            74 => Self::V74(<u16 as Ty>::from_val(bx(v))),
            75 => Self::V75(<bool as Ty>::from_val(bx(v))),
            76 => Self::V76(<u16 as Ty>::from_val(bx(v))),
            77 => Self::V77(<u16 as Ty>::from_val(bx(v))),
            78 => Self::V78(<bool as Ty>::from_val(bx(v))),
            79 => Self::V79(<u16 as Ty>::from_val(bx(v))),
            80 => Self::V80(<u16 as Ty>::from_val(bx(v))),
            81 => Self::V81(<bool as Ty>::from_val(bx(v))),
            82 => Self::V82(<u16 as Ty>::from_val(bx(v))),
            83 => Self::V83(<u16 as Ty>::from_val(bx(v))),
            84 => Self::V84(<bool as Ty>::from_val(bx(v))),
            85 => Self::V85(<u16 as Ty>::from_val(bx(v))),
            86 => Self::V86(<u16 as Ty>::from_val(bx(v))),
            87 => Self::V87(<bool as Ty>::from_val(bx(v))),
            88 => Self::V88(<u16 as Ty>::from_val(bx(v))),
            89 => Self::V89(<u16 as Ty>::from_val(bx(v))),
            90 => Self::V90(<bool as Ty>::from_val(bx(v))),
            91 => Self::V91(<u16 as Ty>::from_val(bx(v))),
            92 => Self::V92(<u16 as Ty>::from_val(bx(v))),
            93 => Self::V93(<bool as Ty>::from_val(bx(v))),
            94 => Self::V94(<u16 as Ty>::from_val(bx(v))),
            95 => Self::V95(<u16 as Ty>::from_val(bx(v))),
            96 => Self::V96(<bool as Ty>::from_val(bx(v))),
            97 => Self::V97(<u16 as Ty>::from_val(bx(v))),
            98 => Self::V98(<u16 as Ty>::from_val(bx(v))),
            99 => Self::V99(<bool as Ty>::from_val(bx(v))),
            100 => Self::V100(<u16 as Ty>::from_val(bx(v))),
            101 => Self::V101(<u16 as Ty>::from_val(bx(v))),
            102 => Self::V102(<bool as Ty>::from_val(bx(v))),
            103 => Self::V103(<u16 as Ty>::from_val(bx(v))),
            104 => Self::V104(<u16 as Ty>::from_val(bx(v))),
            105 => Self::V105(<bool as Ty>::from_val(bx(v))),
            106 => Self::V106(<u16 as Ty>::from_val(bx(v))),
            107 => Self::V107(<u16 as Ty>::from_val(bx(v))),
            108 => Self::V108(<bool as Ty>::from_val(bx(v))),
            109 => Self::V109(<u16 as Ty>::from_val(bx(v))),
            110 => Self::V110(<u16 as Ty>::from_val(bx(v))),
            111 => Self::V111(<bool as Ty>::from_val(bx(v))),
            112 => Self::V112(<u16 as Ty>::from_val(bx(v))),
            113 => Self::V113(<u16 as Ty>::from_val(bx(v))),
            114 => Self::V114(<bool as Ty>::from_val(bx(v))),
            115 => Self::V115(<u16 as Ty>::from_val(bx(v))),
            116 => Self::V116(<u16 as Ty>::from_val(bx(v))),
            117 => Self::V117(<bool as Ty>::from_val(bx(v))),
            118 => Self::V118(<u16 as Ty>::from_val(bx(v))),
            119 => Self::V119(<u16 as Ty>::from_val(bx(v))),
            120 => Self::V120(<bool as Ty>::from_val(bx(v))),
            121 => Self::V121(<u16 as Ty>::from_val(bx(v))),
            122 => Self::V122(<u16 as Ty>::from_val(bx(v))),
            123 => Self::V123(<bool as Ty>::from_val(bx(v))),
            124 => Self::V124(<u16 as Ty>::from_val(bx(v))),
            125 => Self::V125(<u16 as Ty>::from_val(bx(v))),
            126 => Self::V126(<bool as Ty>::from_val(bx(v))),
            127 => Self::V127(<u16 as Ty>::from_val(bx(v))),
            _ => panic!("model"),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::V0(x) => Val::Var(0, Some(Box::new(x.to_val()))),
            Self::V1(x) => Val::Var(1, Some(Box::new(x.to_val()))),
            Self::V2(x) => Val::Var(2, Some(Box::new(x.to_val()))),
            Self::V3(x) => Val::Var(3, Some(Box::new(x.to_val()))),
            Self::V4(x) => Val::Var(4, Some(Box::new(x.to_val()))),
            Self::V5(x) => Val::Var(5, Some(Box::new(x.to_val()))),
            Self::V6(x) => Val::Var(6, Some(Box::new(x.to_val()))),
            Self::V7(x) => Val::Var(7, Some(Box::new(x.to_val()))),
            Self::V8(x) => Val::Var(8, Some(Box::new(x.to_val()))),
            Self::V9(x) => Val::Var(9, Some(Box::new(x.to_val()))),
            Self::V10(x) => Val::Var(10, Some(Box::new(x.to_val()))),
            Self::V11(x) => Val::Var(11, Some(Box::new(x.to_val()))),
            Self::V12(x) => Val::Var(12, Some(Box::new(x.to_val()))),
            Self::V13(x) => Val::Var(13, Some(Box::new(x.to_val()))),
            Self::V14(x) => Val::Var(14, Some(Box::new(x.to_val()))),
            Self::V15(x) => Val::Var(15, Some(Box::new(x.to_val()))),
            Self::V16(x) => Val::Var(16, Some(Box::new(x.to_val()))),
            Self::V17(x) => Val::Var(17, Some(Box::new(x.to_val()))),
            Self::V18(x) => Val::Var(18, Some(Box::new(x.to_val()))),
            Self::V19(x) => Val::Var(19, Some(Box::new(x.to_val()))),
            Self::V20(x) => Val::Var(20, Some(Box::new(x.to_val()))),
            Self::V21(x) => Val::Var(21, Some(Box::new(x.to_val()))),
            Self::V22(x) => Val::Var(22, Some(Box::new(x.to_val()))),
            Self::V23(x) => Val::Var(23, Some(Box::new(x.to_val()))),
            Self::V24(x) => Val::Var(24, Some(Box::new(x.to_val()))),
            Self::V25(x) => Val::Var(25, Some(Box::new(x.to_val()))),
            Self::V26(x) => Val::Var(26, Some(Box::new(x.to_val()))),
            Self::V27(x) => Val::Var(27, Some(Box::new(x.to_val()))),
            Self::V28(x) => Val::Var(28, Some(Box::new(x.to_val()))),
            Self::V29(x) => Val::Var(29, Some(Box::new(x.to_val()))),
            Self::V30(x) => Val::Var(30, Some(Box::new(x.to_val()))),
            Self::V31(x) => Val::Var(31, Some(Box::new(x.to_val()))),
            Self::V32(x) => Val::Var(32, Some(Box::new(x.to_val()))),
            Self::V33(x) => Val::Var(33, Some(Box::new(x.to_val()))),
            Self::V34(x) => Val::Var(34, Some(Box::new(x.to_val()))),
            Self::V35(x) => Val::Var(35, Some(Box::new(x.to_val()))),
            Self::V36(x) => Val::Var(36, Some(Box::new(x.to_val()))),
            Self::V37(x) => Val::Var(37, Some(Box::new(x.to_val()))),
            Self::V38(x) => Val::Var(38, Some(Box::new(x.to_val()))),
            Self::V39(x) => Val::Var(39, Some(Box::new(x.to_val()))),
            Self::V40(x) => Val::Var(40, Some(Box::new(x.to_val()))),
            Self::V41(x) => Val::Var(41, Some(Box::new(x.to_val()))),
            Self::V42(x) => Val::Var(42, Some(Box::new(x.to_val()))),
            Self::V43(x) => Val::Var(43, Some(Box::new(x.to_val()))),
            Self::V44(x) => Val::Var(44, Some(Box::new(x.to_val()))),
            Self::V45(x) => Val::Var(45, Some(Box::new(x.to_val()))),
            Self::V46(x) => Val::Var(46, Some(Box::new(x.to_val()))),
            Self::V47(x) => Val::Var(47, Some(Box::new(x.to_val()))),
            Self::V48(x) => Val::Var(48, Some(Box::new(x.to_val()))),
            Self::V49(x) => Val::Var(49, Some(Box::new(x.to_val()))),
            Self::V50(x) => Val::Var(50, Some(Box::new(x.to_val()))),
            Self::V51(x) => Val::Var(51, Some(Box::new(x.to_val()))),
            Self::V52(x) => Val::Var(52, Some(Box::new(x.to_val()))),
            Self::V53(x) => Val::Var(53, Some(Box::new(x.to_val()))),
            Self::V54(x) => Val::Var(54, Some(Box::new(x.to_val()))),
            Self::V55(x) => Val::Var(55, Some(Box::new(x.to_val()))),
            Self::V56(x) => Val::Var(56, Some(Box::new(x.to_val()))),
            Self::V57(x) => Val::Var(57, Some(Box::new(x.to_val()))),
            Self::V58(x) => Val::Var(58, Some(Box::new(x.to_val()))),
            Self::V59(x) => Val::Var(59, Some(Box::new(x.to_val()))),
            Self::V60(x) => Val::Var(60, Some(Box::new(x.to_val()))),
            Self::V61(x) => Val::Var(61, Some(Box::new(x.to_val()))),
            Self::V62(x) => Val::Var(62, Some(Box::new(x.to_val()))),
            Self::V63(x) => Val::Var(63, Some(Box::new(x.to_val()))),
            Self::V64(x) => Val::Var(64, Some(Box::new(x.to_val()))),
            Self::V65(x) => Val::Var(65, Some(Box::new(x.to_val()))),
            Self::V66(x) => Val::Var(66, Some(Box::new(x.to_val()))),
            Self::V67(x) => Val::Var(67, Some(Box::new(x.to_val()))),
            Self::V68(x) => Val::Var(68, Some(Box::new(x.to_val()))),
            Self::V69(x) => Val::Var(69, Some(Box::new(x.to_val()))),
            Self::V70(x) => Val::Var(70, Some(Box::new(x.to_val()))),
            Self::V71(x) => Val::Var(71, Some(Box::new(x.to_val()))),
            Self::V72(x) => Val::Var(72, Some(Box::new(x.to_val()))),
            Self::V73(x) => Val::Var(73, Some(Box::new(x.to_val()))),
            Self::V74(x) => Val::Var(74, Some(Box::new(x.to_val()))),
            Self::V75(x) => Val::Var(75, Some(Box::new(x.to_val()))),
            Self::V76(x) => Val::Var(76, Some(Box::new(x.to_val()))),
            Self::V77(x) => Val::Var(77, Some(Box::new(x.to_val()))),
            Self::V78(x) => Val::Var(78, Some(Box::new(x.to_val()))),
            Self::V79(x) => Val::Var(79, Some(Box::new(x.to_val()))),
            Self::V80(x) => Val::Var(80, Some(Box::new(x.to_val()))),
            Self::V81(x) => Val::Var(81, Some(Box::new(x.to_val()))),
            Self::V82(x) => Val::Var(82, Some(Box::new(x.to_val()))),
            Self::V83(x) => Val::Var(83, Some(Box::new(x.to_val()))),
            Self::V84(x) => Val::Var(84, Some(Box::new(x.to_val()))),
            Self::V85(x) => Val::Var(85, Some(Box::new(x.to_val()))),
            Self::V86(x) => Val::Var(86, Some(Box::new(x.to_val()))),
            Self::V87(x) => Val::Var(87, Some(Box::new(x.to_val()))),
            Self::V88(x) => Val::Var(88, Some(Box::new(x.to_val()))),
            Self::V89(x) => Val::Var(89, Some(Box::new(x.to_val()))),
            Self::V90(x) => Val::Var(90, Some(Box::new(x.to_val()))),
            Self::V91(x) => Val::Var(91, Some(Box::new(x.to_val()))),
            Self::V92(x) => Val::Var(92, Some(Box::new(x.to_val()))),
            Self::V93(x) => Val::Var(93, Some(Box::new(x.to_val()))),
            Self::V94(x) => Val::Var(94, Some(Box::new(x.to_val()))),
            Self::V95(x) => Val::Var(95, Some(Box::new(x.to_val()))),
            Self::V96(x) => Val::Var(96, Some(Box::new(x.to_val()))),
            Self::V97(x) => Val::Var(97, Some(Box::new(x.to_val()))),
            Self::V98(x) => Val::Var(98, Some(Box::new(x.to_val()))),
            Self::V99(x) => Val::Var(99, Some(Box::new(x.to_val()))),
            Self::V100(x) => Val::Var(100, Some(Box::new(x.to_val()))),
            Self::V101(x) => Val::Var(101, Some(Box::new(x.to_val()))),
            Self::V102(x) => Val::Var(102, Some(Box::new(x.to_val()))),
            Self::V103(x) => Val::Var(103, Some(Box::new(x.to_val()))),
            Self::V104(x) => Val::Var(104, Some(Box::new(x.to_val()))),
            Self::V105(x) => Val::Var(105, Some(Box::new(x.to_val()))),
            Self::V106(x) => Val::Var(106, Some(Box::new(x.to_val()))),
            Self::V107(x) => Val::Var(107, Some(Box::new(x.to_val()))),
            Self::V108(x) => Val::Var(108, Some(Box::new(x.to_val()))),
            Self::V109(x) => Val::Var(109, Some(Box::new(x.to_val()))),
            Self::V110(x) => Val::Var(110, Some(Box::new(x.to_val()))),
            Self::V111(x) => Val::Var(111, Some(Box::new(x.to_val()))),
            Self::V112(x) => Val::Var(112, Some(Box::new(x.to_val()))),
            Self::V113(x) => Val::Var(113, Some(Box::new(x.to_val()))),
            Self::V114(x) => Val::Var(114, Some(Box::new(x.to_val()))),
            Self::V115(x) => Val::Var(115, Some(Box::new(x.to_val()))),
            Self::V116(x) => Val::Var(116, Some(Box::new(x.to_val()))),
            Self::V117(x) => Val::Var(117, Some(Box::new(x.to_val()))),
            Self::V118(x) => Val::Var(118, Some(Box::new(x.to_val()))),
            Self::V119(x) => Val::Var(119, Some(Box::new(x.to_val()))),
            Self::V120(x) => Val::Var(120, Some(Box::new(x.to_val()))),
            Self::V121(x) => Val::Var(121, Some(Box::new(x.to_val()))),
            Self::V122(x) => Val::Var(122, Some(Box::new(x.to_val()))),
            Self::V123(x) => Val::Var(123, Some(Box::new(x.to_val()))),
            Self::V124(x) => Val::Var(124, Some(Box::new(x.to_val()))),
            Self::V125(x) => Val::Var(125, Some(Box::new(x.to_val()))),
            Self::V126(x) => Val::Var(126, Some(Box::new(x.to_val()))),
            Self::V127(x) => Val::Var(127, Some(Box::new(x.to_val()))),
        }
    }
    fn mem() -> usize {
        64usize.max(<bool as Ty>::mem()).max(<u16 as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
#[ssz(enum_behaviour = "union")]
pub enum UG<A: Encode + Decode, B: Encode + Decode> {
    V0(A),
    V1(B),
    V2(Vec<A>),
}
impl<A: Ty + Sync, B: Ty + Sync> Ty for UG<A, B> {
    fn schema() -> Schema {
        Schema::Union(vec![
            Some(<A as Ty>::schema()),
            Some(<B as Ty>::schema()),
            Some(<Vec<A> as Ty>::schema()),
        ])
    }
    fn from_val(v: &Val) -> Self {
        match vi(v) {
            0 => Self::V0(<A as Ty>::from_val(bx(v))),
            1 => Self::V1(<B as Ty>::from_val(bx(v))),
            2 => Self::V2(<Vec<A> as Ty>::from_val(bx(v))),
            _ => panic!("model"),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::V0(x) => Val::Var(0, Some(Box::new(x.to_val()))),
            Self::V1(x) => Val::Var(1, Some(Box::new(x.to_val()))),
            Self::V2(x) => Val::Var(2, Some(Box::new(x.to_val()))),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<A as Ty>::mem())
            .max(<B as Ty>::mem())
            .max(<Vec<A> as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
#[ssz(enum_behaviour = "union")]
pub enum UTr {
    V0(TrF),
    V1(TrV),
    V2(SkipMid),
    V3(WithLeg),
}
impl Ty for UTr {
    fn schema() -> Schema {
        Schema::Union(vec![
            Some(<TrF as Ty>::schema()),
            Some(<TrV as Ty>::schema()),
            Some(<SkipMid as Ty>::schema()),
            Some(<WithLeg as Ty>::schema()),
        ])
    }
    fn from_val(v: &Val) -> Self {
        match vi(v) {
            0 => Self::V0(<TrF as Ty>::from_val(bx(v))),
            1 => Self::V1(<TrV as Ty>::from_val(bx(v))),
            2 => Self::V2(<SkipMid as Ty>::from_val(bx(v))),
            3 => Self::V3(<WithLeg as Ty>::from_val(bx(v))),
            _ => panic!("model"),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::V0(x) => Val::Var(0, Some(Box::new(x.to_val()))),
            Self::V1(x) => Val::Var(1, Some(Box::new(x.to_val()))),
            Self::V2(x) => Val::Var(2, Some(Box::new(x.to_val()))),
            Self::V3(x) => Val::Var(3, Some(Box::new(x.to_val()))),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<TrF as Ty>::mem())
            .max(<TrV as Ty>::mem())
            .max(<SkipMid as Ty>::mem())
            .max(<WithLeg as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Encode, Decode)]
#[ssz(enum_behaviour = "tag")]
pub enum T1 {
    T0,
}
impl Ty for T1 {
    fn schema() -> Schema {
        Schema::Tag(1)
    }
    fn from_val(v: &Val) -> Self {
        match vi(v) {
            0 => Self::T0,
            _ => panic!("model"),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::T0 => Val::Var(0, None),
        }
    }
}
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Encode, Decode)]
#[ssz(enum_behaviour = "tag")]
pub enum T2 {
    T0,
    T1,
}
impl Ty for T2 {
    fn schema() -> Schema {
        Schema::Tag(2)
    }
    fn from_val(v: &Val) -> Self {
        match vi(v) {
            0 => Self::T0,
            1 => Self::T1,
            _ => panic!("model"),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::T0 => Val::Var(0, None),
            Self::T1 => Val::Var(1, None),
        }
    }
}
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Encode, Decode)]
#[ssz(enum_behaviour = "tag")]
pub enum T3 {
    T0,
    T1,
    T2,
}
impl Ty for T3 {
    fn schema() -> Schema {
        Schema::Tag(3)
    }
    fn from_val(v: &Val) -> Self {
        match vi(v) {
            0 => Self::T0,
            1 => Self::T1,
            2 => Self::T2,
            _ => panic!("model"),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::T0 => Val::Var(0, None),
            Self::T1 => Val::Var(1, None),
            Self::T2 => Val::Var(2, None),
        }
    }
}
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Encode, Decode)]
#[ssz(enum_behaviour = "tag")]
pub enum T127 {
    T0,
    T1,
    T2,
    T3,
    T4,
    T5,
    T6,
    T7,
    T8,
    T9,
    T10,
    T11,
    T12,
    T13,
    T14,
    T15,
    T16,
    T17,
    T18,
    T19,
    T20,
    T21,
    T22,
    T23,
    T24,
    T25,
    T26,
    T27,
    T28,
    T29,
    T30,
    T31,
    T32,
    T33,
    T34,
    T35,
    T36,
    T37,
    T38,
    T39,
    T40,
    T41,
    T42,
    T43,
    T44,
    T45,
    T46,
    T47,
    T48,
    T49,
    T50,
    T51,
    T52,
    T53,
    T54,
    T55,
    T56,
    T57,
    T58,
    T59,
    T60,
    T61,
    T62,
    T63,
    T64,
    T65,
    T66,
    T67,
    T68,
    T69,
    T70,
    T71,
    T72,
    T73,
    T74,
    T75,
    T76,
    T77,
    T78,
    T79,
    T80,
    T81,
    T82,
    T83,
    T84,
    T85,
    T86,
    T87,
    T88,
    T89,
    T90,
    T91,
    T92,
    T93,
    T94,
    T95,
    T96,
    T97,
    T98,
    T99,
    T100,
    T101,
    T102,
    T103,
    T104,
    T105,
    T106,
    T107,
    T108,
    T109,
    T110,
    T111,
    T112,
    T113,
    T114,
    T115,
    T116,
    T117,
    T118,
    T119,
    T120,
    T121,
    T122,
    T123,
    T124,
    T125,
    T126,
}
impl Ty for T127 {
    fn schema() -> Schema {
        Schema::Tag(127)
    }
    fn from_val(v: &Val) -> Self {
        match vi(v) {
            0 => Self::T0,
            1 => Self::T1,
            2 => Self::T2,
            3 => Self::T3,
            4 => Self::T4,
            5 => Self::T5,
            6 => Self::T6,
            7 => Self::T7,
            8 => Self::T8,
            9 => Self::T9,
            10 => Self::T10,
            11 => Self::T11,
            12 => Self::T12,
            13 => Self::T13,
            14 => Self::T14,
            15 => Self::T15,
            16 => Self::T16,
            17 => Self::T17,
            18 => Self::T18,
            19 => Self::T19,
            20 => Self::T20,
            21 => Self::T21,
            22 => Self::T22,
            23 => Self::T23,
            24 => Self::T24,
            25 => Self::T25,
            26 => Self::T26,
            27 => Self::T27,
            28 => Self::T28,
            29 => Self::T29,
            30 => Self::T30,
            31 => Self::T31,
            32 => Self::T32,
            33 => Self::T33,
            34 => Self::T34,
            35 => Self::T35,
            36 => Self::T36,
            37 => Self::T37,
            38 => Self::T38,
            39 => Self::T39,
            40 => Self::T40,
            41 => Self::T41,
            42 => Self::T42,
            43 => Self::T43,
            44 => Self::T44,
            45 => Self::T45,
            46 => Self::T46,
            47 => Self::T47,
            48 => Self::T48,
            49 => Self::T49,
            50 => Self::T50,
            51 => Self::T51,
            52 => Self::T52,
            53 => Self::T53,
            54 => Self::T54,
            55 => Self::T55,
            56 => Self::T56,
            57 => Self::T57,
            58 => Self::T58,
            59 => Self::T59,
            60 => Self::T60,
            61 => Self::T61,
            62 => Self::T62,
            63 => Self::T63,
            64 => Self::T64,
            65 => Self::T65,
            66 => Self::T66,
            67 => Self::T67,
            68 => Self::T68,
            69 => Self::T69,
            70 => Self::T70,
            71 => Self::T71,
            72 => Self::T72,
            73 => Self::T73,
            74 => Self::T74,
            75 => Self::T75,
            76 => Self::T76,
            77 => Self::T77,
            78 => Self::T78,
            79 => Self::T79,
            80 => Self::T80,
            81 => Self::T81,
            82 => Self::T82,
            83 => Self::T83,
            84 => Self::T84,
            85 => Self::T85,
            86 => Self::T86,
            87 => Self::T87,
            88 => Self::T88,
            89 => Self::T89,
            90 => Self::T90,
            91 => Self::T91,
            92 => Self::T92,
            93 => Self::T93,
            94 => Self::T94,
            95 => Self::T95,
            96 => Self::T96,
            97 => Self::T97,
            98 => Self::T98,
            99 => Self::T99,
            100 => Self::T100,
            101 => Self::T101,
            102 => Self::T102,
            103 => Self::T103,
            104 => Self::T104,
            105 => Self::T105,
            106 => Self::T106,
            107 => Self::T107,
            108 => Self::T108,
            109 => Self::T109,
            110 => Self::T110,
            111 => Self::T111,
            112 => Self::T112,
            113 => Self::T113,
            114 => Self::T114,
            115 => Self::T115,
            116 => Self::T116,
            117 => Self::T117,
            118 => Self::T118,
            119 => Self::T119,
            120 => Self::T120,
            121 => Self::T121,
            122 => Self::T122,
            123 => Self::T123,
            124 => Self::T124,
            125 => Self::T125,
            126 => Self::T126,
            _ => panic!("model"),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::T0 => Val::Var(0, None),
            Self::T1 => Val::Var(1, None),
            Self::T2 => Val::Var(2, None),
            Self::T3 => Val::Var(3, None),
            Self::T4 => Val::Var(4, None),
            Self::T5 => Val::Var(5, None),
            Self::T6 => Val::Var(6, None),
            Self::T7 => Val::Var(7, None),
            Self::T8 => Val::Var(8, None),
            Self::T9 => Val::Var(9, None),
            Self::T10 => Val::Var(10, None),
            Self::T11 => Val::Var(11, None),
            Self::T12 => Val::Var(12, None),
            Self::T13 => Val::Var(13, None),
            Self::T14 => Val::Var(14, None),
            Self::T15 => Val::Var(15, None),
            Self::T16 => Val::Var(16, None),
            Self::T17 => Val::Var(17, None),
            Self::T18 => Val::Var(18, None),
            Self::T19 => Val::Var(19, None),
            Self::T20 => Val::Var(20, None),
            Self::T21 => Val::Var(21, None),
            Self::T22 => Val::Var(22, None),
            Self::T23 => Val::Var(23, None),
            Self::T24 => Val::Var(24, None),
            Self::T25 => Val::Var(25, None),
            Self::T26 => Val::Var(26, None),
            Self::T27 => Val::Var(27, None),
            Self::T28 => Val::Var(28, None),
            Self::T29 => Val::Var(29, None),
            Self::T30 => Val::Var(30, None),
            Self::T31 => Val::Var(31, None),
            Self::T32 => Val::Var(32, None),
            Self::T33 => Val::Var(33, None),
            Self::T34 => Val::Var(34, None),
            Self::T35 => Val::Var(35, None),
            Self::T36 => Val::Var(36, None),
            Self::T37 => Val::Var(37, None),
            Self::T38 => Val::Var(38, None),
            Self::T39 => Val::Var(39, None),
            Self::T40 => Val::Var(40, None),
            Self::T41 => Val::Var(41, None),
            Self::T42 => Val::Var(42, None),
            Self::T43 => Val::Var(43, None),
            Self::T44 => Val::Var(44, None),
            Self::T45 => Val::Var(45, None),
            Self::T46 => Val::Var(46, None),
            Self::T47 => Val::Var(47, None),
            Self::T48 => Val::Var(48, None),
            Self::T49 => Val::Var(49, None),
            Self::T50 => Val::Var(50, None),
            Self::T51 => Val::Var(51, None),
            Self::T52 => Val::Var(52, None),
            Self::T53 => Val::Var(53, None),
            Self::T54 => Val::Var(54, None),
            Self::T55 => Val::Var(55, None),
            Self::T56 => Val::Var(56, None),
            Self::T57 => Val::Var(57, None),
            Self::T58 => Val::Var(58, None),
            Self::T59 => Val::Var(59, None),
            Self::T60 => Val::Var(60, None),
            Self::T61 => Val::Var(61, None),
            Self::T62 => Val::Var(62, None),
            Self::T63 => Val::Var(63, None),
            Self::T64 => Val::Var(64, None),
            Self::T65 => Val::Var(65, None),
            Self::T66 => Val::Var(66, None),
            Self::T67 => Val::Var(67, None),
            Self::T68 => Val::Var(68, None),
            Self::T69 => Val::Var(69, None),
            Self::T70 => Val::Var(70, None),
            Self::T71 => Val::Var(71, None),
            Self::T72 => Val::Var(72, None),
            Self::T73 => Val::Var(73, None),
            Self::T74 => Val::Var(74, None),
            Self::T75 => Val::Var(75, None),
            Self::T76 => Val::Var(76, None),
            Self::T77 => Val::Var(77, None),
            Self::T78 => Val::Var(78, None),
            Self::T79 => Val::Var(79, None),
            Self::T80 => Val::Var(80, None),
            Self::T81 => Val::Var(81, None),
            Self::T82 => Val::Var(82, None),
            Self::T83 => Val::Var(83, None),
            Self::T84 => Val::Var(84, None),
            Self::T85 => Val::Var(85, None),
            Self::T86 => Val::Var(86, None),
            Self::T87 => Val::Var(87, None),
            Self::T88 => Val::Var(88, None),
            Self::T89 => Val::Var(89, None),
            Self::T90 => Val::Var(90, None),
            Self::T91 => Val::Var(91, None),
            Self::T92 => Val::Var(92, None),
            Self::T93 => Val::Var(93, None),
            Self::T94 => Val::Var(94, None),
            Self::T95 => Val::Var(95, None),
            Self::T96 => Val::Var(96, None),
            Self::T97 => Val::Var(97, None),
            Self::T98 => Val::Var(98, None),
            Self::T99 => Val::Var(99, None),
            Self::T100 => Val::Var(100, None),
            Self::T101 => Val::Var(101, None),
            Self::T102 => Val::Var(102, None),
            Self::T103 => Val::Var(103, None),
            Self::T104 => Val::Var(104, None),
            Self::T105 => Val::Var(105, None),
            Self::T106 => Val::Var(106, None),
            Self::T107 => Val::Var(107, None),
            Self::T108 => Val::Var(108, None),
            Self::T109 => Val::Var(109, None),
            Self::T110 => Val::Var(110, None),
            Self::T111 => Val::Var(111, None),
            Self::T112 => Val::Var(112, None),
            Self::T113 => Val::Var(113, None),
            Self::T114 => Val::Var(114, None),
            Self::T115 => Val::Var(115, None),
            Self::T116 => Val::Var(116, None),
            Self::T117 => Val::Var(117, None),
            Self::T118 => Val::Var(118, None),
            Self::T119 => Val::Var(119, None),
            Self::T120 => Val::Var(120, None),
            Self::T121 => Val::Var(121, None),
            Self::T122 => Val::Var(122, None),
            Self::T123 => Val::Var(123, None),
            Self::T124 => Val::Var(124, None),
            Self::T125 => Val::Var(125, None),
            Self::T126 => Val::Var(126, None),
        }
    }
}
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Encode, Decode)]
#[ssz(enum_behaviour = "tag")]
pub enum T128 {
    T0,
    T1,
    T2,
    T3,
    T4,
    T5,
    T6,
    T7,
    T8,
    T9,
    T10,
    T11,
    T12,
    T13,
    T14,
    T15,
    T16,
    T17,
    T18,
    T19,
    T20,
    T21,
    T22,
    T23,
    T24,
    T25,
    T26,
    T27,
    T28,
    T29,
    T30,
    T31,
    T32,
    T33,
    T34,
    T35,
    T36,
    T37,
    T38,
    T39,
    T40,
    T41,
    T42,
    T43,
    T44,
    T45,
    T46,
    T47,
    T48,
    T49,
    T50,
    T51,
    T52,
    T53,
    T54,
    T55,
    T56,
    T57,
    T58,
    T59,
    T60,
    T61,
    T62,
    T63,
    T64,
    T65,
    T66,
    T67,
    T68,
    T69,
    T70,
    T71,
    T72,
    T73,
    T74,
    T75,
    T76,
    T77,
    T78,
    T79,
    T80,
    T81,
    T82,
    T83,
    T84,
    T85,
    T86,
    T87,
    T88,
    T89,
    T90,
    T91,
    T92,
    T93,
    T94,
    T95,
    T96,
    T97,
    T98,
    T99,
    T100,
    T101,
    T102,
    T103,
    T104,
    T105,
    T106,
    T107,
    T108,
    T109,
    T110,
    T111,
    T112,
    T113,
    T114,
    T115,
    T116,
    T117,
    T118,
    T119,
    T120,
    T121,
    T122,
    T123,
    T124,
    T125,
    T126,
    T127,
}
impl Ty for T128 {
    fn schema() -> Schema {
        Schema::Tag(128)
    }
    fn from_val(v: &Val) -> Self {
        match vi(v) {
            0 => Self::T0,
            1 => Self::T1,
            2 => Self::T2,
            3 => Self::T3,
            4 => Self::T4,
            5 => Self::T5,
            6 => Self::T6,
            7 => Self::T7,
            8 => Self::T8,
            9 => Self::T9,
            10 => Self::T10,
            11 => Self::T11,
            12 => Self::T12,
            13 => Self::T13,
            14 => Self::T14,
            15 => Self::T15,
            16 => Self::T16,
            17 => Self::T17,
            18 => Self::T18,
            19 => Self::T19,
            20 => Self::T20,
            21 => Self::T21,
            22 => Self::T22,
            23 => Self::T23,
            24 => Self::T24,
            25 => Self::T25,
            26 => Self::T26,
            27 => Self::T27,
            28 => Self::T28,
            29 => Self::T29,
            30 => Self::T30,
            31 => Self::T31,
            32 => Self::T32,
            33 => Self::T33,
            34 => Self::T34,
            35 => Self::T35,
            36 => Self::T36,
            37 => Self::T37,
            38 => Self::T38,
            39 => Self::T39,
            40 => Self::T40,
            41 => Self::T41,
            42 => Self::T42,
            43 => Self::T43,
            44 => Self::T44,
            45 => Self::T45,
            46 => Self::T46,
            47 => Self::T47,
            48 => Self::T48,
            49 => Self::T49,
            50 => Self::T50,
            51 => Self::T51,
            52 => Self::T52,
            53 => Self::T53,
            54 => Self::T54,
            55 => Self::T55,
            56 => Self::T56,
            57 => Self::T57,
            58 => Self::T58,
            59 => Self::T59,
            60 => Self::T60,
            61 => Self::T61,
            62 => Self::T62,
            63 => Self::T63,
            64 => Self::T64,
            65 => Self::T65,
            66 => Self::T66,
            67 => Self::T67,
            68 => Self::T68,
            69 => Self::T69,
            70 => Self::T70,
            71 => Self::T71,
            72 => Self::T72,
            73 => Self::T73,
            74 => Self::T74,
            75 => Self::T75,
            76 => Self::T76,
            77 => Self::T77,
            78 => Self::T78,
            79 => Self::T79,
            80 => Self::T80,
            81 => Self::T81,
            82 => Self::T82,
            83 => Self::T83,
            84 => Self::T84,
            85 => Self::T85,
            86 => Self::T86,
            87 => Self::T87,
            88 => Self::T88,
            89 => Self::T89,
            90 => Self::T90,
            91 => Self::T91,
            92 => Self::T92,
            93 => Self::T93,
            94 => Self::T94,
            95 => Self::T95,
            96 => Self::T96,
            97 => Self::T97,
            98 => Self::T98,
            99 => Self::T99,
            100 => Self::T100,
            101 => Self::T101,
            102 => Self::T102,
            103 => Self::T103,
            104 => Self::T104,
            105 => Self::T105,
            106 => Self::T106,
            107 => Self::T107,
            108 => Self::T108,
            109 => Self::T109,
            110 => Self::T110,
            111 => Self::T111,
            112 => Self::T112,
            113 => Self::T113,
            114 => Self::T114,
            115 => Self::T115,
            116 => Self::T116,
            117 => Self::T117,
            118 => Self::T118,
            119 => Self::T119,
            120 => Self::T120,
            121 => Self::T121,
            122 => Self::T122,
            123 => Self::T123,
            124 => Self::T124,
            125 => Self::T125,
            126 => Self::T126,
            127 => Self::T127,
            _ => panic!("model"),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::T0 => Val::Var(0, None),
            Self::T1 => Val::Var(1, None),
            Self::T2 => Val::Var(2, None),
            Self::T3 => Val::Var(3, None),
            Self::T4 => Val::Var(4, None),
            Self::T5 => Val::Var(5, None),
            Self::T6 => Val::Var(6, None),
            Self::T7 => Val::Var(7, None),
            Self::T8 => Val::Var(8, None),
            Self::T9 => Val::Var(9, None),
            Self::T10 => Val::Var(10, None),
            Self::T11 => Val::Var(11, None),
            Self::T12 => Val::Var(12, None),
            Self::T13 => Val::Var(13, None),
            Self::T14 => Val::Var(14, None),
            Self::T15 => Val::Var(15, None),
            Self::T16 => Val::Var(16, None),
            Self::T17 => Val::Var(17, None),
            Self::T18 => Val::Var(18, None),
            Self::T19 => Val::Var(19, None),
            Self::T20 => Val::Var(20, None),
            Self::T21 => Val::Var(21, None),
            Self::T22 => Val::Var(22, None),
            Self::T23 => Val::Var(23, None),
            Self::T24 => Val::Var(24, None),
            Self::T25 => Val::Var(25, None),
            Self::T26 => Val::Var(26, None),
            Self::T27 => Val::Var(27, None),
            Self::T28 => Val::Var(28, None),
            Self::T29 => Val::Var(29, None),
            Self::T30 => Val::Var(30, None),
            Self::T31 => Val::Var(31, None),
            Self::T32 => Val::Var(32, None),
            Self::T33 => Val::Var(33, None),
            Self::T34 => Val::Var(34, None),
            Self::T35 => Val::Var(35, None),
            Self::T36 => Val::Var(36, None),
            Self::T37 => Val::Var(37, None),
            Self::T38 => Val::Var(38, None),
            Self::T39 => Val::Var(39, None),
            Self::T40 => Val::Var(40, None),
            Self::T41 => Val::Var(41, None),
            Self::T42 => Val::Var(42, None),
            Self::T43 => Val::Var(43, None),
            Self::T44 => Val::Var(44, None),
            Self::T45 => Val::Var(45, None),
            Self::T46 => Val::Var(46, None),
            Self::T47 => Val::Var(47, None),
            Self::T48 => Val::Var(48, None),
            Self::T49 => Val::Var(49, None),
            Self::T50 => Val::Var(50, None),
            Self::T51 => Val::Var(51, None),
            Self::T52 => Val::Var(52, None),
            Self::T53 => Val::Var(53, None),
            Self::T54 => Val::Var(54, None),
            Self::T55 => Val::Var(55, None),
            Self::T56 => Val::Var(56, None),
            Self::T57 => Val::Var(57, None),
            Self::T58 => Val::Var(58, None),
            Self::T59 => Val::Var(59, None),
            Self::T60 => Val::Var(60, None),
            Self::T61 => Val::Var(61, None),
            Self::T62 => Val::Var(62, None),
            Self::T63 => Val::Var(63, None),
            Self::T64 => Val::Var(64, None),
            Self::T65 => Val::Var(65, None),
            Self::T66 => Val::Var(66, None),
            Self::T67 => Val::Var(67, None),
            Self::T68 => Val::Var(68, None),
            Self::T69 => Val::Var(69, None),
            Self::T70 => Val::Var(70, None),
            Self::T71 => Val::Var(71, None),
            Self::T72 => Val::Var(72, None),
            Self::T73 => Val::Var(73, None),
            Self::T74 => Val::Var(74, None),
            Self::T75 => Val::Var(75, None),
            Self::T76 => Val::Var(76, None),
            Self::T77 => Val::Var(77, None),
            Self::T78 => Val::Var(78, None),
            Self::T79 => Val::Var(79, None),
            Self::T80 => Val::Var(80, None),
            Self::T81 => Val::Var(81, None),
            Self::T82 => Val::Var(82, None),
            Self::T83 => Val::Var(83, None),
            Self::T84 => Val::Var(84, None),
            Self::T85 => Val::Var(85, None),
            Self::T86 => Val::Var(86, None),
            Self::T87 => Val::Var(87, None),
            Self::T88 => Val::Var(88, None),
            Self::T89 => Val::Var(89, None),
            Self::T90 => Val::Var(90, None),
            Self::T91 => Val::Var(91, None),
            Self::T92 => Val::Var(92, None),
            Self::T93 => Val::Var(93, None),
            Self::T94 => Val::Var(94, None),
            Self::T95 => Val::Var(95, None),
            Self::T96 => Val::Var(96, None),
            Self::T97 => Val::Var(97, None),
            Self::T98 => Val::Var(98, None),
            Self::T99 => Val::Var(99, None),
            Self::T100 => Val::Var(100, None),
            Self::T101 => Val::Var(101, None),
            Self::T102 => Val::Var(102, None),
            Self::T103 => Val::Var(103, None),
            Self::T104 => Val::Var(104, None),
            Self::T105 => Val::Var(105, None),
            Self::T106 => Val::Var(106, None),
            Self::T107 => Val::Var(107, None),
            Self::T108 => Val::Var(108, None),
            Self::T109 => Val::Var(109, None),
            Self::T110 => Val::Var(110, None),
            Self::T111 => Val::Var(111, None),
            Self::T112 => Val::Var(112, None),
            Self::T113 => Val::Var(113, None),
            Self::T114 => Val::Var(114, None),
            Self::T115 => Val::Var(115, None),
            Self::T116 => Val::Var(116, None),
            Self::T117 => Val::Var(117, None),
            Self::T118 => Val::Var(118, None),
            Self::T119 => Val::Var(119, None),
            Self::T120 => Val::Var(120, None),
            Self::T121 => Val::Var(121, None),
            Self::T122 => Val::Var(122, None),
            Self::T123 => Val::Var(123, None),
            Self::T124 => Val::Var(124, None),
            Self::T125 => Val::Var(125, None),
            Self::T126 => Val::Var(126, None),
            Self::T127 => Val::Var(127, None),
        }
    }
}
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone, Encode, Decode)]
#[ssz(enum_behaviour = "tag")]
pub enum TDisc {
    T0 = 5,
    T1 = 1,
    T2 = 3,
}
impl Ty for TDisc {
    fn schema() -> Schema {
        Schema::Tag(3)
    }
    fn from_val(v: &Val) -> Self {
        match vi(v) {
            0 => Self::T0,
            1 => Self::T1,
            2 => Self::T2,
            _ => panic!("model"),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::T0 => Val::Var(0, None),
            Self::T1 => Val::Var(1, None),
            Self::T2 => Val::Var(2, None),
        }
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
#[ssz(enum_behaviour = "union")]
pub enum UWith {
    V0(#[ssz(with = "be16")] u16),
    V1(u16),
    V2(#[ssz(with = "leg_vec")] Option<Vec<u8>>),
    V3(#[ssz(with = "blob")] Blob),
    V4(#[ssz(with = "fix3")] Vec<u8>),
    V5(Vec<u8>),
}
impl Ty for UWith {
    fn schema() -> Schema {
        Schema::Union(vec![
            Some(Schema::Bytes(2)),
            Some(<u16 as Ty>::schema()),
            Some(Schema::Legacy(Box::new(<Vec<u8> as Ty>::schema()))),
            Some(Schema::ByteList),
            Some(Schema::Bytes(3)),
            Some(<Vec<u8> as Ty>::schema()),
        ])
    }
    fn from_val(v: &Val) -> Self {
        match vi(v) {
            0 => Self::V0({
                let b = bx(v).bytes();
                b[0] as u16 * 256 + b[1] as u16
            }),
            1 => Self::V1(<u16 as Ty>::from_val(bx(v))),
            2 => Self::V2(<Option<Vec<u8>> as Ty>::from_val(bx(v))),
            3 => Self::V3(Blob(bx(v).bytes().to_vec())),
            4 => Self::V4(bx(v).bytes().to_vec()),
            5 => Self::V5(<Vec<u8> as Ty>::from_val(bx(v))),
            _ => panic!("model"),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::V0(x) => Val::Var(
                0,
                Some(Box::new(Val::Bytes(vec![
                    (*x / 256) as u8,
                    (*x % 256) as u8,
                ]))),
            ),
            Self::V1(x) => Val::Var(1, Some(Box::new(x.to_val()))),
            Self::V2(x) => Val::Var(2, Some(Box::new(x.to_val()))),
            Self::V3(x) => Val::Var(3, Some(Box::new(Val::Bytes(x.0.clone())))),
            Self::V4(x) => Val::Var(4, Some(Box::new(Val::Bytes(x.clone())))),
            Self::V5(x) => Val::Var(5, Some(Box::new(x.to_val()))),
        }
    }
    fn mem() -> usize {
        64usize.max(<Vec<u8> as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
#[ssz(enum_behaviour = "transparent")]
pub enum EWith {
    V0(#[ssz(with = "leg_vec")] Option<Vec<u8>>),
    V1(Vec<u16>),
    V2(#[ssz(with = "blob")] Blob),
}
impl Ty for EWith {
    fn schema() -> Schema {
        Schema::Transparent(vec![
            Schema::Legacy(Box::new(<Vec<u8> as Ty>::schema())),
            <Vec<u16> as Ty>::schema(),
            Schema::ByteList,
        ])
    }
    fn from_val(v: &Val) -> Self {
        match vi(v) {
            0 => Self::V0(<Option<Vec<u8>> as Ty>::from_val(bx(v))),
            1 => Self::V1(<Vec<u16> as Ty>::from_val(bx(v))),
            2 => Self::V2(Blob(bx(v).bytes().to_vec())),
            _ => panic!("model"),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::V0(x) => Val::Var(0, Some(Box::new(x.to_val()))),
            Self::V1(x) => Val::Var(1, Some(Box::new(x.to_val()))),
            Self::V2(x) => Val::Var(2, Some(Box::new(Val::Bytes(x.0.clone())))),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<Vec<u8> as Ty>::mem())
            .max(<Vec<u16> as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
#[ssz(enum_behaviour = "transparent")]
pub enum E1 {
    V0(Vec<u8>),
}
impl Ty for E1 {
    fn schema() -> Schema {
        Schema::Transparent(vec![<Vec<u8> as Ty>::schema()])
    }
    fn from_val(v: &Val) -> Self {
        match vi(v) {
            0 => Self::V0(<Vec<u8> as Ty>::from_val(bx(v))),
            _ => panic!("model"),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::V0(x) => Val::Var(0, Some(Box::new(x.to_val()))),
        }
    }
    fn mem() -> usize {
        64usize.max(<Vec<u8> as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
#[ssz(enum_behaviour = "transparent")]
pub enum E2 {
    V0(Inner),
    V1(Vec<u8>),
}
impl Ty for E2 {
    fn schema() -> Schema {
        Schema::Transparent(vec![<Inner as Ty>::schema(), <Vec<u8> as Ty>::schema()])
    }
    fn from_val(v: &Val) -> Self {
        match vi(v) {
            0 => Self::V0(<Inner as Ty>::from_val(bx(v))),
            1 => Self::V1(<Vec<u8> as Ty>::from_val(bx(v))),
            _ => panic!("model"),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::V0(x) => Val::Var(0, Some(Box::new(x.to_val()))),
            Self::V1(x) => Val::Var(1, Some(Box::new(x.to_val()))),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<Inner as Ty>::mem())
            .max(<Vec<u8> as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
#[ssz(enum_behaviour = "transparent")]
pub enum E3 {
    V0(Vec<u16>),
    V1(Vec<Vec<u8>>),
    V2(U2),
}
impl Ty for E3 {
    fn schema() -> Schema {
        Schema::Transparent(vec![
            <Vec<u16> as Ty>::schema(),
            <Vec<Vec<u8>> as Ty>::schema(),
            <U2 as Ty>::schema(),
        ])
    }
    fn from_val(v: &Val) -> Self {
        match vi(v) {
            0 => Self::V0(<Vec<u16> as Ty>::from_val(bx(v))),
            1 => Self::V1(<Vec<Vec<u8>> as Ty>::from_val(bx(v))),
            2 => Self::V2(<U2 as Ty>::from_val(bx(v))),
            _ => panic!("model"),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::V0(x) => Val::Var(0, Some(Box::new(x.to_val()))),
            Self::V1(x) => Val::Var(1, Some(Box::new(x.to_val()))),
            Self::V2(x) => Val::Var(2, Some(Box::new(x.to_val()))),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<Vec<u16> as Ty>::mem())
            .max(<Vec<Vec<u8>> as Ty>::mem())
            .max(<U2 as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
#[ssz(enum_behaviour = "transparent")]
pub enum E4 {
    V0(U2),
    V1(Nest2),
    V2(PVF),
    V3(Vec<u8>),
}
impl Ty for E4 {
    fn schema() -> Schema {
        Schema::Transparent(vec![
            <U2 as Ty>::schema(),
            <Nest2 as Ty>::schema(),
            <PVF as Ty>::schema(),
            <Vec<u8> as Ty>::schema(),
        ])
    }
    fn from_val(v: &Val) -> Self {
        match vi(v) {
            0 => Self::V0(<U2 as Ty>::from_val(bx(v))),
            1 => Self::V1(<Nest2 as Ty>::from_val(bx(v))),
            2 => Self::V2(<PVF as Ty>::from_val(bx(v))),
            3 => Self::V3(<Vec<u8> as Ty>::from_val(bx(v))),
            _ => panic!("model"),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::V0(x) => Val::Var(0, Some(Box::new(x.to_val()))),
            Self::V1(x) => Val::Var(1, Some(Box::new(x.to_val()))),
            Self::V2(x) => Val::Var(2, Some(Box::new(x.to_val()))),
            Self::V3(x) => Val::Var(3, Some(Box::new(x.to_val()))),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<U2 as Ty>::mem())
            .max(<Nest2 as Ty>::mem())
            .max(<PVF as Ty>::mem())
            .max(<Vec<u8> as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
#[ssz(enum_behaviour = "transparent")]
pub enum EG<A: Encode + Decode, B: Encode + Decode> {
    V0(A),
    V1(B),
}
impl<A: Ty + Sync, B: Ty + Sync> Ty for EG<A, B> {
    fn schema() -> Schema {
        Schema::Transparent(vec![<A as Ty>::schema(), <B as Ty>::schema()])
    }
    fn from_val(v: &Val) -> Self {
        match vi(v) {
            0 => Self::V0(<A as Ty>::from_val(bx(v))),
            1 => Self::V1(<B as Ty>::from_val(bx(v))),
            _ => panic!("model"),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::V0(x) => Val::Var(0, Some(Box::new(x.to_val()))),
            Self::V1(x) => Val::Var(1, Some(Box::new(x.to_val()))),
        }
    }
    fn mem() -> usize {
        64usize.max(<A as Ty>::mem()).max(<B as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct Big1 {
    pub f0: T3,
    pub f1: U3,
    pub f2: E2,
    pub f3: TrV,
    pub f4: Vec<T2>,
    pub f5: Vec<U2>,
    pub f6: Option<Inner>,
}
impl Ty for Big1 {
    fn schema() -> Schema {
        Schema::Container(vec![
            <T3 as Ty>::schema(),
            <U3 as Ty>::schema(),
            <E2 as Ty>::schema(),
            <TrV as Ty>::schema(),
            <Vec<T2> as Ty>::schema(),
            <Vec<U2> as Ty>::schema(),
            <Option<Inner> as Ty>::schema(),
        ])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![
            self.f0.to_val(),
            self.f1.to_val(),
            self.f2.to_val(),
            self.f3.to_val(),
            self.f4.to_val(),
            self.f5.to_val(),
            self.f6.to_val(),
        ])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <T3 as Ty>::from_val(&v.seq()[0]),
            f1: <U3 as Ty>::from_val(&v.seq()[1]),
            f2: <E2 as Ty>::from_val(&v.seq()[2]),
            f3: <TrV as Ty>::from_val(&v.seq()[3]),
            f4: <Vec<T2> as Ty>::from_val(&v.seq()[4]),
            f5: <Vec<U2> as Ty>::from_val(&v.seq()[5]),
            f6: <Option<Inner> as Ty>::from_val(&v.seq()[6]),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<T3 as Ty>::mem())
            .max(<U3 as Ty>::mem())
            .max(<E2 as Ty>::mem())
            .max(<TrV as Ty>::mem())
            .max(<Vec<T2> as Ty>::mem())
            .max(<Vec<U2> as Ty>::mem())
            .max(<Option<Inner> as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
pub struct Big2 {
    pub f0: G2<u8, Vec<u8>>,
    pub f1: BTreeMap<u8, Inner>,
    pub f2: Big1,
}
impl Ty for Big2 {
    fn schema() -> Schema {
        Schema::Container(vec![
            <G2<u8, Vec<u8>> as Ty>::schema(),
            <BTreeMap<u8, Inner> as Ty>::schema(),
            <Big1 as Ty>::schema(),
        ])
    }
    fn to_val(&self) -> Val {
        Val::Seq(vec![self.f0.to_val(), self.f1.to_val(), self.f2.to_val()])
    }
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {
        Self {
            f0: <G2<u8, Vec<u8>> as Ty>::from_val(&v.seq()[0]),
            f1: <BTreeMap<u8, Inner> as Ty>::from_val(&v.seq()[1]),
            f2: <Big1 as Ty>::from_val(&v.seq()[2]),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<G2<u8, Vec<u8>> as Ty>::mem())
            .max(<BTreeMap<u8, Inner> as Ty>::mem())
            .max(<Big1 as Ty>::mem())
    }
}
#[derive(Debug, PartialEq, Clone, Encode, Decode)]
#[ssz(enum_behaviour = "union")]
pub enum Big3 {
    V0(Big1),
    V1(G2<u8, u16>),
    V2(Option<Vec<u8>>),
}
impl Ty for Big3 {
    fn schema() -> Schema {
        Schema::Union(vec![
            Some(<Big1 as Ty>::schema()),
            Some(<G2<u8, u16> as Ty>::schema()),
            Some(<Option<Vec<u8>> as Ty>::schema()),
        ])
    }
    fn from_val(v: &Val) -> Self {
        match vi(v) {
            0 => Self::V0(<Big1 as Ty>::from_val(bx(v))),
            1 => Self::V1(<G2<u8, u16> as Ty>::from_val(bx(v))),
            2 => Self::V2(<Option<Vec<u8>> as Ty>::from_val(bx(v))),
            _ => panic!("model"),
        }
    }
    fn to_val(&self) -> Val {
        match self {
            Self::V0(x) => Val::Var(0, Some(Box::new(x.to_val()))),
            Self::V1(x) => Val::Var(1, Some(Box::new(x.to_val()))),
            Self::V2(x) => Val::Var(2, Some(Box::new(x.to_val()))),
        }
    }
    fn mem() -> usize {
        64usize
            .max(<Big1 as Ty>::mem())
            .max(<G2<u8, u16> as Ty>::mem())
            .max(<Option<Vec<u8>> as Ty>::mem())
    }
}
pub fn registry() -> Vec<Codec> {
    let mut v = vec![];
    reg!(v;
        Empty0,
        C1F,
        C1V,
        C1Z,
        PFF,
        PFV,
        PVF,
        PVV,
        PFFF,
        PFFV,
        PFVF,
        PFVV,
        PVFF,
        PVFV,
        PVVF,
        PVVV,
        PFFFV,
        PFFVF,
        PFFVV,
        PFVFF,
        PFVFV,
        PFVVF,
        PFVVV,
        PVFFF,
        PVFFV,
        PVFVF,
        PVFVV,
        PVVFF,
        PVVFV,
        PVVVF,
        C6,
        C8F,
        C10,
        C10V,
        C17V,
        Inner,
        InnerF,
        Nest1,
        Nest2,
        Nest3,
        Nest4,
        CMap,
        CArc,
        CSmall,
        CZero,
        SkipFirst,
        SkipMid,
        SkipLast,
        SkipVarFirst,
        SkipVarMid,
        SkipVarLast,
        SkipMany,
        SkipAll,
        SkipAllButFixed,
        SkipNest,
        WithFixed,
        WithFixedVar,
        WithFixedOfVar,
        WithFixedOfVar2,
        WithVar,
        WithVar2,
        WithLeg,
        WithLeg2,
        WithLeg3,
        WithSkip,
        WithNest,
        TrF,
        TrV,
        TrT,
        TrTV,
        TrSkip1,
        TrSkip2,
        TrTSkip,
        TrTSkipF,
        TrInner,
        TrTr,
        TrWith,
        TrWithT,
        TrWithV,
        UseTr,
        Cont2,
        G1<u8>,
        G1<Vec<u8>>,
        G1<Inner>,
        G1<[u8; 0]>,
        G2<u8, u16>,
        G2<u8, Vec<u8>>,
        G2<Vec<u8>, u8>,
        G2<Vec<u16>, Vec<Inner>>,
        G2<G1<u8>, G1<Vec<u8>>>,
        G2<Option<u8>, bool>,
        G3<u8, u16, u32>,
        G3<Vec<u8>, Vec<u8>, Vec<u8>>,
        G3<u8, Inner, Vec<u16>>,
        G3<bool, bool, U256>,
        G4<u8, Vec<u8>, u16, Vec<u16>>,
        G4<Vec<u8>, u8, u8, Vec<Vec<u8>>>,
        GT<u8>,
        GT<Vec<u8>>,
        GSkip<u8, Vec<u8>>,
        GSkip<u8, u16>,
        GSkip<Vec<u16>, bool>,
        U1V,
        U2,
        U3,
        U5,
        UEmptyish,
        U127,
        U128,
        UG<u8, Vec<u8>>,
        UG<Inner, bool>,
        UTr,
        UWith,
        Vec<UWith>,
        T1,
        T2,
        T3,
        T127,
        T128,
        TDisc,
        E1,
        E2,
        E3,
        E4,
        EWith,
        EG<Vec<u16>, Vec<u8>>,
        EG<Option<u8>, Inner>,
        FixBig,
        FixBig2,
        FixHead,
        Vec<FixBig>,
        Option<FixBig2>,
        Big1,
        Big2,
        Big3,
        Vec<InnerF>,
        Vec<Inner>,
        Vec<U2>,
        Vec<T3>,
        Vec<E1>,
        Vec<TrV>,
        Vec<TrF>,
        Vec<Empty0>,
        Vec<C1Z>,
        Option<T2>,
        Option<Empty0>,
        (T3, Inner),
        BTreeMap<T3, Inner>,
        BTreeSet<T3>,
        SmallVec<[Inner; 2]>,
        SmallVec<[PFV; 4]>,
        Arc<Inner>,
        Arc<U3>,
        Vec<Arc<Inner>>,
        Vec<G2<u8, u16>>,
        Vec<PFF>,
        Vec<SkipMid>,
        Vec<SkipVarMid>,
        Vec<WithLeg>,
        Vec<WithFixed>,
        Option<WithFixedOfVar>,
        (SkipFirst, u8),
    );
    v
}

//! Definitions of every shape the derive macros accept, with generic fields. Written by tools/gen_derive.py; what the macros
//! make of them is expanded and verified on every run.
use ssz::{Decode, Encode};
use ssz_derive::{Decode, Encode};

// stand-ins: the contracts assume nothing about them
pub struct F1;
pub struct F2;
pub struct P;
impl Encode for P {
    fn is_ssz_fixed_len() -> bool { unimplemented!() }
    fn ssz_append(&self, _: &mut Vec<u8>) { unimplemented!() }
    fn ssz_bytes_len(&self) -> usize { unimplemented!() }
}
impl Decode for P {
    fn is_ssz_fixed_len() -> bool { unimplemented!() }
    fn from_ssz_bytes(_: &[u8]) -> Result<Self, ssz::DecodeError> { unimplemented!() }
}
pub mod k1 {
    pub mod encode {
        pub fn is_ssz_fixed_len() -> bool { unimplemented!() }
        pub fn ssz_fixed_len() -> usize { unimplemented!() }
        pub fn ssz_bytes_len(_: &crate::F1) -> usize { unimplemented!() }
        pub fn ssz_append(_: &crate::F1, _: &mut Vec<u8>) { unimplemented!() }
    }
    pub mod decode {
        pub fn is_ssz_fixed_len() -> bool { unimplemented!() }
        pub fn ssz_fixed_len() -> usize { unimplemented!() }
        pub fn from_ssz_bytes(_: &[u8]) -> Result<crate::F1, ssz::DecodeError> { unimplemented!() }
    }
}
pub mod k2 {
    pub mod encode {
        pub fn is_ssz_fixed_len() -> bool { unimplemented!() }
        pub fn ssz_fixed_len() -> usize { unimplemented!() }
        pub fn ssz_bytes_len(_: &crate::F2) -> usize { unimplemented!() }
        pub fn ssz_append(_: &crate::F2, _: &mut Vec<u8>) { unimplemented!() }
    }
    pub mod decode {
        pub fn is_ssz_fixed_len() -> bool { unimplemented!() }
        pub fn ssz_fixed_len() -> usize { unimplemented!() }
        pub fn from_ssz_bytes(_: &[u8]) -> Result<crate::F2, ssz::DecodeError> { unimplemented!() }
    }
}
ssz::four_byte_option_impl!(opt_p, P);

#[derive(Encode, Decode)]
pub struct DvC0 {  }
#[derive(Encode, Decode)]
pub struct DvC1<A: Encode + Decode> { pub a: A }
#[derive(Encode, Decode)]
pub struct DvC2<A: Encode + Decode, B: Encode + Decode> { pub a: A, pub b: B }
#[derive(Encode, Decode)]
pub struct DvC3<A: Encode + Decode, B: Encode + Decode, C: Encode + Decode> { pub a: A, pub b: B, pub c: C }
#[derive(Encode, Decode)]
pub struct DvC4<A: Encode + Decode, B: Encode + Decode, C: Encode + Decode, D: Encode + Decode> { pub a: A, pub b: B, pub c: C, pub d: D }
#[derive(Encode, Decode)]
pub struct DvC5<A: Encode + Decode, B: Encode + Decode, C: Encode + Decode, D: Encode + Decode, E: Encode + Decode> { pub a: A, pub b: B, pub c: C, pub d: D, pub e: E }
#[derive(Encode, Decode)]
pub struct DvC6<A: Encode + Decode, B: Encode + Decode, C: Encode + Decode, D: Encode + Decode, E: Encode + Decode, F: Encode + Decode> { pub a: A, pub b: B, pub c: C, pub d: D, pub e: E, pub f: F }
#[derive(Encode, Decode)]
pub struct DvC8<A: Encode + Decode, B: Encode + Decode, C: Encode + Decode, D: Encode + Decode, E: Encode + Decode, F: Encode + Decode, G: Encode + Decode, H: Encode + Decode> { pub a: A, pub b: B, pub c: C, pub d: D, pub e: E, pub f: F, pub g: G, pub h: H }
#[derive(Encode, Decode)]
pub struct DvN3<A: Encode + Decode, B: Encode + Decode, C: Encode + Decode> { pub offset: A, pub len: B, pub slice: C }
#[derive(Encode, Decode)]
pub struct DvQ2<A, B> where A: Encode + Decode, B: Encode + Decode { pub a: A, pub b: B }
#[derive(Encode, Decode)]
pub struct DvR3<A: Encode + Decode, B: Encode + Decode> { pub a: A, pub b: A, pub c: B }
#[derive(Encode, Decode)]
pub struct DvS1<A: Default> { #[ssz(skip_serializing, skip_deserializing)] pub a: A }
#[derive(Encode, Decode)]
pub struct DvS2A<A: Default, B: Encode + Decode> { #[ssz(skip_serializing, skip_deserializing)] pub a: A, pub b: B }
#[derive(Encode, Decode)]
pub struct DvS2B<A: Encode + Decode, B: Default> { pub a: A, #[ssz(skip_serializing, skip_deserializing)] pub b: B }
#[derive(Encode, Decode)]
pub struct DvS3<A: Encode + Decode, B: Default, C: Encode + Decode> { pub a: A, #[ssz(skip_serializing, skip_deserializing)] pub b: B, pub c: C }
#[derive(Encode, Decode)]
pub struct DvS4<A: Default, B: Encode + Decode, C: Default, D: Encode + Decode> { #[ssz(skip_serializing, skip_deserializing)] pub a: A, pub b: B, #[ssz(skip_serializing, skip_deserializing)] pub c: C, pub d: D }
#[derive(Encode, Decode)]
pub struct DvK1W { #[ssz(with = "k1")] pub a: F1 }
#[derive(Encode, Decode)]
pub struct DvK2A<B: Encode + Decode> { #[ssz(with = "k1")] pub a: F1, pub b: B }
#[derive(Encode, Decode)]
pub struct DvK2B<A: Encode + Decode> { pub a: A, #[ssz(with = "k1")] pub b: F1 }
#[derive(Encode, Decode)]
pub struct DvK3<C: Encode + Decode> { #[ssz(with = "k1")] pub a: F1, #[ssz(with = "k2")] pub b: F2, pub c: C }
#[derive(Encode, Decode)]
pub struct DvK5<A: Encode + Decode, C: Default, D: Encode + Decode> { pub a: A, #[ssz(with = "k1")] pub b: F1, #[ssz(skip_serializing, skip_deserializing)] pub c: C, pub d: D, #[ssz(with = "k2")] pub e: F2 }
#[derive(Encode, Decode)]
pub struct DvO2<B: Encode + Decode> { #[ssz(with = "opt_p")] pub a: Option<P>, pub b: B }
#[derive(Encode, Decode)]
pub struct DvO3<A: Encode + Decode, C: Encode + Decode> { pub a: A, #[ssz(with = "opt_p")] pub b: Option<P>, pub c: C }
#[derive(Encode)]
pub struct DvXE3<A, B: Encode, C: Encode> { #[ssz(skip_serializing)] pub a: A, pub b: B, #[ssz(skip_deserializing)] pub c: C }
#[derive(Decode)]
pub struct DvXD3<A: Decode, B: Decode, C: Default> { #[ssz(skip_serializing)] pub a: A, pub b: B, #[ssz(skip_deserializing)] pub c: C }
#[derive(Encode)]
pub struct DvXE4<A: Encode, B, C, D: Encode> { pub a: A, #[ssz(skip_serializing)] pub b: B, #[ssz(skip_serializing, skip_deserializing)] pub c: C, #[ssz(skip_deserializing)] pub d: D }
#[derive(Decode)]
pub struct DvXD4<A: Default, B: Default, C: Decode, D: Decode> { #[ssz(skip_deserializing)] pub a: A, #[ssz(skip_serializing, skip_deserializing)] pub b: B, #[ssz(skip_serializing)] pub c: C, pub d: D }
#[derive(Encode)]
#[ssz(struct_behaviour = "transparent")]
pub struct DvTXE2<A, B: Encode> { #[ssz(skip_serializing)] pub a: A, pub b: B }
#[derive(Decode)]
#[ssz(struct_behaviour = "transparent")]
pub struct DvTXD2<A: Default, B: Decode> { #[ssz(skip_deserializing)] pub a: A, pub b: B }
#[derive(Encode)]
#[ssz(struct_behaviour = "transparent")]
pub struct DvTXE3<A, B: Encode, C>(#[ssz(skip_serializing)] pub A, #[ssz(skip_deserializing)] pub B, #[ssz(skip_serializing, skip_deserializing)] pub C);
#[derive(Decode)]
#[ssz(struct_behaviour = "transparent")]
pub struct DvTXD3<A: Default, B: Decode, C: Default>(#[ssz(skip_serializing, skip_deserializing)] pub A, #[ssz(skip_serializing)] pub B, #[ssz(skip_deserializing)] pub C);
#[derive(Encode, Decode)]
pub struct DvY4<A: Encode + Decode, B: Default, D: Encode + Decode> { pub a: A, #[ssz(skip_serializing, skip_deserializing, with = "k2")] pub b: B, #[ssz(with = "k1")] pub c: F1, pub d: D }
#[derive(Encode)]
pub struct DvYE4<B, C: Encode> { #[ssz(with = "k1")] pub a: F1, #[ssz(skip_serializing, with = "k1")] pub b: B, pub c: C, #[ssz(skip_deserializing, with = "k1")] pub d: F1 }
#[derive(Decode)]
pub struct DvYD4<B: Default, C: Decode> { #[ssz(with = "k1")] pub a: F1, #[ssz(skip_deserializing, with = "k1")] pub b: B, pub c: C, #[ssz(skip_serializing, with = "k1")] pub d: F1 }
#[derive(Encode)]
pub struct DvYE3<A, C: Encode> { #[ssz(skip_serializing, with = "k1")] pub a: A, #[ssz(skip_deserializing, with = "k1")] pub b: F1, #[ssz(skip_deserializing)] pub c: C }
#[derive(Decode)]
pub struct DvYD3<A: Default, C: Decode> { #[ssz(skip_deserializing, with = "k1")] pub a: A, #[ssz(skip_serializing, with = "k1")] pub b: F1, #[ssz(skip_serializing)] pub c: C }
#[derive(Encode)]
#[ssz(struct_behaviour = "transparent")]
pub struct DvTYE3<A, C> { #[ssz(skip_serializing, with = "k1")] pub a: A, #[ssz(skip_deserializing, with = "k1")] pub b: F1, #[ssz(skip_serializing, skip_deserializing, with = "k2")] pub c: C }
#[derive(Decode)]
#[ssz(struct_behaviour = "transparent")]
pub struct DvTYD3<A: Default, C: Default> { #[ssz(skip_deserializing, with = "k1")] pub a: A, #[ssz(skip_serializing, with = "k1")] pub b: F1, #[ssz(skip_serializing, skip_deserializing, with = "k2")] pub c: C }
#[derive(Encode, Decode)]
#[ssz(struct_behaviour = "transparent")]
pub struct DvTY3<A: Default, B: Default>(#[ssz(skip_serializing, skip_deserializing, with = "k2")] pub A, #[ssz(skip_serializing, skip_deserializing)] pub B, #[ssz(with = "k2")] pub F2);
#[derive(Encode, Decode)]
#[ssz(struct_behaviour = "transparent")]
pub struct DvTY2<A: Default, B: Encode + Decode> { #[ssz(skip_serializing, skip_deserializing, with = "k2")] pub a: A, pub b: B }
#[derive(Encode, Decode)]
#[ssz(struct_behaviour = "transparent")]
pub struct DvT1<A: Encode + Decode> { pub a: A }
#[derive(Encode, Decode)]
#[ssz(struct_behaviour = "transparent")]
pub struct DvT1U<A: Encode + Decode>(pub A);
#[derive(Encode, Decode)]
#[ssz(struct_behaviour = "transparent")]
pub struct DvT1Q<A> where A: Encode + Decode { pub a: A }
#[derive(Encode, Decode)]
#[ssz(struct_behaviour = "transparent")]
pub struct DvT2A<A: Default, B: Encode + Decode> { #[ssz(skip_serializing, skip_deserializing)] pub a: A, pub b: B }
#[derive(Encode, Decode)]
#[ssz(struct_behaviour = "transparent")]
pub struct DvT2B<A: Encode + Decode, B: Default>(pub A, #[ssz(skip_serializing, skip_deserializing)] pub B);
#[derive(Encode, Decode)]
#[ssz(struct_behaviour = "transparent")]
pub struct DvT3<A: Default, B: Encode + Decode, C: Default>(#[ssz(skip_serializing, skip_deserializing)] pub A, pub B, #[ssz(skip_serializing, skip_deserializing)] pub C);
#[derive(Encode, Decode)]
#[ssz(struct_behaviour = "transparent")]
pub struct DvT3N<A: Default, B: Encode + Decode, C: Default> { #[ssz(skip_serializing, skip_deserializing)] pub a: A, pub b: B, #[ssz(skip_serializing, skip_deserializing)] pub c: C }
#[derive(Encode, Decode)]
#[ssz(struct_behaviour = "transparent")]
pub struct DvTW1(#[ssz(with = "k1")] pub F1);
#[derive(Encode, Decode)]
#[ssz(struct_behaviour = "transparent")]
pub struct DvTW2<B: Default> { #[ssz(with = "k1")] pub a: F1, #[ssz(skip_serializing, skip_deserializing)] pub b: B }
#[derive(Encode, Decode)]
#[ssz(struct_behaviour = "transparent")]
pub struct DvTW2U<A: Default>(#[ssz(skip_serializing, skip_deserializing)] pub A, #[ssz(with = "k1")] pub F1);
#[derive(Encode, Decode)]
#[ssz(enum_behaviour = "union")]
pub enum DvU1<A: Encode + Decode> { Q0(A) }
#[derive(Encode, Decode)]
#[ssz(enum_behaviour = "union")]
pub enum DvU2<A: Encode + Decode, B: Encode + Decode> { Q0(A), M1(B) }
#[derive(Encode, Decode)]
#[ssz(enum_behaviour = "union")]
pub enum DvU3<A: Encode + Decode, B: Encode + Decode, C: Encode + Decode> { Q0(A), M1(B), X2(C) }
#[derive(Encode, Decode)]
#[ssz(enum_behaviour = "union")]
pub enum DvU4<A: Encode + Decode, B: Encode + Decode, C: Encode + Decode> { Q0(A), M1(B), X2(A), A3(C) }
#[derive(Encode, Decode)]
#[ssz(enum_behaviour = "union")]
pub enum DvUK1 { Q0(#[ssz(with = "k1")] F1) }
#[derive(Encode, Decode)]
#[ssz(enum_behaviour = "union")]
pub enum DvUK3<A: Encode + Decode> { Q0(#[ssz(with = "k1")] F1), M1(A), X2(#[ssz(with = "k2")] F2) }
#[derive(Encode, Decode)]
#[ssz(enum_behaviour = "union")]
pub enum DvUK4<A: Encode + Decode, B: Encode + Decode> { Q0(A), M1(#[ssz(with = "k1")] F1), X2(B), A3(#[ssz(with = "k1")] F1) }
#[derive(Encode, Decode)]
#[ssz(enum_behaviour = "union")]
pub enum DvU128<A: Encode + Decode, B: Encode + Decode> { Q0(A), M1(B), X2(A), A3(B), T4(A), E5(B), Z6(A), B7(B), Q8(A), M9(B), X10(A), A11(B), T12(A), E13(B), Z14(A), B15(B), Q16(A), M17(B), X18(A), A19(B), T20(A), E21(B), Z22(A), B23(B), Q24(A), M25(B), X26(A), A27(B), T28(A), E29(B), Z30(A), B31(B), Q32(A), M33(B), X34(A), A35(B), T36(A), E37(B), Z38(A), B39(B), Q40(A), M41(B), X42(A), A43(B), T44(A), E45(B), Z46(A), B47(B), Q48(A), M49(B), X50(A), A51(B), T52(A), E53(B), Z54(A), B55(B), Q56(A), M57(B), X58(A), A59(B), T60(A), E61(B), Z62(A), B63(B), Q64(A), M65(B), X66(A), A67(B), T68(A), E69(B), Z70(A), B71(B), Q72(A), M73(B), X74(A), A75(B), T76(A), E77(B), Z78(A), B79(B), Q80(A), M81(B), X82(A), A83(B), T84(A), E85(B), Z86(A), B87(B), Q88(A), M89(B), X90(A), A91(B), T92(A), E93(B), Z94(A), B95(B), Q96(A), M97(B), X98(A), A99(B), T100(A), E101(B), Z102(A), B103(B), Q104(A), M105(B), X106(A), A107(B), T108(A), E109(B), Z110(A), B111(B), Q112(A), M113(B), X114(A), A115(B), T116(A), E117(B), Z118(A), B119(B), Q120(A), M121(B), X122(A), A123(B), T124(A), E125(B), Z126(A), B127(B) }
#[derive(Encode, Decode)]
#[ssz(enum_behaviour = "transparent")]
pub enum DvE1<A: Encode + Decode> { Q0(A) }
#[derive(Encode, Decode)]
#[ssz(enum_behaviour = "transparent")]
pub enum DvE2<A: Encode + Decode, B: Encode + Decode> { Q0(A), M1(B) }
#[derive(Encode, Decode)]
#[ssz(enum_behaviour = "transparent")]
pub enum DvE3<A: Encode + Decode, B: Encode + Decode, C: Encode + Decode> { Q0(A), M1(B), X2(C) }
#[derive(Encode, Decode)]
#[ssz(enum_behaviour = "transparent")]
pub enum DvE4<B: Encode + Decode, A: Encode + Decode, C: Encode + Decode> { Q0(B), M1(A), X2(C), A3(A) }
#[derive(Encode, Decode)]
#[ssz(enum_behaviour = "transparent")]
pub enum DvEK1 { Q0(#[ssz(with = "k1")] F1) }
#[derive(Encode, Decode)]
#[ssz(enum_behaviour = "transparent")]
pub enum DvEK2<A: Encode + Decode> { Q0(A), M1(#[ssz(with = "k1")] F1) }
#[derive(Encode, Decode)]
#[ssz(enum_behaviour = "transparent")]
pub enum DvEK3<A: Encode + Decode> { Q0(#[ssz(with = "k2")] F2), M1(A), X2(#[ssz(with = "k1")] F1) }
#[derive(Encode, Decode)]
#[ssz(enum_behaviour = "tag")]
pub enum DvG1 { Q0 }
#[derive(Encode, Decode)]
#[ssz(enum_behaviour = "tag")]
pub enum DvG2 { Q0, M1 }
#[derive(Encode, Decode)]
#[ssz(enum_behaviour = "tag")]
pub enum DvG3 { Q0, M1, X2 }
#[derive(Encode, Decode)]
#[ssz(enum_behaviour = "tag")]
pub enum DvG128 { Q0, M1, X2, A3, T4, E5, Z6, B7, Q8, M9, X10, A11, T12, E13, Z14, B15, Q16, M17, X18, A19, T20, E21, Z22, B23, Q24, M25, X26, A27, T28, E29, Z30, B31, Q32, M33, X34, A35, T36, E37, Z38, B39, Q40, M41, X42, A43, T44, E45, Z46, B47, Q48, M49, X50, A51, T52, E53, Z54, B55, Q56, M57, X58, A59, T60, E61, Z62, B63, Q64, M65, X66, A67, T68, E69, Z70, B71, Q72, M73, X74, A75, T76, E77, Z78, B79, Q80, M81, X82, A83, T84, E85, Z86, B87, Q88, M89, X90, A91, T92, E93, Z94, B95, Q96, M97, X98, A99, T100, E101, Z102, B103, Q104, M105, X106, A107, T108, E109, Z110, B111, Q112, M113, X114, A115, T116, E117, Z118, B119, Q120, M121, X122, A123, T124, E125, Z126, B127 }

# what the derive macros generate: written by tools/gen_derive.py

@@ raw
broadcast use { lemma_empty_parts, axiom_mem_limit, lemma_lay_push, lemma_split_prefix, lemma_prefix_push, lemma_le4, lemma_sel, lemma_sel_append };

@@ module tuple0
@@ raw
pub open spec fn lay0() -> Seq<Slot> { Seq::empty() }
pub open spec fn parts0(v: ()) -> Seq<Part> { Seq::empty() }
pub open spec fn sum0() -> nat { 0 }
impl Ssz for () {
    type V = ();
    open spec fn v(&self) -> () { () }
    open spec fn wf(&self) -> bool { true }
    open spec fn valid(v: ()) -> bool { true }
    open spec fn ok() -> bool { true }
    open spec fn fixed() -> bool { true }
    open spec fn flen() -> nat { 0 }
    open spec fn enc(v: ()) -> Seq<u8> { Seq::empty() }
    open spec fn dec(b: Seq<u8>) -> Option<()> { if b.len() == 0 { Some(()) } else { None } }
    open spec fn rt() -> bool { true }
    open spec fn strict() -> bool { true }
    proof fn law_wf(&self) { }
    proof fn law_len(v: ()) { }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) { }
    proof fn law_rt(v: ()) { }
    proof fn law_strict(b: Seq<u8>) { assert(b =~= Seq::<u8>::empty()); }
}
pub proof fn lemma_sum0(v: ())
    ensures fl(parts0(v)) == 0, pack(parts0(v)) =~= Seq::<u8>::empty()
{
    lemma_total(parts0(v));
    lemma_total_empty();
}
pub proof fn lemma_takes0(v: ()) { }

@@ module tuple1
@@ raw
pub open spec fn lay1<A: Ssz>() -> Seq<Slot> { Seq::<Slot>::empty().push(slot::<A>()) }

pub open spec fn parts1<A: Ssz>(v: (A::V,)) -> Seq<Part> { Seq::<Part>::empty().push(part::<A>(v.0)) }

pub open spec fn sum1<A: Ssz>() -> nat { A::flen() }

impl<A: Ssz> Ssz for (A,) {
    type V = (A::V,);
    open spec fn v(&self) -> (A::V,) { (self.0.v(),) }
    open spec fn wf(&self) -> bool { self.0.wf() }
    open spec fn valid(v: (A::V,)) -> bool { A::valid(v.0) }
    open spec fn ok() -> bool { A::ok() && sum1::<A>() <= usize::MAX }
    open spec fn fixed() -> bool { A::fixed() }
    open spec fn flen() -> nat { if Self::fixed() { sum1::<A>() } else { 4 } }
    open spec fn enc(v: (A::V,)) -> Seq<u8> { pack(parts1::<A>(v)) }
    open spec fn dec(b: Seq<u8>) -> Option<(A::V,)> {
        let l = lay1::<A>();
        if split_ok(b, l) && A::dec(piece(b, l, 0)) is Some {
            Some((A::dec(piece(b, l, 0)).unwrap(),))
        } else {
            None
        }
    }
    open spec fn rt() -> bool { A::rt() }
    open spec fn strict() -> bool { A::strict() }
    proof fn law_wf(&self) { self.0.law_wf(); }
    proof fn law_len(v: (A::V,)) {
        let l = lay1::<A>();
        let ps = parts1::<A>(v);
        lemma_sum1::<A>(v);
        if Self::fixed() { lemma_tl_fixed(ps); lemma_hd_len(ps, fl(ps) as int); }
    }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) {
        let l = lay1::<A>();
        A::law_dec(piece(b, l, 0));
        A::law_flen();
        if Self::fixed() { lemma_next_fixed(b, l, 0); }
    }
    proof fn law_rt(v: (A::V,)) {
        let l = lay1::<A>();
        let ps = parts1::<A>(v);
        lemma_sum1::<A>(v);
        lemma_split_of_pack(ps, l);
        lemma_part_len(ps, 0); A::law_rt(v.0); assert(piece(pack(ps), l, 0) == ps[0].1);
    }
    proof fn law_strict(b: Seq<u8>) {
        let l = lay1::<A>();
        A::law_strict(piece(b, l, 0)); A::law_flen();
        assert(parts1::<A>(Self::dec(b).unwrap()) =~= pieces_of(b, l));
        lemma_pack_of_split(b, l);
    }
}

pub proof fn lemma_sum1<A: Ssz>(v: (A::V,))
    requires A::ok(), A::valid(v.0)
    ensures
        fits(parts1::<A>(v), lay1::<A>()),
        fl(parts1::<A>(v)) == sum1::<A>(),
        A::enc(v.0).len() <= plen(part::<A>(v.0)),
        A::fixed() ==> plen(part::<A>(v.0)) == A::flen(),
        !A::fixed() ==> plen(part::<A>(v.0)) == 4 + A::enc(v.0).len(),
        fl(parts1::<A>(v)) <= pack(parts1::<A>(v)).len(),
        pack(parts1::<A>(v)).len() == plen(part::<A>(v.0)),
{
    broadcast use lemma_total_push, lemma_pfl_push;
    let ps = parts1::<A>(v);
    lemma_part::<A>(v.0); A::law_flen();
    lemma_total(ps);
    lemma_total_empty();
    let p = Seq::<Part>::empty();
    let l = Seq::<Slot>::empty();
    assert(fits(p, l));
    lemma_fits_push(p, l, part::<A>(v.0), slot::<A>()); let p = p.push(part::<A>(v.0)); let l = l.push(slot::<A>());
}

@@ raw
pub proof fn lemma_takes1<A: Ssz>(v: (A::V,))
    ensures parts1::<A>(v).take(0) == Seq::<Part>::empty()
{
    assert(parts1::<A>(v).take(0) =~= Seq::<Part>::empty());
}

@@ module d_codecs
@@ raw

/// a codec module the definitions refer to: any that satisfies the contracts of an implementation
pub mod k1 {
    pub mod encode {
        use super::super::*;
        #[verifier::external_body]
        pub fn is_ssz_fixed_len() -> (r: bool) requires KS::<1>::ok() ensures r == KS::<1>::fixed() { unimplemented!() }
        #[verifier::external_body]
        pub fn ssz_fixed_len() -> (r: usize) requires KS::<1>::ok() ensures r == KS::<1>::flen() { unimplemented!() }
        #[verifier::external_body]
        pub fn ssz_bytes_len(x: &F1) -> (r: usize)
            requires KS::<1>::ok(), (KS::<1> { x: *x }).wf(), small(KS::<1>::enc((KS::<1> { x: *x }).v()).len())
            ensures r == KS::<1>::enc((KS::<1> { x: *x }).v()).len()
        { unimplemented!() }
        #[verifier::external_body]
        pub fn ssz_append(x: &F1, buf: &mut Vec<u8>)
            requires KS::<1>::ok(), (KS::<1> { x: *x }).wf(), small(KS::<1>::enc((KS::<1> { x: *x }).v()).len())
            ensures final(buf)@ == old(buf)@ + KS::<1>::enc((KS::<1> { x: *x }).v())
        { unimplemented!() }
    }
    pub mod decode {
        use super::super::*;
        #[verifier::external_body]
        pub fn is_ssz_fixed_len() -> (r: bool) requires KS::<1>::ok() ensures r == KS::<1>::fixed() { unimplemented!() }
        #[verifier::external_body]
        pub fn ssz_fixed_len() -> (r: usize) requires KS::<1>::ok() ensures r == KS::<1>::flen() { unimplemented!() }
        #[verifier::external_body]
        pub fn from_ssz_bytes(b: &[u8]) -> (r: Result<F1, DecodeError>)
            requires KS::<1>::ok(), b@.len() <= mem_limit()
            ensures r is Ok ==> KS::<1>::dec(b@) == Some((KS::<1> { x: r->Ok_0 }).v()) && (KS::<1> { x: r->Ok_0 }).wf(), r is Err ==> KS::<1>::dec(b@) is None
        { unimplemented!() }
    }
}

/// a codec module the definitions refer to: any that satisfies the contracts of an implementation
pub mod k2 {
    pub mod encode {
        use super::super::*;
        #[verifier::external_body]
        pub fn is_ssz_fixed_len() -> (r: bool) requires KS::<2>::ok() ensures r == KS::<2>::fixed() { unimplemented!() }
        #[verifier::external_body]
        pub fn ssz_fixed_len() -> (r: usize) requires KS::<2>::ok() ensures r == KS::<2>::flen() { unimplemented!() }
        #[verifier::external_body]
        pub fn ssz_bytes_len(x: &F2) -> (r: usize)
            requires KS::<2>::ok(), (KS::<2> { x: *x }).wf(), small(KS::<2>::enc((KS::<2> { x: *x }).v()).len())
            ensures r == KS::<2>::enc((KS::<2> { x: *x }).v()).len()
        { unimplemented!() }
        #[verifier::external_body]
        pub fn ssz_append(x: &F2, buf: &mut Vec<u8>)
            requires KS::<2>::ok(), (KS::<2> { x: *x }).wf(), small(KS::<2>::enc((KS::<2> { x: *x }).v()).len())
            ensures final(buf)@ == old(buf)@ + KS::<2>::enc((KS::<2> { x: *x }).v())
        { unimplemented!() }
    }
    pub mod decode {
        use super::super::*;
        #[verifier::external_body]
        pub fn is_ssz_fixed_len() -> (r: bool) requires KS::<2>::ok() ensures r == KS::<2>::fixed() { unimplemented!() }
        #[verifier::external_body]
        pub fn ssz_fixed_len() -> (r: usize) requires KS::<2>::ok() ensures r == KS::<2>::flen() { unimplemented!() }
        #[verifier::external_body]
        pub fn from_ssz_bytes(b: &[u8]) -> (r: Result<F2, DecodeError>)
            requires KS::<2>::ok(), b@.len() <= mem_limit()
            ensures r is Ok ==> KS::<2>::dec(b@) == Some((KS::<2> { x: r->Ok_0 }).v()) && (KS::<2> { x: r->Ok_0 }).wf(), r is Err ==> KS::<2>::dec(b@) is None
        { unimplemented!() }
    }
}

@@ module d_legacy opt_p::encode opt_p::decode
@@ raw

/// the type the legacy codec is instantiated with: any that satisfies the contracts
pub type P = KS<9>;

impl Encode for KS<9> {
    #[verifier::external_body]
    fn is_ssz_fixed_len() -> bool { unimplemented!() }
    #[verifier::external_body]
    fn ssz_fixed_len() -> usize { unimplemented!() }
    #[verifier::external_body]
    fn ssz_append(&self, buf: &mut Vec<u8>) { unimplemented!() }
    #[verifier::external_body]
    fn ssz_bytes_len(&self) -> usize { unimplemented!() }
    #[verifier::external_body]
    fn as_ssz_bytes(&self) -> Vec<u8> { unimplemented!() }
}

impl Decode for KS<9> {
    #[verifier::external_body]
    fn is_ssz_fixed_len() -> bool { unimplemented!() }
    #[verifier::external_body]
    fn ssz_fixed_len() -> usize { unimplemented!() }
    #[verifier::external_body]
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError> { unimplemented!() }
}

/// the schema of the legacy codec: a four-byte selector, then the value
pub struct OptP { pub x: Option<P> }

pub open spec fn legacy_v(x: Option<P>) -> Option<KV> { match x { None => None, Some(p) => Some(p.v()) } }

impl Ssz for OptP {
    type V = Option<KV>;
    open spec fn v(&self) -> Option<KV> { legacy_v(self.x) }
    open spec fn wf(&self) -> bool { match self.x { None => true, Some(p) => p.wf() } }
    open spec fn valid(v: Option<KV>) -> bool { match v { None => true, Some(x) => P::valid(x) } }
    open spec fn ok() -> bool { P::ok() }
    open spec fn fixed() -> bool { false }
    open spec fn flen() -> nat { 4 }
    open spec fn enc(v: Option<KV>) -> Seq<u8> { match v { None => le4(0), Some(x) => le4(1) + P::enc(x) } }
    open spec fn dec(b: Seq<u8>) -> Option<Option<KV>> {
        if b.len() < 4 { None }
        else if off_at(b, 0) == 0 { if b.len() == 4 { Some(None) } else { None } }
        else if off_at(b, 0) == 1 { match P::dec(b.skip(4)) { Some(x) => Some(Some(x)), None => None } }
        else { None }
    }
    open spec fn rt() -> bool { P::rt() }
    open spec fn strict() -> bool { P::strict() }
    proof fn law_wf(&self) { match self.x { None => {}, Some(p) => { p.law_wf(); } } }
    proof fn law_len(v: Option<KV>) { }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) { if off_at(b, 0) == 1 { P::law_dec(b.skip(4)); } }
    proof fn law_rt(v: Option<KV>) {
        match v {
            None => { assert(le4(0).subrange(0, 4) =~= le4(0)); }
            Some(x) => {
                P::law_rt(x);
                let e = le4(1) + P::enc(x);
                assert(e.skip(4) =~= P::enc(x));
                assert(e.subrange(0, 4) =~= le4(1));
            }
        }
    }
    proof fn law_strict(b: Seq<u8>) {
        lemma_un4(b.subrange(0, 4));
        if off_at(b, 0) == 1 { P::law_strict(b.skip(4)); assert(le4(1) + b.skip(4) =~= b); } else { assert(le4(0) =~= b); }
    }
}

/// and the encoding of a value is told apart from every other input
proof fn lemma_legacy_strict(b: Seq<u8>)
    requires P::strict(), P::ok(), OptP::dec(b) is Some
    ensures OptP::enc(OptP::dec(b).unwrap()) == b
{ OptP::law_strict(b); }

pub mod opt_p { pub mod encode { use super::super::*;
@@ fn opt_p::encode::is_ssz_fixed_len
@props C17
@spec
    ensures r == OptP::fixed()
@@ fn opt_p::encode::ssz_fixed_len
@props C17
@spec
    ensures r == OptP::flen()
@@ fn opt_p::encode::ssz_bytes_len
@props C17
@spec
    requires OptP::ok(), (OptP { x: *opt }).wf(), small(OptP::enc((OptP { x: *opt }).v()).len())
    ensures r == OptP::enc((OptP { x: *opt }).v()).len()
@start
    proof { match opt { None => {}, Some(p) => { p.law_wf(); P::law_len(p.v()); } } }
@@ fn opt_p::encode::ssz_append
@props C17
@spec
    requires OptP::ok(), (OptP { x: *opt }).wf(), small(OptP::enc((OptP { x: *opt }).v()).len())
    ensures final(buf)@ == old(buf)@ + OptP::enc((OptP { x: *opt }).v())
@start
    let ghost b0 = buf@;
    proof { match opt { None => {}, Some(p) => { assert(b0 + (le4(1) + P::enc(p.v())) =~= (b0 + le4(1)) + P::enc(p.v())); } } }
@@ fn opt_p::encode::as_ssz_bytes
@props C17
@spec
    requires OptP::ok(), (OptP { x: *opt }).wf(), small(OptP::enc((OptP { x: *opt }).v()).len())
    ensures r@ == OptP::enc((OptP { x: *opt }).v())
@result v_r
@finish
    proof { assert(v_r@ =~= OptP::enc((OptP { x: *opt }).v())); }
@@ raw
} pub mod decode { use super::super::*;
@@ fn opt_p::decode::is_ssz_fixed_len
@props C17
@spec
    ensures r == OptP::fixed()
@@ fn opt_p::decode::ssz_fixed_len
@props C17
@spec
    ensures r == OptP::flen()
@@ fn opt_p::decode::from_ssz_bytes
@props C17
@spec
    requires OptP::ok(), bytes@.len() <= mem_limit()
    ensures r is Ok ==> OptP::dec(bytes@) == Some((OptP { x: r->Ok_0 }).v()) && (OptP { x: r->Ok_0 }).wf(), r is Err ==> OptP::dec(bytes@) is None
@start
    proof {
        if bytes@.len() >= 4 {
            assert(bytes@.subrange(0, 4).subrange(0, 4) =~= bytes@.subrange(0, 4));
            lemma_un4(bytes@.subrange(0, 4));
        }
    }
@@ raw
} }

@@ module d_selectors private
@@ item ssz_derive/MAX_UNION_SELECTOR
@@ fn compute_union_selectors
@props C08 C15
# every variant gets its index
@spec
    requires 1 <= num_variants <= 128
    ensures r@ == Seq::new(num_variants as nat, |i: int| i as u8)
@closure 0
    |$0: usize| -> (q: u8)
        requires $0 <= 255
        ensures q == $0 as u8
@result v_r
@finish
    proof { assert(v_r@ =~= Seq::new(num_variants as nat, |i: int| i as u8)); }
@@ again compute_union_selectors as compute_union_selectors_rejects
@props C08 C15
# a panic at compile time otherwise: there is no result
@sub \.expect\("[^"]*"\) => .v_or_panic()
@sub v_panic\(\) => v_rejects()
@spec
    ensures 1 <= num_variants <= 128, r@.len() == num_variants
@closure 0
    |$0: usize| -> (q: u8)
        ensures $0 <= 255, q == $0 as u8

@@ module dvc0 private
@@ item DvC0
@@ raw
impl Ssz for DvC0 {
    type V = ();
    open spec fn v(&self) -> () { () }
    open spec fn wf(&self) -> bool { true }
    open spec fn valid(v: ()) -> bool { <() as Ssz>::valid(v) }
    open spec fn ok() -> bool { <() as Ssz>::ok() }
    open spec fn fixed() -> bool { <() as Ssz>::fixed() }
    open spec fn flen() -> nat { <() as Ssz>::flen() }
    open spec fn enc(v: ()) -> Seq<u8> { <() as Ssz>::enc(v) }
    open spec fn dec(b: Seq<u8>) -> Option<()> { <() as Ssz>::dec(b) }
    open spec fn rt() -> bool { <() as Ssz>::rt() }
    open spec fn strict() -> bool { <() as Ssz>::strict() }
    proof fn law_wf(&self) {  }
    proof fn law_len(v: ()) { <() as Ssz>::law_len(v); }
    proof fn law_flen() { <() as Ssz>::law_flen(); }
    proof fn law_dec(b: Seq<u8>) { <() as Ssz>::law_dec(b); }
    proof fn law_rt(v: ()) { <() as Ssz>::law_rt(v); }
    proof fn law_strict(b: Seq<u8>) { <() as Ssz>::law_strict(b); }
}

@@ impl Encode for DvC0
@@ fn Encode for DvC0::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvC0::ssz_fixed_len
@props C07 C08
@@ fn Encode for DvC0::ssz_bytes_len
@props C07 C08
@start
    proof { self.law_wf(); lemma_sum0(self.v()); }
@@ fn Encode for DvC0::ssz_append
@props C01 C03 C08
@start
    let ghost b0 = buf@;
    proof {
        let ps = parts0(self.v());
        self.law_wf();
        lemma_sum0(self.v());
        lemma_takes0(self.v());
        
    }
@@ impl Decode for DvC0
@@ fn Decode for DvC0::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvC0::ssz_fixed_len
@props C07 C08
@@ fn Decode for DvC0::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08
@start
    hide(split_ok);
    hide(prefix_ok);
    hide(piece);
    let ghost gb = bytes@;
    let ghost gl = lay0();
    proof {
        
        
        if split_ok(gb, gl) { lemma_pieces_le(gb, gl); }
        if Self::fixed() {
            lemma_cut_fixed(gb, gl);
        }
    }

@@ module dvc1 private
@@ item DvC1
@@ raw
impl<A: Encode + Decode> Ssz for DvC1<A> {
    type V = (<A as Ssz>::V, );
    open spec fn v(&self) -> (<A as Ssz>::V, ) { (self.a.v(), ) }
    open spec fn wf(&self) -> bool { self.a.wf() }
    open spec fn valid(v: (<A as Ssz>::V, )) -> bool { <(A, ) as Ssz>::valid(v) }
    open spec fn ok() -> bool { <(A, ) as Ssz>::ok() }
    open spec fn fixed() -> bool { <(A, ) as Ssz>::fixed() }
    open spec fn flen() -> nat { <(A, ) as Ssz>::flen() }
    open spec fn enc(v: (<A as Ssz>::V, )) -> Seq<u8> { <(A, ) as Ssz>::enc(v) }
    open spec fn dec(b: Seq<u8>) -> Option<(<A as Ssz>::V, )> { <(A, ) as Ssz>::dec(b) }
    open spec fn rt() -> bool { <(A, ) as Ssz>::rt() }
    open spec fn strict() -> bool { <(A, ) as Ssz>::strict() }
    proof fn law_wf(&self) { self.a.law_wf(); }
    proof fn law_len(v: (<A as Ssz>::V, )) { <(A, ) as Ssz>::law_len(v); }
    proof fn law_flen() { <(A, ) as Ssz>::law_flen(); }
    proof fn law_dec(b: Seq<u8>) { <(A, ) as Ssz>::law_dec(b); }
    proof fn law_rt(v: (<A as Ssz>::V, )) { <(A, ) as Ssz>::law_rt(v); }
    proof fn law_strict(b: Seq<u8>) { <(A, ) as Ssz>::law_strict(b); }
}

@@ impl Encode for DvC1<A>
@@ fn Encode for DvC1<A>::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvC1<A>::ssz_fixed_len
@props C07 C08
@@ fn Encode for DvC1<A>::ssz_bytes_len
@props C07 C08
@start
    proof { self.law_wf(); lemma_sum1::<A>(self.v()); }
@@ fn Encode for DvC1<A>::ssz_append
@props C01 C03 C08
@start
    let ghost b0 = buf@;
    proof {
        let ps = parts1::<A>(self.v());
        self.law_wf();
        lemma_sum1::<A>(self.v());
        lemma_takes1::<A>(self.v());
        lemma_part_len(ps, 0);
    }
@@ impl Decode for DvC1<A>
@@ fn Decode for DvC1<A>::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvC1<A>::ssz_fixed_len
@props C07 C08
@@ fn Decode for DvC1<A>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08
@start
    hide(split_ok);
    hide(prefix_ok);
    hide(piece);
    let ghost gb = bytes@;
    let ghost gl = lay1::<A>();
    proof {
        assert(gl[0] == slot::<A>());
        
        if split_ok(gb, gl) { lemma_pieces_le(gb, gl); }
        if Self::fixed() {
            lemma_cut_fixed(gb, gl);
        }
    }
@at /^let a =/
    proof { assert(slice@ =~= piece(gb, gl, 0)); assert(bytes@ =~= gb.skip(start(gl, 1))); }

@@ module dvc2 private
@@ item DvC2
@@ raw
impl<A: Encode + Decode, B: Encode + Decode> Ssz for DvC2<A, B> {
    type V = (<A as Ssz>::V, <B as Ssz>::V, );
    open spec fn v(&self) -> (<A as Ssz>::V, <B as Ssz>::V, ) { (self.a.v(), self.b.v(), ) }
    open spec fn wf(&self) -> bool { self.a.wf() && self.b.wf() }
    open spec fn valid(v: (<A as Ssz>::V, <B as Ssz>::V, )) -> bool { <(A, B, ) as Ssz>::valid(v) }
    open spec fn ok() -> bool { <(A, B, ) as Ssz>::ok() }
    open spec fn fixed() -> bool { <(A, B, ) as Ssz>::fixed() }
    open spec fn flen() -> nat { <(A, B, ) as Ssz>::flen() }
    open spec fn enc(v: (<A as Ssz>::V, <B as Ssz>::V, )) -> Seq<u8> { <(A, B, ) as Ssz>::enc(v) }
    open spec fn dec(b: Seq<u8>) -> Option<(<A as Ssz>::V, <B as Ssz>::V, )> { <(A, B, ) as Ssz>::dec(b) }
    open spec fn rt() -> bool { <(A, B, ) as Ssz>::rt() }
    open spec fn strict() -> bool { <(A, B, ) as Ssz>::strict() }
    proof fn law_wf(&self) { self.a.law_wf(); self.b.law_wf(); }
    proof fn law_len(v: (<A as Ssz>::V, <B as Ssz>::V, )) { <(A, B, ) as Ssz>::law_len(v); }
    proof fn law_flen() { <(A, B, ) as Ssz>::law_flen(); }
    proof fn law_dec(b: Seq<u8>) { <(A, B, ) as Ssz>::law_dec(b); }
    proof fn law_rt(v: (<A as Ssz>::V, <B as Ssz>::V, )) { <(A, B, ) as Ssz>::law_rt(v); }
    proof fn law_strict(b: Seq<u8>) { <(A, B, ) as Ssz>::law_strict(b); }
}

@@ impl Encode for DvC2<A,B>
@@ fn Encode for DvC2<A,B>::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvC2<A,B>::ssz_fixed_len
@props C07 C08
@@ fn Encode for DvC2<A,B>::ssz_bytes_len
@props C07 C08
@start
    proof { self.law_wf(); lemma_sum2::<A, B>(self.v()); }
@at /^if (?!.*Self)/ 1
    assert(len == plen(part::<A>(self.v().0)));
@@ fn Encode for DvC2<A,B>::ssz_append
@props C01 C03 C08
@start
    let ghost b0 = buf@;
    proof {
        let ps = parts2::<A, B>(self.v());
        self.law_wf();
        lemma_sum2::<A, B>(self.v());
        lemma_takes2::<A, B>(self.v());
        lemma_part_len(ps, 0); lemma_part_len(ps, 1);
    }
@@ impl Decode for DvC2<A,B>
@@ fn Decode for DvC2<A,B>::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvC2<A,B>::ssz_fixed_len
@props C07 C08
@@ fn Decode for DvC2<A,B>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08
@start
    hide(split_ok);
    hide(prefix_ok);
    hide(piece);
    let ghost gb = bytes@;
    let ghost gl = lay2::<A, B>();
    proof {
        assert(gl[0] == slot::<A>()); assert(gl[1] == slot::<B>());
        
        if split_ok(gb, gl) { lemma_pieces_le(gb, gl); }
        if Self::fixed() {
            lemma_cut_fixed(gb, gl);
        }
    }
@at /^let a =/
    proof { assert(slice@ =~= piece(gb, gl, 0)); assert(bytes@ =~= gb.skip(start(gl, 1))); }
@at /^let b =/
    proof { assert(slice@ =~= piece(gb, gl, 1)); assert(bytes@ =~= gb.skip(start(gl, 2))); }

@@ module dvc3 private
@@ item DvC3
@@ raw
impl<A: Encode + Decode, B: Encode + Decode, C: Encode + Decode> Ssz for DvC3<A, B, C> {
    type V = (<A as Ssz>::V, <B as Ssz>::V, <C as Ssz>::V, );
    open spec fn v(&self) -> (<A as Ssz>::V, <B as Ssz>::V, <C as Ssz>::V, ) { (self.a.v(), self.b.v(), self.c.v(), ) }
    open spec fn wf(&self) -> bool { self.a.wf() && self.b.wf() && self.c.wf() }
    open spec fn valid(v: (<A as Ssz>::V, <B as Ssz>::V, <C as Ssz>::V, )) -> bool { <(A, B, C, ) as Ssz>::valid(v) }
    open spec fn ok() -> bool { <(A, B, C, ) as Ssz>::ok() }
    open spec fn fixed() -> bool { <(A, B, C, ) as Ssz>::fixed() }
    open spec fn flen() -> nat { <(A, B, C, ) as Ssz>::flen() }
    open spec fn enc(v: (<A as Ssz>::V, <B as Ssz>::V, <C as Ssz>::V, )) -> Seq<u8> { <(A, B, C, ) as Ssz>::enc(v) }
    open spec fn dec(b: Seq<u8>) -> Option<(<A as Ssz>::V, <B as Ssz>::V, <C as Ssz>::V, )> { <(A, B, C, ) as Ssz>::dec(b) }
    open spec fn rt() -> bool { <(A, B, C, ) as Ssz>::rt() }
    open spec fn strict() -> bool { <(A, B, C, ) as Ssz>::strict() }
    proof fn law_wf(&self) { self.a.law_wf(); self.b.law_wf(); self.c.law_wf(); }
    proof fn law_len(v: (<A as Ssz>::V, <B as Ssz>::V, <C as Ssz>::V, )) { <(A, B, C, ) as Ssz>::law_len(v); }
    proof fn law_flen() { <(A, B, C, ) as Ssz>::law_flen(); }
    proof fn law_dec(b: Seq<u8>) { <(A, B, C, ) as Ssz>::law_dec(b); }
    proof fn law_rt(v: (<A as Ssz>::V, <B as Ssz>::V, <C as Ssz>::V, )) { <(A, B, C, ) as Ssz>::law_rt(v); }
    proof fn law_strict(b: Seq<u8>) { <(A, B, C, ) as Ssz>::law_strict(b); }
}

@@ impl Encode for DvC3<A,B,C>
@@ fn Encode for DvC3<A,B,C>::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvC3<A,B,C>::ssz_fixed_len
@props C07 C08
@@ fn Encode for DvC3<A,B,C>::ssz_bytes_len
@props C07 C08
@start
    proof { self.law_wf(); lemma_sum3::<A, B, C>(self.v()); }
@at /^if (?!.*Self)/ 1
    assert(len == plen(part::<A>(self.v().0)));
@at /^if (?!.*Self)/ 2
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)));
@@ fn Encode for DvC3<A,B,C>::ssz_append
@props C01 C03 C08
@start
    let ghost b0 = buf@;
    proof {
        let ps = parts3::<A, B, C>(self.v());
        self.law_wf();
        lemma_sum3::<A, B, C>(self.v());
        lemma_takes3::<A, B, C>(self.v());
        lemma_part_len(ps, 0); lemma_part_len(ps, 1); lemma_part_len(ps, 2);
    }
@@ impl Decode for DvC3<A,B,C>
@@ fn Decode for DvC3<A,B,C>::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvC3<A,B,C>::ssz_fixed_len
@props C07 C08
@@ fn Decode for DvC3<A,B,C>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08
@start
    hide(split_ok);
    hide(prefix_ok);
    hide(piece);
    let ghost gb = bytes@;
    let ghost gl = lay3::<A, B, C>();
    proof {
        assert(gl[0] == slot::<A>()); assert(gl[1] == slot::<B>()); assert(gl[2] == slot::<C>());
        
        if split_ok(gb, gl) { lemma_pieces_le(gb, gl); }
        if Self::fixed() {
            lemma_cut_fixed(gb, gl);
        }
    }
@at /^let a =/
    proof { assert(slice@ =~= piece(gb, gl, 0)); assert(bytes@ =~= gb.skip(start(gl, 1))); }
@at /^let b =/
    proof { assert(slice@ =~= piece(gb, gl, 1)); assert(bytes@ =~= gb.skip(start(gl, 2))); }
@at /^let c =/
    proof { assert(slice@ =~= piece(gb, gl, 2)); assert(bytes@ =~= gb.skip(start(gl, 3))); }

@@ module dvc4 private
@@ item DvC4
@@ raw
impl<A: Encode + Decode, B: Encode + Decode, C: Encode + Decode, D: Encode + Decode> Ssz for DvC4<A, B, C, D> {
    type V = (<A as Ssz>::V, <B as Ssz>::V, <C as Ssz>::V, <D as Ssz>::V, );
    open spec fn v(&self) -> (<A as Ssz>::V, <B as Ssz>::V, <C as Ssz>::V, <D as Ssz>::V, ) { (self.a.v(), self.b.v(), self.c.v(), self.d.v(), ) }
    open spec fn wf(&self) -> bool { self.a.wf() && self.b.wf() && self.c.wf() && self.d.wf() }
    open spec fn valid(v: (<A as Ssz>::V, <B as Ssz>::V, <C as Ssz>::V, <D as Ssz>::V, )) -> bool { <(A, B, C, D, ) as Ssz>::valid(v) }
    open spec fn ok() -> bool { <(A, B, C, D, ) as Ssz>::ok() }
    open spec fn fixed() -> bool { <(A, B, C, D, ) as Ssz>::fixed() }
    open spec fn flen() -> nat { <(A, B, C, D, ) as Ssz>::flen() }
    open spec fn enc(v: (<A as Ssz>::V, <B as Ssz>::V, <C as Ssz>::V, <D as Ssz>::V, )) -> Seq<u8> { <(A, B, C, D, ) as Ssz>::enc(v) }
    open spec fn dec(b: Seq<u8>) -> Option<(<A as Ssz>::V, <B as Ssz>::V, <C as Ssz>::V, <D as Ssz>::V, )> { <(A, B, C, D, ) as Ssz>::dec(b) }
    open spec fn rt() -> bool { <(A, B, C, D, ) as Ssz>::rt() }
    open spec fn strict() -> bool { <(A, B, C, D, ) as Ssz>::strict() }
    proof fn law_wf(&self) { self.a.law_wf(); self.b.law_wf(); self.c.law_wf(); self.d.law_wf(); }
    proof fn law_len(v: (<A as Ssz>::V, <B as Ssz>::V, <C as Ssz>::V, <D as Ssz>::V, )) { <(A, B, C, D, ) as Ssz>::law_len(v); }
    proof fn law_flen() { <(A, B, C, D, ) as Ssz>::law_flen(); }
    proof fn law_dec(b: Seq<u8>) { <(A, B, C, D, ) as Ssz>::law_dec(b); }
    proof fn law_rt(v: (<A as Ssz>::V, <B as Ssz>::V, <C as Ssz>::V, <D as Ssz>::V, )) { <(A, B, C, D, ) as Ssz>::law_rt(v); }
    proof fn law_strict(b: Seq<u8>) { <(A, B, C, D, ) as Ssz>::law_strict(b); }
}

@@ impl Encode for DvC4<A,B,C,D>
@@ fn Encode for DvC4<A,B,C,D>::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvC4<A,B,C,D>::ssz_fixed_len
@props C07 C08
@@ fn Encode for DvC4<A,B,C,D>::ssz_bytes_len
@props C07 C08
@start
    proof { self.law_wf(); lemma_sum4::<A, B, C, D>(self.v()); }
@at /^if (?!.*Self)/ 1
    assert(len == plen(part::<A>(self.v().0)));
@at /^if (?!.*Self)/ 2
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)));
@at /^if (?!.*Self)/ 3
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)));
@@ fn Encode for DvC4<A,B,C,D>::ssz_append
@props C01 C03 C08
@start
    let ghost b0 = buf@;
    proof {
        let ps = parts4::<A, B, C, D>(self.v());
        self.law_wf();
        lemma_sum4::<A, B, C, D>(self.v());
        lemma_takes4::<A, B, C, D>(self.v());
        lemma_part_len(ps, 0); lemma_part_len(ps, 1); lemma_part_len(ps, 2); lemma_part_len(ps, 3);
    }
@@ impl Decode for DvC4<A,B,C,D>
@@ fn Decode for DvC4<A,B,C,D>::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvC4<A,B,C,D>::ssz_fixed_len
@props C07 C08
@@ fn Decode for DvC4<A,B,C,D>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08
@start
    hide(split_ok);
    hide(prefix_ok);
    hide(piece);
    let ghost gb = bytes@;
    let ghost gl = lay4::<A, B, C, D>();
    proof {
        assert(gl[0] == slot::<A>()); assert(gl[1] == slot::<B>()); assert(gl[2] == slot::<C>()); assert(gl[3] == slot::<D>());
        
        if split_ok(gb, gl) { lemma_pieces_le(gb, gl); }
        if Self::fixed() {
            lemma_cut_fixed(gb, gl);
        }
    }
@at /^let a =/
    proof { assert(slice@ =~= piece(gb, gl, 0)); assert(bytes@ =~= gb.skip(start(gl, 1))); }
@at /^let b =/
    proof { assert(slice@ =~= piece(gb, gl, 1)); assert(bytes@ =~= gb.skip(start(gl, 2))); }
@at /^let c =/
    proof { assert(slice@ =~= piece(gb, gl, 2)); assert(bytes@ =~= gb.skip(start(gl, 3))); }
@at /^let d =/
    proof { assert(slice@ =~= piece(gb, gl, 3)); assert(bytes@ =~= gb.skip(start(gl, 4))); }

@@ module dvc5 private
@@ item DvC5
@@ raw
impl<A: Encode + Decode, B: Encode + Decode, C: Encode + Decode, D: Encode + Decode, E: Encode + Decode> Ssz for DvC5<A, B, C, D, E> {
    type V = (<A as Ssz>::V, <B as Ssz>::V, <C as Ssz>::V, <D as Ssz>::V, <E as Ssz>::V, );
    open spec fn v(&self) -> (<A as Ssz>::V, <B as Ssz>::V, <C as Ssz>::V, <D as Ssz>::V, <E as Ssz>::V, ) { (self.a.v(), self.b.v(), self.c.v(), self.d.v(), self.e.v(), ) }
    open spec fn wf(&self) -> bool { self.a.wf() && self.b.wf() && self.c.wf() && self.d.wf() && self.e.wf() }
    open spec fn valid(v: (<A as Ssz>::V, <B as Ssz>::V, <C as Ssz>::V, <D as Ssz>::V, <E as Ssz>::V, )) -> bool { <(A, B, C, D, E, ) as Ssz>::valid(v) }
    open spec fn ok() -> bool { <(A, B, C, D, E, ) as Ssz>::ok() }
    open spec fn fixed() -> bool { <(A, B, C, D, E, ) as Ssz>::fixed() }
    open spec fn flen() -> nat { <(A, B, C, D, E, ) as Ssz>::flen() }
    open spec fn enc(v: (<A as Ssz>::V, <B as Ssz>::V, <C as Ssz>::V, <D as Ssz>::V, <E as Ssz>::V, )) -> Seq<u8> { <(A, B, C, D, E, ) as Ssz>::enc(v) }
    open spec fn dec(b: Seq<u8>) -> Option<(<A as Ssz>::V, <B as Ssz>::V, <C as Ssz>::V, <D as Ssz>::V, <E as Ssz>::V, )> { <(A, B, C, D, E, ) as Ssz>::dec(b) }
    open spec fn rt() -> bool { <(A, B, C, D, E, ) as Ssz>::rt() }
    open spec fn strict() -> bool { <(A, B, C, D, E, ) as Ssz>::strict() }
    proof fn law_wf(&self) { self.a.law_wf(); self.b.law_wf(); self.c.law_wf(); self.d.law_wf(); self.e.law_wf(); }
    proof fn law_len(v: (<A as Ssz>::V, <B as Ssz>::V, <C as Ssz>::V, <D as Ssz>::V, <E as Ssz>::V, )) { <(A, B, C, D, E, ) as Ssz>::law_len(v); }
    proof fn law_flen() { <(A, B, C, D, E, ) as Ssz>::law_flen(); }
    proof fn law_dec(b: Seq<u8>) { <(A, B, C, D, E, ) as Ssz>::law_dec(b); }
    proof fn law_rt(v: (<A as Ssz>::V, <B as Ssz>::V, <C as Ssz>::V, <D as Ssz>::V, <E as Ssz>::V, )) { <(A, B, C, D, E, ) as Ssz>::law_rt(v); }
    proof fn law_strict(b: Seq<u8>) { <(A, B, C, D, E, ) as Ssz>::law_strict(b); }
}

@@ impl Encode for DvC5<A,B,C,D,E>
@@ fn Encode for DvC5<A,B,C,D,E>::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvC5<A,B,C,D,E>::ssz_fixed_len
@props C07 C08
@@ fn Encode for DvC5<A,B,C,D,E>::ssz_bytes_len
@props C07 C08
@attr #[verifier::rlimit(80)]
@start
    proof { self.law_wf(); lemma_sum5::<A, B, C, D, E>(self.v()); }
@at /^if (?!.*Self)/ 1
    assert(len == plen(part::<A>(self.v().0)));
@at /^if (?!.*Self)/ 2
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)));
@at /^if (?!.*Self)/ 3
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)));
@at /^if (?!.*Self)/ 4
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)) + plen(part::<D>(self.v().3)));
@@ fn Encode for DvC5<A,B,C,D,E>::ssz_append
@props C01 C03 C08
@attr #[verifier::rlimit(80)]
@start
    let ghost b0 = buf@;
    proof {
        let ps = parts5::<A, B, C, D, E>(self.v());
        self.law_wf();
        lemma_sum5::<A, B, C, D, E>(self.v());
        lemma_takes5::<A, B, C, D, E>(self.v());
        lemma_part_len(ps, 0); lemma_part_len(ps, 1); lemma_part_len(ps, 2); lemma_part_len(ps, 3); lemma_part_len(ps, 4);
    }
@@ impl Decode for DvC5<A,B,C,D,E>
@@ fn Decode for DvC5<A,B,C,D,E>::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvC5<A,B,C,D,E>::ssz_fixed_len
@props C07 C08
@@ fn Decode for DvC5<A,B,C,D,E>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08
@attr #[verifier::rlimit(80)]
@start
    hide(split_ok);
    hide(prefix_ok);
    hide(piece);
    let ghost gb = bytes@;
    let ghost gl = lay5::<A, B, C, D, E>();
    proof {
        assert(gl[0] == slot::<A>()); assert(gl[1] == slot::<B>()); assert(gl[2] == slot::<C>()); assert(gl[3] == slot::<D>()); assert(gl[4] == slot::<E>());
        
        if split_ok(gb, gl) { lemma_pieces_le(gb, gl); }
        if Self::fixed() {
            lemma_cut_fixed(gb, gl);
        }
    }
@at /^let a =/
    proof { assert(slice@ =~= piece(gb, gl, 0)); assert(bytes@ =~= gb.skip(start(gl, 1))); }
@at /^let b =/
    proof { assert(slice@ =~= piece(gb, gl, 1)); assert(bytes@ =~= gb.skip(start(gl, 2))); }
@at /^let c =/
    proof { assert(slice@ =~= piece(gb, gl, 2)); assert(bytes@ =~= gb.skip(start(gl, 3))); }
@at /^let d =/
    proof { assert(slice@ =~= piece(gb, gl, 3)); assert(bytes@ =~= gb.skip(start(gl, 4))); }
@at /^let e =/
    proof { assert(slice@ =~= piece(gb, gl, 4)); assert(bytes@ =~= gb.skip(start(gl, 5))); }

@@ module dvc6 private
@@ item DvC6
@@ raw
impl<A: Encode + Decode, B: Encode + Decode, C: Encode + Decode, D: Encode + Decode, E: Encode + Decode, F: Encode + Decode> Ssz for DvC6<A, B, C, D, E, F> {
    type V = (<A as Ssz>::V, <B as Ssz>::V, <C as Ssz>::V, <D as Ssz>::V, <E as Ssz>::V, <F as Ssz>::V, );
    open spec fn v(&self) -> (<A as Ssz>::V, <B as Ssz>::V, <C as Ssz>::V, <D as Ssz>::V, <E as Ssz>::V, <F as Ssz>::V, ) { (self.a.v(), self.b.v(), self.c.v(), self.d.v(), self.e.v(), self.f.v(), ) }
    open spec fn wf(&self) -> bool { self.a.wf() && self.b.wf() && self.c.wf() && self.d.wf() && self.e.wf() && self.f.wf() }
    open spec fn valid(v: (<A as Ssz>::V, <B as Ssz>::V, <C as Ssz>::V, <D as Ssz>::V, <E as Ssz>::V, <F as Ssz>::V, )) -> bool { <(A, B, C, D, E, F, ) as Ssz>::valid(v) }
    open spec fn ok() -> bool { <(A, B, C, D, E, F, ) as Ssz>::ok() }
    open spec fn fixed() -> bool { <(A, B, C, D, E, F, ) as Ssz>::fixed() }
    open spec fn flen() -> nat { <(A, B, C, D, E, F, ) as Ssz>::flen() }
    open spec fn enc(v: (<A as Ssz>::V, <B as Ssz>::V, <C as Ssz>::V, <D as Ssz>::V, <E as Ssz>::V, <F as Ssz>::V, )) -> Seq<u8> { <(A, B, C, D, E, F, ) as Ssz>::enc(v) }
    open spec fn dec(b: Seq<u8>) -> Option<(<A as Ssz>::V, <B as Ssz>::V, <C as Ssz>::V, <D as Ssz>::V, <E as Ssz>::V, <F as Ssz>::V, )> { <(A, B, C, D, E, F, ) as Ssz>::dec(b) }
    open spec fn rt() -> bool { <(A, B, C, D, E, F, ) as Ssz>::rt() }
    open spec fn strict() -> bool { <(A, B, C, D, E, F, ) as Ssz>::strict() }
    proof fn law_wf(&self) { self.a.law_wf(); self.b.law_wf(); self.c.law_wf(); self.d.law_wf(); self.e.law_wf(); self.f.law_wf(); }
    proof fn law_len(v: (<A as Ssz>::V, <B as Ssz>::V, <C as Ssz>::V, <D as Ssz>::V, <E as Ssz>::V, <F as Ssz>::V, )) { <(A, B, C, D, E, F, ) as Ssz>::law_len(v); }
    proof fn law_flen() { <(A, B, C, D, E, F, ) as Ssz>::law_flen(); }
    proof fn law_dec(b: Seq<u8>) { <(A, B, C, D, E, F, ) as Ssz>::law_dec(b); }
    proof fn law_rt(v: (<A as Ssz>::V, <B as Ssz>::V, <C as Ssz>::V, <D as Ssz>::V, <E as Ssz>::V, <F as Ssz>::V, )) { <(A, B, C, D, E, F, ) as Ssz>::law_rt(v); }
    proof fn law_strict(b: Seq<u8>) { <(A, B, C, D, E, F, ) as Ssz>::law_strict(b); }
}

@@ impl Encode for DvC6<A,B,C,D,E,F>
@@ fn Encode for DvC6<A,B,C,D,E,F>::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvC6<A,B,C,D,E,F>::ssz_fixed_len
@props C07 C08
@@ fn Encode for DvC6<A,B,C,D,E,F>::ssz_bytes_len
@props C07 C08
@attr #[verifier::rlimit(80)]
@start
    proof { self.law_wf(); lemma_sum6::<A, B, C, D, E, F>(self.v()); }
@at /^if (?!.*Self)/ 1
    assert(len == plen(part::<A>(self.v().0)));
@at /^if (?!.*Self)/ 2
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)));
@at /^if (?!.*Self)/ 3
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)));
@at /^if (?!.*Self)/ 4
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)) + plen(part::<D>(self.v().3)));
@at /^if (?!.*Self)/ 5
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)) + plen(part::<D>(self.v().3)) + plen(part::<E>(self.v().4)));
@@ fn Encode for DvC6<A,B,C,D,E,F>::ssz_append
@props C01 C03 C08
@attr #[verifier::rlimit(80)]
@start
    let ghost b0 = buf@;
    proof {
        let ps = parts6::<A, B, C, D, E, F>(self.v());
        self.law_wf();
        lemma_sum6::<A, B, C, D, E, F>(self.v());
        lemma_takes6::<A, B, C, D, E, F>(self.v());
        lemma_part_len(ps, 0); lemma_part_len(ps, 1); lemma_part_len(ps, 2); lemma_part_len(ps, 3); lemma_part_len(ps, 4); lemma_part_len(ps, 5);
    }
@@ impl Decode for DvC6<A,B,C,D,E,F>
@@ fn Decode for DvC6<A,B,C,D,E,F>::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvC6<A,B,C,D,E,F>::ssz_fixed_len
@props C07 C08
@@ fn Decode for DvC6<A,B,C,D,E,F>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08
@attr #[verifier::rlimit(80)]
@start
    hide(split_ok);
    hide(prefix_ok);
    hide(piece);
    let ghost gb = bytes@;
    let ghost gl = lay6::<A, B, C, D, E, F>();
    proof {
        assert(gl[0] == slot::<A>()); assert(gl[1] == slot::<B>()); assert(gl[2] == slot::<C>()); assert(gl[3] == slot::<D>()); assert(gl[4] == slot::<E>()); assert(gl[5] == slot::<F>());
        
        if split_ok(gb, gl) { lemma_pieces_le(gb, gl); }
        if Self::fixed() {
            lemma_cut_fixed(gb, gl);
        }
    }
@at /^let a =/
    proof { assert(slice@ =~= piece(gb, gl, 0)); assert(bytes@ =~= gb.skip(start(gl, 1))); }
@at /^let b =/
    proof { assert(slice@ =~= piece(gb, gl, 1)); assert(bytes@ =~= gb.skip(start(gl, 2))); }
@at /^let c =/
    proof { assert(slice@ =~= piece(gb, gl, 2)); assert(bytes@ =~= gb.skip(start(gl, 3))); }
@at /^let d =/
    proof { assert(slice@ =~= piece(gb, gl, 3)); assert(bytes@ =~= gb.skip(start(gl, 4))); }
@at /^let e =/
    proof { assert(slice@ =~= piece(gb, gl, 4)); assert(bytes@ =~= gb.skip(start(gl, 5))); }
@at /^let f =/
    proof { assert(slice@ =~= piece(gb, gl, 5)); assert(bytes@ =~= gb.skip(start(gl, 6))); }

@@ module dvc8 private
@@ item DvC8
@@ raw
impl<A: Encode + Decode, B: Encode + Decode, C: Encode + Decode, D: Encode + Decode, E: Encode + Decode, F: Encode + Decode, G: Encode + Decode, H: Encode + Decode> Ssz for DvC8<A, B, C, D, E, F, G, H> {
    type V = (<A as Ssz>::V, <B as Ssz>::V, <C as Ssz>::V, <D as Ssz>::V, <E as Ssz>::V, <F as Ssz>::V, <G as Ssz>::V, <H as Ssz>::V, );
    open spec fn v(&self) -> (<A as Ssz>::V, <B as Ssz>::V, <C as Ssz>::V, <D as Ssz>::V, <E as Ssz>::V, <F as Ssz>::V, <G as Ssz>::V, <H as Ssz>::V, ) { (self.a.v(), self.b.v(), self.c.v(), self.d.v(), self.e.v(), self.f.v(), self.g.v(), self.h.v(), ) }
    open spec fn wf(&self) -> bool { self.a.wf() && self.b.wf() && self.c.wf() && self.d.wf() && self.e.wf() && self.f.wf() && self.g.wf() && self.h.wf() }
    open spec fn valid(v: (<A as Ssz>::V, <B as Ssz>::V, <C as Ssz>::V, <D as Ssz>::V, <E as Ssz>::V, <F as Ssz>::V, <G as Ssz>::V, <H as Ssz>::V, )) -> bool { <(A, B, C, D, E, F, G, H, ) as Ssz>::valid(v) }
    open spec fn ok() -> bool { <(A, B, C, D, E, F, G, H, ) as Ssz>::ok() }
    open spec fn fixed() -> bool { <(A, B, C, D, E, F, G, H, ) as Ssz>::fixed() }
    open spec fn flen() -> nat { <(A, B, C, D, E, F, G, H, ) as Ssz>::flen() }
    open spec fn enc(v: (<A as Ssz>::V, <B as Ssz>::V, <C as Ssz>::V, <D as Ssz>::V, <E as Ssz>::V, <F as Ssz>::V, <G as Ssz>::V, <H as Ssz>::V, )) -> Seq<u8> { <(A, B, C, D, E, F, G, H, ) as Ssz>::enc(v) }
    open spec fn dec(b: Seq<u8>) -> Option<(<A as Ssz>::V, <B as Ssz>::V, <C as Ssz>::V, <D as Ssz>::V, <E as Ssz>::V, <F as Ssz>::V, <G as Ssz>::V, <H as Ssz>::V, )> { <(A, B, C, D, E, F, G, H, ) as Ssz>::dec(b) }
    open spec fn rt() -> bool { <(A, B, C, D, E, F, G, H, ) as Ssz>::rt() }
    open spec fn strict() -> bool { <(A, B, C, D, E, F, G, H, ) as Ssz>::strict() }
    proof fn law_wf(&self) { self.a.law_wf(); self.b.law_wf(); self.c.law_wf(); self.d.law_wf(); self.e.law_wf(); self.f.law_wf(); self.g.law_wf(); self.h.law_wf(); }
    proof fn law_len(v: (<A as Ssz>::V, <B as Ssz>::V, <C as Ssz>::V, <D as Ssz>::V, <E as Ssz>::V, <F as Ssz>::V, <G as Ssz>::V, <H as Ssz>::V, )) { <(A, B, C, D, E, F, G, H, ) as Ssz>::law_len(v); }
    proof fn law_flen() { <(A, B, C, D, E, F, G, H, ) as Ssz>::law_flen(); }
    proof fn law_dec(b: Seq<u8>) { <(A, B, C, D, E, F, G, H, ) as Ssz>::law_dec(b); }
    proof fn law_rt(v: (<A as Ssz>::V, <B as Ssz>::V, <C as Ssz>::V, <D as Ssz>::V, <E as Ssz>::V, <F as Ssz>::V, <G as Ssz>::V, <H as Ssz>::V, )) { <(A, B, C, D, E, F, G, H, ) as Ssz>::law_rt(v); }
    proof fn law_strict(b: Seq<u8>) { <(A, B, C, D, E, F, G, H, ) as Ssz>::law_strict(b); }
}

@@ impl Encode for DvC8<A,B,C,D,E,F,G,H>
@@ fn Encode for DvC8<A,B,C,D,E,F,G,H>::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvC8<A,B,C,D,E,F,G,H>::ssz_fixed_len
@props C07 C08
@@ fn Encode for DvC8<A,B,C,D,E,F,G,H>::ssz_bytes_len
@props C07 C08
@attr #[verifier::rlimit(80)]
@start
    proof { self.law_wf(); lemma_sum8::<A, B, C, D, E, F, G, H>(self.v()); }
@at /^if (?!.*Self)/ 1
    assert(len == plen(part::<A>(self.v().0)));
@at /^if (?!.*Self)/ 2
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)));
@at /^if (?!.*Self)/ 3
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)));
@at /^if (?!.*Self)/ 4
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)) + plen(part::<D>(self.v().3)));
@at /^if (?!.*Self)/ 5
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)) + plen(part::<D>(self.v().3)) + plen(part::<E>(self.v().4)));
@at /^if (?!.*Self)/ 6
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)) + plen(part::<D>(self.v().3)) + plen(part::<E>(self.v().4)) + plen(part::<F>(self.v().5)));
@at /^if (?!.*Self)/ 7
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)) + plen(part::<D>(self.v().3)) + plen(part::<E>(self.v().4)) + plen(part::<F>(self.v().5)) + plen(part::<G>(self.v().6)));
@@ fn Encode for DvC8<A,B,C,D,E,F,G,H>::ssz_append
@props C01 C03 C08
@attr #[verifier::rlimit(80)]
@start
    let ghost b0 = buf@;
    proof {
        let ps = parts8::<A, B, C, D, E, F, G, H>(self.v());
        self.law_wf();
        lemma_sum8::<A, B, C, D, E, F, G, H>(self.v());
        lemma_takes8::<A, B, C, D, E, F, G, H>(self.v());
        lemma_part_len(ps, 0); lemma_part_len(ps, 1); lemma_part_len(ps, 2); lemma_part_len(ps, 3); lemma_part_len(ps, 4); lemma_part_len(ps, 5); lemma_part_len(ps, 6); lemma_part_len(ps, 7);
    }
@@ impl Decode for DvC8<A,B,C,D,E,F,G,H>
@@ fn Decode for DvC8<A,B,C,D,E,F,G,H>::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvC8<A,B,C,D,E,F,G,H>::ssz_fixed_len
@props C07 C08
@@ fn Decode for DvC8<A,B,C,D,E,F,G,H>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08
@attr #[verifier::rlimit(80)]
@start
    hide(split_ok);
    hide(prefix_ok);
    hide(piece);
    let ghost gb = bytes@;
    let ghost gl = lay8::<A, B, C, D, E, F, G, H>();
    proof {
        assert(gl[0] == slot::<A>()); assert(gl[1] == slot::<B>()); assert(gl[2] == slot::<C>()); assert(gl[3] == slot::<D>()); assert(gl[4] == slot::<E>()); assert(gl[5] == slot::<F>()); assert(gl[6] == slot::<G>()); assert(gl[7] == slot::<H>());
        
        if split_ok(gb, gl) { lemma_pieces_le(gb, gl); }
        if Self::fixed() {
            lemma_cut_fixed(gb, gl);
        }
    }
@at /^let a =/
    proof { assert(slice@ =~= piece(gb, gl, 0)); assert(bytes@ =~= gb.skip(start(gl, 1))); }
@at /^let b =/
    proof { assert(slice@ =~= piece(gb, gl, 1)); assert(bytes@ =~= gb.skip(start(gl, 2))); }
@at /^let c =/
    proof { assert(slice@ =~= piece(gb, gl, 2)); assert(bytes@ =~= gb.skip(start(gl, 3))); }
@at /^let d =/
    proof { assert(slice@ =~= piece(gb, gl, 3)); assert(bytes@ =~= gb.skip(start(gl, 4))); }
@at /^let e =/
    proof { assert(slice@ =~= piece(gb, gl, 4)); assert(bytes@ =~= gb.skip(start(gl, 5))); }
@at /^let f =/
    proof { assert(slice@ =~= piece(gb, gl, 5)); assert(bytes@ =~= gb.skip(start(gl, 6))); }
@at /^let g =/
    proof { assert(slice@ =~= piece(gb, gl, 6)); assert(bytes@ =~= gb.skip(start(gl, 7))); }
@at /^let h =/
    proof { assert(slice@ =~= piece(gb, gl, 7)); assert(bytes@ =~= gb.skip(start(gl, 8))); }

@@ module dvn3 private
@@ item DvN3
@@ raw
impl<A: Encode + Decode, B: Encode + Decode, C: Encode + Decode> Ssz for DvN3<A, B, C> {
    type V = (<A as Ssz>::V, <B as Ssz>::V, <C as Ssz>::V, );
    open spec fn v(&self) -> (<A as Ssz>::V, <B as Ssz>::V, <C as Ssz>::V, ) { (self.offset.v(), self.len.v(), self.slice.v(), ) }
    open spec fn wf(&self) -> bool { self.offset.wf() && self.len.wf() && self.slice.wf() }
    open spec fn valid(v: (<A as Ssz>::V, <B as Ssz>::V, <C as Ssz>::V, )) -> bool { <(A, B, C, ) as Ssz>::valid(v) }
    open spec fn ok() -> bool { <(A, B, C, ) as Ssz>::ok() }
    open spec fn fixed() -> bool { <(A, B, C, ) as Ssz>::fixed() }
    open spec fn flen() -> nat { <(A, B, C, ) as Ssz>::flen() }
    open spec fn enc(v: (<A as Ssz>::V, <B as Ssz>::V, <C as Ssz>::V, )) -> Seq<u8> { <(A, B, C, ) as Ssz>::enc(v) }
    open spec fn dec(b: Seq<u8>) -> Option<(<A as Ssz>::V, <B as Ssz>::V, <C as Ssz>::V, )> { <(A, B, C, ) as Ssz>::dec(b) }
    open spec fn rt() -> bool { <(A, B, C, ) as Ssz>::rt() }
    open spec fn strict() -> bool { <(A, B, C, ) as Ssz>::strict() }
    proof fn law_wf(&self) { self.offset.law_wf(); self.len.law_wf(); self.slice.law_wf(); }
    proof fn law_len(v: (<A as Ssz>::V, <B as Ssz>::V, <C as Ssz>::V, )) { <(A, B, C, ) as Ssz>::law_len(v); }
    proof fn law_flen() { <(A, B, C, ) as Ssz>::law_flen(); }
    proof fn law_dec(b: Seq<u8>) { <(A, B, C, ) as Ssz>::law_dec(b); }
    proof fn law_rt(v: (<A as Ssz>::V, <B as Ssz>::V, <C as Ssz>::V, )) { <(A, B, C, ) as Ssz>::law_rt(v); }
    proof fn law_strict(b: Seq<u8>) { <(A, B, C, ) as Ssz>::law_strict(b); }
}

@@ impl Encode for DvN3<A,B,C>
@@ fn Encode for DvN3<A,B,C>::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvN3<A,B,C>::ssz_fixed_len
@props C07 C08
@@ fn Encode for DvN3<A,B,C>::ssz_bytes_len
@props C07 C08
@start
    proof { self.law_wf(); lemma_sum3::<A, B, C>(self.v()); }
@at /^if (?!.*Self)/ 1
    assert(len == plen(part::<A>(self.v().0)));
@at /^if (?!.*Self)/ 2
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)));
@@ fn Encode for DvN3<A,B,C>::ssz_append
@props C01 C03 C08
@start
    let ghost b0 = buf@;
    proof {
        let ps = parts3::<A, B, C>(self.v());
        self.law_wf();
        lemma_sum3::<A, B, C>(self.v());
        lemma_takes3::<A, B, C>(self.v());
        lemma_part_len(ps, 0); lemma_part_len(ps, 1); lemma_part_len(ps, 2);
    }
@@ impl Decode for DvN3<A,B,C>
@@ fn Decode for DvN3<A,B,C>::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvN3<A,B,C>::ssz_fixed_len
@props C07 C08
@@ fn Decode for DvN3<A,B,C>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08
@start
    hide(split_ok);
    hide(prefix_ok);
    hide(piece);
    let ghost gb = bytes@;
    let ghost gl = lay3::<A, B, C>();
    proof {
        assert(gl[0] == slot::<A>()); assert(gl[1] == slot::<B>()); assert(gl[2] == slot::<C>());
        
        if split_ok(gb, gl) { lemma_pieces_le(gb, gl); }
        if Self::fixed() {
            lemma_cut_fixed(gb, gl);
        }
    }
@at /^let offset =/
    proof { assert(slice@ =~= piece(gb, gl, 0)); assert(bytes@ =~= gb.skip(start(gl, 1))); }
@at /^let len =/
    proof { assert(slice@ =~= piece(gb, gl, 1)); assert(bytes@ =~= gb.skip(start(gl, 2))); }
@at /^let slice =/
    proof { assert(slice@ =~= piece(gb, gl, 2)); assert(bytes@ =~= gb.skip(start(gl, 3))); }

@@ module dvq2 private
@@ item DvQ2
@@ raw
impl<A: Encode + Decode, B: Encode + Decode> Ssz for DvQ2<A, B> {
    type V = (<A as Ssz>::V, <B as Ssz>::V, );
    open spec fn v(&self) -> (<A as Ssz>::V, <B as Ssz>::V, ) { (self.a.v(), self.b.v(), ) }
    open spec fn wf(&self) -> bool { self.a.wf() && self.b.wf() }
    open spec fn valid(v: (<A as Ssz>::V, <B as Ssz>::V, )) -> bool { <(A, B, ) as Ssz>::valid(v) }
    open spec fn ok() -> bool { <(A, B, ) as Ssz>::ok() }
    open spec fn fixed() -> bool { <(A, B, ) as Ssz>::fixed() }
    open spec fn flen() -> nat { <(A, B, ) as Ssz>::flen() }
    open spec fn enc(v: (<A as Ssz>::V, <B as Ssz>::V, )) -> Seq<u8> { <(A, B, ) as Ssz>::enc(v) }
    open spec fn dec(b: Seq<u8>) -> Option<(<A as Ssz>::V, <B as Ssz>::V, )> { <(A, B, ) as Ssz>::dec(b) }
    open spec fn rt() -> bool { <(A, B, ) as Ssz>::rt() }
    open spec fn strict() -> bool { <(A, B, ) as Ssz>::strict() }
    proof fn law_wf(&self) { self.a.law_wf(); self.b.law_wf(); }
    proof fn law_len(v: (<A as Ssz>::V, <B as Ssz>::V, )) { <(A, B, ) as Ssz>::law_len(v); }
    proof fn law_flen() { <(A, B, ) as Ssz>::law_flen(); }
    proof fn law_dec(b: Seq<u8>) { <(A, B, ) as Ssz>::law_dec(b); }
    proof fn law_rt(v: (<A as Ssz>::V, <B as Ssz>::V, )) { <(A, B, ) as Ssz>::law_rt(v); }
    proof fn law_strict(b: Seq<u8>) { <(A, B, ) as Ssz>::law_strict(b); }
}

@@ impl Encode for DvQ2<A,B>
@@ fn Encode for DvQ2<A,B>::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvQ2<A,B>::ssz_fixed_len
@props C07 C08
@@ fn Encode for DvQ2<A,B>::ssz_bytes_len
@props C07 C08
@start
    proof { self.law_wf(); lemma_sum2::<A, B>(self.v()); }
@at /^if (?!.*Self)/ 1
    assert(len == plen(part::<A>(self.v().0)));
@@ fn Encode for DvQ2<A,B>::ssz_append
@props C01 C03 C08
@start
    let ghost b0 = buf@;
    proof {
        let ps = parts2::<A, B>(self.v());
        self.law_wf();
        lemma_sum2::<A, B>(self.v());
        lemma_takes2::<A, B>(self.v());
        lemma_part_len(ps, 0); lemma_part_len(ps, 1);
    }
@@ impl Decode for DvQ2<A,B>
@@ fn Decode for DvQ2<A,B>::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvQ2<A,B>::ssz_fixed_len
@props C07 C08
@@ fn Decode for DvQ2<A,B>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08
@start
    hide(split_ok);
    hide(prefix_ok);
    hide(piece);
    let ghost gb = bytes@;
    let ghost gl = lay2::<A, B>();
    proof {
        assert(gl[0] == slot::<A>()); assert(gl[1] == slot::<B>());
        
        if split_ok(gb, gl) { lemma_pieces_le(gb, gl); }
        if Self::fixed() {
            lemma_cut_fixed(gb, gl);
        }
    }
@at /^let a =/
    proof { assert(slice@ =~= piece(gb, gl, 0)); assert(bytes@ =~= gb.skip(start(gl, 1))); }
@at /^let b =/
    proof { assert(slice@ =~= piece(gb, gl, 1)); assert(bytes@ =~= gb.skip(start(gl, 2))); }

@@ module dvr3 private
@@ item DvR3
@@ raw
impl<A: Encode + Decode, B: Encode + Decode> Ssz for DvR3<A, B> {
    type V = (<A as Ssz>::V, <A as Ssz>::V, <B as Ssz>::V, );
    open spec fn v(&self) -> (<A as Ssz>::V, <A as Ssz>::V, <B as Ssz>::V, ) { (self.a.v(), self.b.v(), self.c.v(), ) }
    open spec fn wf(&self) -> bool { self.a.wf() && self.b.wf() && self.c.wf() }
    open spec fn valid(v: (<A as Ssz>::V, <A as Ssz>::V, <B as Ssz>::V, )) -> bool { <(A, A, B, ) as Ssz>::valid(v) }
    open spec fn ok() -> bool { <(A, A, B, ) as Ssz>::ok() }
    open spec fn fixed() -> bool { <(A, A, B, ) as Ssz>::fixed() }
    open spec fn flen() -> nat { <(A, A, B, ) as Ssz>::flen() }
    open spec fn enc(v: (<A as Ssz>::V, <A as Ssz>::V, <B as Ssz>::V, )) -> Seq<u8> { <(A, A, B, ) as Ssz>::enc(v) }
    open spec fn dec(b: Seq<u8>) -> Option<(<A as Ssz>::V, <A as Ssz>::V, <B as Ssz>::V, )> { <(A, A, B, ) as Ssz>::dec(b) }
    open spec fn rt() -> bool { <(A, A, B, ) as Ssz>::rt() }
    open spec fn strict() -> bool { <(A, A, B, ) as Ssz>::strict() }
    proof fn law_wf(&self) { self.a.law_wf(); self.b.law_wf(); self.c.law_wf(); }
    proof fn law_len(v: (<A as Ssz>::V, <A as Ssz>::V, <B as Ssz>::V, )) { <(A, A, B, ) as Ssz>::law_len(v); }
    proof fn law_flen() { <(A, A, B, ) as Ssz>::law_flen(); }
    proof fn law_dec(b: Seq<u8>) { <(A, A, B, ) as Ssz>::law_dec(b); }
    proof fn law_rt(v: (<A as Ssz>::V, <A as Ssz>::V, <B as Ssz>::V, )) { <(A, A, B, ) as Ssz>::law_rt(v); }
    proof fn law_strict(b: Seq<u8>) { <(A, A, B, ) as Ssz>::law_strict(b); }
}

@@ impl Encode for DvR3<A,B>
@@ fn Encode for DvR3<A,B>::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvR3<A,B>::ssz_fixed_len
@props C07 C08
@@ fn Encode for DvR3<A,B>::ssz_bytes_len
@props C07 C08
@start
    proof { self.law_wf(); lemma_sum3::<A, A, B>(self.v()); }
@at /^if (?!.*Self)/ 1
    assert(len == plen(part::<A>(self.v().0)));
@at /^if (?!.*Self)/ 2
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<A>(self.v().1)));
@@ fn Encode for DvR3<A,B>::ssz_append
@props C01 C03 C08
@start
    let ghost b0 = buf@;
    proof {
        let ps = parts3::<A, A, B>(self.v());
        self.law_wf();
        lemma_sum3::<A, A, B>(self.v());
        lemma_takes3::<A, A, B>(self.v());
        lemma_part_len(ps, 0); lemma_part_len(ps, 1); lemma_part_len(ps, 2);
    }
@@ impl Decode for DvR3<A,B>
@@ fn Decode for DvR3<A,B>::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvR3<A,B>::ssz_fixed_len
@props C07 C08
@@ fn Decode for DvR3<A,B>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08
@start
    hide(split_ok);
    hide(prefix_ok);
    hide(piece);
    let ghost gb = bytes@;
    let ghost gl = lay3::<A, A, B>();
    proof {
        assert(gl[0] == slot::<A>()); assert(gl[1] == slot::<A>()); assert(gl[2] == slot::<B>());
        
        if split_ok(gb, gl) { lemma_pieces_le(gb, gl); }
        if Self::fixed() {
            lemma_cut_fixed(gb, gl);
        }
    }
@at /^let a =/
    proof { assert(slice@ =~= piece(gb, gl, 0)); assert(bytes@ =~= gb.skip(start(gl, 1))); }
@at /^let b =/
    proof { assert(slice@ =~= piece(gb, gl, 1)); assert(bytes@ =~= gb.skip(start(gl, 2))); }
@at /^let c =/
    proof { assert(slice@ =~= piece(gb, gl, 2)); assert(bytes@ =~= gb.skip(start(gl, 3))); }

@@ module dvs1 private
@@ item DvS1
@@ raw
impl<A: VDefault> Ssz for DvS1<A> {
    type V = ();
    open spec fn v(&self) -> () { () }
    open spec fn wf(&self) -> bool { true }
    open spec fn valid(v: ()) -> bool { <() as Ssz>::valid(v) }
    open spec fn ok() -> bool { <() as Ssz>::ok() }
    open spec fn fixed() -> bool { <() as Ssz>::fixed() }
    open spec fn flen() -> nat { <() as Ssz>::flen() }
    open spec fn enc(v: ()) -> Seq<u8> { <() as Ssz>::enc(v) }
    open spec fn dec(b: Seq<u8>) -> Option<()> { <() as Ssz>::dec(b) }
    open spec fn rt() -> bool { <() as Ssz>::rt() }
    open spec fn strict() -> bool { <() as Ssz>::strict() }
    proof fn law_wf(&self) {  }
    proof fn law_len(v: ()) { <() as Ssz>::law_len(v); }
    proof fn law_flen() { <() as Ssz>::law_flen(); }
    proof fn law_dec(b: Seq<u8>) { <() as Ssz>::law_dec(b); }
    proof fn law_rt(v: ()) { <() as Ssz>::law_rt(v); }
    proof fn law_strict(b: Seq<u8>) { <() as Ssz>::law_strict(b); }
}

@@ impl Encode for DvS1<A>
@@ fn Encode for DvS1<A>::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvS1<A>::ssz_fixed_len
@props C07 C08
@@ fn Encode for DvS1<A>::ssz_bytes_len
@props C07 C08
@start
    proof { self.law_wf(); lemma_sum0(self.v()); }
@@ fn Encode for DvS1<A>::ssz_append
@props C01 C03 C08
@start
    let ghost b0 = buf@;
    proof {
        let ps = parts0(self.v());
        self.law_wf();
        lemma_sum0(self.v());
        lemma_takes0(self.v());
        
    }
@@ impl Decode for DvS1<A>
@@ fn Decode for DvS1<A>::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvS1<A>::ssz_fixed_len
@props C07 C08
@@ fn Decode for DvS1<A>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08
@spec
    ensures r is Ok ==> r->Ok_0.a.is_default()
@start
    hide(split_ok);
    hide(prefix_ok);
    hide(piece);
    let ghost gb = bytes@;
    let ghost gl = lay0();
    proof {
        
        
        if split_ok(gb, gl) { lemma_pieces_le(gb, gl); }
        if Self::fixed() {
            lemma_cut_fixed(gb, gl);
        }
    }

@@ module dvs2a private
@@ item DvS2A
@@ raw
impl<A: VDefault, B: Encode + Decode> Ssz for DvS2A<A, B> {
    type V = (<B as Ssz>::V, );
    open spec fn v(&self) -> (<B as Ssz>::V, ) { (self.b.v(), ) }
    open spec fn wf(&self) -> bool { self.b.wf() }
    open spec fn valid(v: (<B as Ssz>::V, )) -> bool { <(B, ) as Ssz>::valid(v) }
    open spec fn ok() -> bool { <(B, ) as Ssz>::ok() }
    open spec fn fixed() -> bool { <(B, ) as Ssz>::fixed() }
    open spec fn flen() -> nat { <(B, ) as Ssz>::flen() }
    open spec fn enc(v: (<B as Ssz>::V, )) -> Seq<u8> { <(B, ) as Ssz>::enc(v) }
    open spec fn dec(b: Seq<u8>) -> Option<(<B as Ssz>::V, )> { <(B, ) as Ssz>::dec(b) }
    open spec fn rt() -> bool { <(B, ) as Ssz>::rt() }
    open spec fn strict() -> bool { <(B, ) as Ssz>::strict() }
    proof fn law_wf(&self) { self.b.law_wf(); }
    proof fn law_len(v: (<B as Ssz>::V, )) { <(B, ) as Ssz>::law_len(v); }
    proof fn law_flen() { <(B, ) as Ssz>::law_flen(); }
    proof fn law_dec(b: Seq<u8>) { <(B, ) as Ssz>::law_dec(b); }
    proof fn law_rt(v: (<B as Ssz>::V, )) { <(B, ) as Ssz>::law_rt(v); }
    proof fn law_strict(b: Seq<u8>) { <(B, ) as Ssz>::law_strict(b); }
}

@@ impl Encode for DvS2A<A,B>
@@ fn Encode for DvS2A<A,B>::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvS2A<A,B>::ssz_fixed_len
@props C07 C08
@@ fn Encode for DvS2A<A,B>::ssz_bytes_len
@props C07 C08
@start
    proof { self.law_wf(); lemma_sum1::<B>(self.v()); }
@@ fn Encode for DvS2A<A,B>::ssz_append
@props C01 C03 C08
@start
    let ghost b0 = buf@;
    proof {
        let ps = parts1::<B>(self.v());
        self.law_wf();
        lemma_sum1::<B>(self.v());
        lemma_takes1::<B>(self.v());
        lemma_part_len(ps, 0);
    }
@@ impl Decode for DvS2A<A,B>
@@ fn Decode for DvS2A<A,B>::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvS2A<A,B>::ssz_fixed_len
@props C07 C08
@@ fn Decode for DvS2A<A,B>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08
@spec
    ensures r is Ok ==> r->Ok_0.a.is_default()
@start
    hide(split_ok);
    hide(prefix_ok);
    hide(piece);
    let ghost gb = bytes@;
    let ghost gl = lay1::<B>();
    proof {
        assert(gl[0] == slot::<B>());
        
        if split_ok(gb, gl) { lemma_pieces_le(gb, gl); }
        if Self::fixed() {
            lemma_cut_fixed(gb, gl);
        }
    }
@at /^let b =/
    proof { assert(slice@ =~= piece(gb, gl, 0)); assert(bytes@ =~= gb.skip(start(gl, 1))); }

@@ module dvs2b private
@@ item DvS2B
@@ raw
impl<A: Encode + Decode, B: VDefault> Ssz for DvS2B<A, B> {
    type V = (<A as Ssz>::V, );
    open spec fn v(&self) -> (<A as Ssz>::V, ) { (self.a.v(), ) }
    open spec fn wf(&self) -> bool { self.a.wf() }
    open spec fn valid(v: (<A as Ssz>::V, )) -> bool { <(A, ) as Ssz>::valid(v) }
    open spec fn ok() -> bool { <(A, ) as Ssz>::ok() }
    open spec fn fixed() -> bool { <(A, ) as Ssz>::fixed() }
    open spec fn flen() -> nat { <(A, ) as Ssz>::flen() }
    open spec fn enc(v: (<A as Ssz>::V, )) -> Seq<u8> { <(A, ) as Ssz>::enc(v) }
    open spec fn dec(b: Seq<u8>) -> Option<(<A as Ssz>::V, )> { <(A, ) as Ssz>::dec(b) }
    open spec fn rt() -> bool { <(A, ) as Ssz>::rt() }
    open spec fn strict() -> bool { <(A, ) as Ssz>::strict() }
    proof fn law_wf(&self) { self.a.law_wf(); }
    proof fn law_len(v: (<A as Ssz>::V, )) { <(A, ) as Ssz>::law_len(v); }
    proof fn law_flen() { <(A, ) as Ssz>::law_flen(); }
    proof fn law_dec(b: Seq<u8>) { <(A, ) as Ssz>::law_dec(b); }
    proof fn law_rt(v: (<A as Ssz>::V, )) { <(A, ) as Ssz>::law_rt(v); }
    proof fn law_strict(b: Seq<u8>) { <(A, ) as Ssz>::law_strict(b); }
}

@@ impl Encode for DvS2B<A,B>
@@ fn Encode for DvS2B<A,B>::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvS2B<A,B>::ssz_fixed_len
@props C07 C08
@@ fn Encode for DvS2B<A,B>::ssz_bytes_len
@props C07 C08
@start
    proof { self.law_wf(); lemma_sum1::<A>(self.v()); }
@@ fn Encode for DvS2B<A,B>::ssz_append
@props C01 C03 C08
@start
    let ghost b0 = buf@;
    proof {
        let ps = parts1::<A>(self.v());
        self.law_wf();
        lemma_sum1::<A>(self.v());
        lemma_takes1::<A>(self.v());
        lemma_part_len(ps, 0);
    }
@@ impl Decode for DvS2B<A,B>
@@ fn Decode for DvS2B<A,B>::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvS2B<A,B>::ssz_fixed_len
@props C07 C08
@@ fn Decode for DvS2B<A,B>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08
@spec
    ensures r is Ok ==> r->Ok_0.b.is_default()
@start
    hide(split_ok);
    hide(prefix_ok);
    hide(piece);
    let ghost gb = bytes@;
    let ghost gl = lay1::<A>();
    proof {
        assert(gl[0] == slot::<A>());
        
        if split_ok(gb, gl) { lemma_pieces_le(gb, gl); }
        if Self::fixed() {
            lemma_cut_fixed(gb, gl);
        }
    }
@at /^let a =/
    proof { assert(slice@ =~= piece(gb, gl, 0)); assert(bytes@ =~= gb.skip(start(gl, 1))); }

@@ module dvs3 private
@@ item DvS3
@@ raw
impl<A: Encode + Decode, B: VDefault, C: Encode + Decode> Ssz for DvS3<A, B, C> {
    type V = (<A as Ssz>::V, <C as Ssz>::V, );
    open spec fn v(&self) -> (<A as Ssz>::V, <C as Ssz>::V, ) { (self.a.v(), self.c.v(), ) }
    open spec fn wf(&self) -> bool { self.a.wf() && self.c.wf() }
    open spec fn valid(v: (<A as Ssz>::V, <C as Ssz>::V, )) -> bool { <(A, C, ) as Ssz>::valid(v) }
    open spec fn ok() -> bool { <(A, C, ) as Ssz>::ok() }
    open spec fn fixed() -> bool { <(A, C, ) as Ssz>::fixed() }
    open spec fn flen() -> nat { <(A, C, ) as Ssz>::flen() }
    open spec fn enc(v: (<A as Ssz>::V, <C as Ssz>::V, )) -> Seq<u8> { <(A, C, ) as Ssz>::enc(v) }
    open spec fn dec(b: Seq<u8>) -> Option<(<A as Ssz>::V, <C as Ssz>::V, )> { <(A, C, ) as Ssz>::dec(b) }
    open spec fn rt() -> bool { <(A, C, ) as Ssz>::rt() }
    open spec fn strict() -> bool { <(A, C, ) as Ssz>::strict() }
    proof fn law_wf(&self) { self.a.law_wf(); self.c.law_wf(); }
    proof fn law_len(v: (<A as Ssz>::V, <C as Ssz>::V, )) { <(A, C, ) as Ssz>::law_len(v); }
    proof fn law_flen() { <(A, C, ) as Ssz>::law_flen(); }
    proof fn law_dec(b: Seq<u8>) { <(A, C, ) as Ssz>::law_dec(b); }
    proof fn law_rt(v: (<A as Ssz>::V, <C as Ssz>::V, )) { <(A, C, ) as Ssz>::law_rt(v); }
    proof fn law_strict(b: Seq<u8>) { <(A, C, ) as Ssz>::law_strict(b); }
}

@@ impl Encode for DvS3<A,B,C>
@@ fn Encode for DvS3<A,B,C>::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvS3<A,B,C>::ssz_fixed_len
@props C07 C08
@@ fn Encode for DvS3<A,B,C>::ssz_bytes_len
@props C07 C08
@start
    proof { self.law_wf(); lemma_sum2::<A, C>(self.v()); }
@at /^if (?!.*Self)/ 1
    assert(len == plen(part::<A>(self.v().0)));
@@ fn Encode for DvS3<A,B,C>::ssz_append
@props C01 C03 C08
@start
    let ghost b0 = buf@;
    proof {
        let ps = parts2::<A, C>(self.v());
        self.law_wf();
        lemma_sum2::<A, C>(self.v());
        lemma_takes2::<A, C>(self.v());
        lemma_part_len(ps, 0); lemma_part_len(ps, 1);
    }
@@ impl Decode for DvS3<A,B,C>
@@ fn Decode for DvS3<A,B,C>::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvS3<A,B,C>::ssz_fixed_len
@props C07 C08
@@ fn Decode for DvS3<A,B,C>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08
@spec
    ensures r is Ok ==> r->Ok_0.b.is_default()
@start
    hide(split_ok);
    hide(prefix_ok);
    hide(piece);
    let ghost gb = bytes@;
    let ghost gl = lay2::<A, C>();
    proof {
        assert(gl[0] == slot::<A>()); assert(gl[1] == slot::<C>());
        
        if split_ok(gb, gl) { lemma_pieces_le(gb, gl); }
        if Self::fixed() {
            lemma_cut_fixed(gb, gl);
        }
    }
@at /^let a =/
    proof { assert(slice@ =~= piece(gb, gl, 0)); assert(bytes@ =~= gb.skip(start(gl, 1))); }
@at /^let c =/
    proof { assert(slice@ =~= piece(gb, gl, 1)); assert(bytes@ =~= gb.skip(start(gl, 2))); }

@@ module dvs4 private
@@ item DvS4
@@ raw
impl<A: VDefault, B: Encode + Decode, C: VDefault, D: Encode + Decode> Ssz for DvS4<A, B, C, D> {
    type V = (<B as Ssz>::V, <D as Ssz>::V, );
    open spec fn v(&self) -> (<B as Ssz>::V, <D as Ssz>::V, ) { (self.b.v(), self.d.v(), ) }
    open spec fn wf(&self) -> bool { self.b.wf() && self.d.wf() }
    open spec fn valid(v: (<B as Ssz>::V, <D as Ssz>::V, )) -> bool { <(B, D, ) as Ssz>::valid(v) }
    open spec fn ok() -> bool { <(B, D, ) as Ssz>::ok() }
    open spec fn fixed() -> bool { <(B, D, ) as Ssz>::fixed() }
    open spec fn flen() -> nat { <(B, D, ) as Ssz>::flen() }
    open spec fn enc(v: (<B as Ssz>::V, <D as Ssz>::V, )) -> Seq<u8> { <(B, D, ) as Ssz>::enc(v) }
    open spec fn dec(b: Seq<u8>) -> Option<(<B as Ssz>::V, <D as Ssz>::V, )> { <(B, D, ) as Ssz>::dec(b) }
    open spec fn rt() -> bool { <(B, D, ) as Ssz>::rt() }
    open spec fn strict() -> bool { <(B, D, ) as Ssz>::strict() }
    proof fn law_wf(&self) { self.b.law_wf(); self.d.law_wf(); }
    proof fn law_len(v: (<B as Ssz>::V, <D as Ssz>::V, )) { <(B, D, ) as Ssz>::law_len(v); }
    proof fn law_flen() { <(B, D, ) as Ssz>::law_flen(); }
    proof fn law_dec(b: Seq<u8>) { <(B, D, ) as Ssz>::law_dec(b); }
    proof fn law_rt(v: (<B as Ssz>::V, <D as Ssz>::V, )) { <(B, D, ) as Ssz>::law_rt(v); }
    proof fn law_strict(b: Seq<u8>) { <(B, D, ) as Ssz>::law_strict(b); }
}

@@ impl Encode for DvS4<A,B,C,D>
@@ fn Encode for DvS4<A,B,C,D>::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvS4<A,B,C,D>::ssz_fixed_len
@props C07 C08
@@ fn Encode for DvS4<A,B,C,D>::ssz_bytes_len
@props C07 C08
@start
    proof { self.law_wf(); lemma_sum2::<B, D>(self.v()); }
@at /^if (?!.*Self)/ 1
    assert(len == plen(part::<B>(self.v().0)));
@@ fn Encode for DvS4<A,B,C,D>::ssz_append
@props C01 C03 C08
@start
    let ghost b0 = buf@;
    proof {
        let ps = parts2::<B, D>(self.v());
        self.law_wf();
        lemma_sum2::<B, D>(self.v());
        lemma_takes2::<B, D>(self.v());
        lemma_part_len(ps, 0); lemma_part_len(ps, 1);
    }
@@ impl Decode for DvS4<A,B,C,D>
@@ fn Decode for DvS4<A,B,C,D>::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvS4<A,B,C,D>::ssz_fixed_len
@props C07 C08
@@ fn Decode for DvS4<A,B,C,D>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08
@spec
    ensures r is Ok ==> r->Ok_0.a.is_default(), r is Ok ==> r->Ok_0.c.is_default()
@start
    hide(split_ok);
    hide(prefix_ok);
    hide(piece);
    let ghost gb = bytes@;
    let ghost gl = lay2::<B, D>();
    proof {
        assert(gl[0] == slot::<B>()); assert(gl[1] == slot::<D>());
        
        if split_ok(gb, gl) { lemma_pieces_le(gb, gl); }
        if Self::fixed() {
            lemma_cut_fixed(gb, gl);
        }
    }
@at /^let b =/
    proof { assert(slice@ =~= piece(gb, gl, 0)); assert(bytes@ =~= gb.skip(start(gl, 1))); }
@at /^let d =/
    proof { assert(slice@ =~= piece(gb, gl, 1)); assert(bytes@ =~= gb.skip(start(gl, 2))); }

@@ module dvk1w private
@@ item DvK1W
@@ raw
impl Ssz for DvK1W {
    type V = (<KS::<1> as Ssz>::V, );
    open spec fn v(&self) -> (<KS::<1> as Ssz>::V, ) { ((KS::<1> { x: self.a }).v(), ) }
    open spec fn wf(&self) -> bool { (KS::<1> { x: self.a }).wf() }
    open spec fn valid(v: (<KS::<1> as Ssz>::V, )) -> bool { <(KS::<1>, ) as Ssz>::valid(v) }
    open spec fn ok() -> bool { <(KS::<1>, ) as Ssz>::ok() }
    open spec fn fixed() -> bool { <(KS::<1>, ) as Ssz>::fixed() }
    open spec fn flen() -> nat { <(KS::<1>, ) as Ssz>::flen() }
    open spec fn enc(v: (<KS::<1> as Ssz>::V, )) -> Seq<u8> { <(KS::<1>, ) as Ssz>::enc(v) }
    open spec fn dec(b: Seq<u8>) -> Option<(<KS::<1> as Ssz>::V, )> { <(KS::<1>, ) as Ssz>::dec(b) }
    open spec fn rt() -> bool { <(KS::<1>, ) as Ssz>::rt() }
    open spec fn strict() -> bool { <(KS::<1>, ) as Ssz>::strict() }
    proof fn law_wf(&self) { (KS::<1> { x: self.a }).law_wf(); }
    proof fn law_len(v: (<KS::<1> as Ssz>::V, )) { <(KS::<1>, ) as Ssz>::law_len(v); }
    proof fn law_flen() { <(KS::<1>, ) as Ssz>::law_flen(); }
    proof fn law_dec(b: Seq<u8>) { <(KS::<1>, ) as Ssz>::law_dec(b); }
    proof fn law_rt(v: (<KS::<1> as Ssz>::V, )) { <(KS::<1>, ) as Ssz>::law_rt(v); }
    proof fn law_strict(b: Seq<u8>) { <(KS::<1>, ) as Ssz>::law_strict(b); }
}

@@ impl Encode for DvK1W
@@ fn Encode for DvK1W::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvK1W::ssz_fixed_len
@props C07 C08
@@ fn Encode for DvK1W::ssz_bytes_len
@props C07 C08
@start
    proof { self.law_wf(); lemma_sum1::<KS::<1>>(self.v()); }
@@ fn Encode for DvK1W::ssz_append
@props C01 C03 C08
@start
    let ghost b0 = buf@;
    proof {
        let ps = parts1::<KS::<1>>(self.v());
        self.law_wf();
        lemma_sum1::<KS::<1>>(self.v());
        lemma_takes1::<KS::<1>>(self.v());
        lemma_part_len(ps, 0);
    }
@closure 0
    |$0: &mut Vec<u8>|
        requires KS::<1>::ok(), (KS::<1> { x: self.a }).wf(), small(KS::<1>::enc((KS::<1> { x: self.a }).v()).len())
        ensures final($0)@ == old($0)@ + KS::<1>::enc((KS::<1> { x: self.a }).v())
@at /^encoder\./ 1
    proof {
        assert(part::<KS::<1>>(self.v().0) == (KS::<1>::fixed(), KS::<1>::enc(self.v().0)));
        assert(encoder.state(b0, Seq::<Part>::empty().push(part::<KS::<1>>(self.v().0)), sum1::<KS::<1>>() as int));
    }
@@ impl Decode for DvK1W
@@ fn Decode for DvK1W::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvK1W::ssz_fixed_len
@props C07 C08
@@ fn Decode for DvK1W::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08
@closure 0
    |$0: &[u8]| -> (q: Result<F1, DecodeError>)
        requires KS::<1>::ok(), $0@.len() <= mem_limit()
        ensures
            q is Ok ==> KS::<1>::dec($0@) == Some((KS::<1> { x: q->Ok_0 }).v()) && (KS::<1> { x: q->Ok_0 }).wf(),
            q is Err ==> KS::<1>::dec($0@) is None
@start
    hide(split_ok);
    hide(prefix_ok);
    hide(piece);
    let ghost gb = bytes@;
    let ghost gl = lay1::<KS::<1>>();
    proof {
        assert(gl[0] == slot::<KS::<1>>());
        KS::<1>::law_flen();
        if split_ok(gb, gl) { lemma_pieces_le(gb, gl); }
        if Self::fixed() {
            lemma_cut_fixed(gb, gl);
        }
    }
@at /^let a =/
    proof { assert(slice@ =~= piece(gb, gl, 0)); assert(bytes@ =~= gb.skip(start(gl, 1))); }

@@ module dvk2a private
@@ item DvK2A
@@ raw
impl<B: Encode + Decode> Ssz for DvK2A<B> {
    type V = (<KS::<1> as Ssz>::V, <B as Ssz>::V, );
    open spec fn v(&self) -> (<KS::<1> as Ssz>::V, <B as Ssz>::V, ) { ((KS::<1> { x: self.a }).v(), self.b.v(), ) }
    open spec fn wf(&self) -> bool { (KS::<1> { x: self.a }).wf() && self.b.wf() }
    open spec fn valid(v: (<KS::<1> as Ssz>::V, <B as Ssz>::V, )) -> bool { <(KS::<1>, B, ) as Ssz>::valid(v) }
    open spec fn ok() -> bool { <(KS::<1>, B, ) as Ssz>::ok() }
    open spec fn fixed() -> bool { <(KS::<1>, B, ) as Ssz>::fixed() }
    open spec fn flen() -> nat { <(KS::<1>, B, ) as Ssz>::flen() }
    open spec fn enc(v: (<KS::<1> as Ssz>::V, <B as Ssz>::V, )) -> Seq<u8> { <(KS::<1>, B, ) as Ssz>::enc(v) }
    open spec fn dec(b: Seq<u8>) -> Option<(<KS::<1> as Ssz>::V, <B as Ssz>::V, )> { <(KS::<1>, B, ) as Ssz>::dec(b) }
    open spec fn rt() -> bool { <(KS::<1>, B, ) as Ssz>::rt() }
    open spec fn strict() -> bool { <(KS::<1>, B, ) as Ssz>::strict() }
    proof fn law_wf(&self) { (KS::<1> { x: self.a }).law_wf(); self.b.law_wf(); }
    proof fn law_len(v: (<KS::<1> as Ssz>::V, <B as Ssz>::V, )) { <(KS::<1>, B, ) as Ssz>::law_len(v); }
    proof fn law_flen() { <(KS::<1>, B, ) as Ssz>::law_flen(); }
    proof fn law_dec(b: Seq<u8>) { <(KS::<1>, B, ) as Ssz>::law_dec(b); }
    proof fn law_rt(v: (<KS::<1> as Ssz>::V, <B as Ssz>::V, )) { <(KS::<1>, B, ) as Ssz>::law_rt(v); }
    proof fn law_strict(b: Seq<u8>) { <(KS::<1>, B, ) as Ssz>::law_strict(b); }
}

@@ impl Encode for DvK2A<B>
@@ fn Encode for DvK2A<B>::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvK2A<B>::ssz_fixed_len
@props C07 C08
@@ fn Encode for DvK2A<B>::ssz_bytes_len
@props C07 C08
@start
    proof { self.law_wf(); lemma_sum2::<KS::<1>, B>(self.v()); }
@at /^if (?!.*Self)/ 1
    assert(len == plen(part::<KS::<1>>(self.v().0)));
@@ fn Encode for DvK2A<B>::ssz_append
@props C01 C03 C08
@start
    let ghost b0 = buf@;
    proof {
        let ps = parts2::<KS::<1>, B>(self.v());
        self.law_wf();
        lemma_sum2::<KS::<1>, B>(self.v());
        lemma_takes2::<KS::<1>, B>(self.v());
        lemma_part_len(ps, 0); lemma_part_len(ps, 1);
    }
@closure 0
    |$0: &mut Vec<u8>|
        requires KS::<1>::ok(), (KS::<1> { x: self.a }).wf(), small(KS::<1>::enc((KS::<1> { x: self.a }).v()).len())
        ensures final($0)@ == old($0)@ + KS::<1>::enc((KS::<1> { x: self.a }).v())
@at /^encoder\./ 1
    proof {
        assert(part::<KS::<1>>(self.v().0) == (KS::<1>::fixed(), KS::<1>::enc(self.v().0)));
        assert(encoder.state(b0, Seq::<Part>::empty().push(part::<KS::<1>>(self.v().0)), sum2::<KS::<1>, B>() as int));
    }
@@ impl Decode for DvK2A<B>
@@ fn Decode for DvK2A<B>::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvK2A<B>::ssz_fixed_len
@props C07 C08
@@ fn Decode for DvK2A<B>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08
@closure 0
    |$0: &[u8]| -> (q: Result<F1, DecodeError>)
        requires KS::<1>::ok(), $0@.len() <= mem_limit()
        ensures
            q is Ok ==> KS::<1>::dec($0@) == Some((KS::<1> { x: q->Ok_0 }).v()) && (KS::<1> { x: q->Ok_0 }).wf(),
            q is Err ==> KS::<1>::dec($0@) is None
@start
    hide(split_ok);
    hide(prefix_ok);
    hide(piece);
    let ghost gb = bytes@;
    let ghost gl = lay2::<KS::<1>, B>();
    proof {
        assert(gl[0] == slot::<KS::<1>>()); assert(gl[1] == slot::<B>());
        KS::<1>::law_flen();
        if split_ok(gb, gl) { lemma_pieces_le(gb, gl); }
        if Self::fixed() {
            lemma_cut_fixed(gb, gl);
        }
    }
@at /^let a =/
    proof { assert(slice@ =~= piece(gb, gl, 0)); assert(bytes@ =~= gb.skip(start(gl, 1))); }
@at /^let b =/
    proof { assert(slice@ =~= piece(gb, gl, 1)); assert(bytes@ =~= gb.skip(start(gl, 2))); }

@@ module dvk2b private
@@ item DvK2B
@@ raw
impl<A: Encode + Decode> Ssz for DvK2B<A> {
    type V = (<A as Ssz>::V, <KS::<1> as Ssz>::V, );
    open spec fn v(&self) -> (<A as Ssz>::V, <KS::<1> as Ssz>::V, ) { (self.a.v(), (KS::<1> { x: self.b }).v(), ) }
    open spec fn wf(&self) -> bool { self.a.wf() && (KS::<1> { x: self.b }).wf() }
    open spec fn valid(v: (<A as Ssz>::V, <KS::<1> as Ssz>::V, )) -> bool { <(A, KS::<1>, ) as Ssz>::valid(v) }
    open spec fn ok() -> bool { <(A, KS::<1>, ) as Ssz>::ok() }
    open spec fn fixed() -> bool { <(A, KS::<1>, ) as Ssz>::fixed() }
    open spec fn flen() -> nat { <(A, KS::<1>, ) as Ssz>::flen() }
    open spec fn enc(v: (<A as Ssz>::V, <KS::<1> as Ssz>::V, )) -> Seq<u8> { <(A, KS::<1>, ) as Ssz>::enc(v) }
    open spec fn dec(b: Seq<u8>) -> Option<(<A as Ssz>::V, <KS::<1> as Ssz>::V, )> { <(A, KS::<1>, ) as Ssz>::dec(b) }
    open spec fn rt() -> bool { <(A, KS::<1>, ) as Ssz>::rt() }
    open spec fn strict() -> bool { <(A, KS::<1>, ) as Ssz>::strict() }
    proof fn law_wf(&self) { self.a.law_wf(); (KS::<1> { x: self.b }).law_wf(); }
    proof fn law_len(v: (<A as Ssz>::V, <KS::<1> as Ssz>::V, )) { <(A, KS::<1>, ) as Ssz>::law_len(v); }
    proof fn law_flen() { <(A, KS::<1>, ) as Ssz>::law_flen(); }
    proof fn law_dec(b: Seq<u8>) { <(A, KS::<1>, ) as Ssz>::law_dec(b); }
    proof fn law_rt(v: (<A as Ssz>::V, <KS::<1> as Ssz>::V, )) { <(A, KS::<1>, ) as Ssz>::law_rt(v); }
    proof fn law_strict(b: Seq<u8>) { <(A, KS::<1>, ) as Ssz>::law_strict(b); }
}

@@ impl Encode for DvK2B<A>
@@ fn Encode for DvK2B<A>::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvK2B<A>::ssz_fixed_len
@props C07 C08
@@ fn Encode for DvK2B<A>::ssz_bytes_len
@props C07 C08
@start
    proof { self.law_wf(); lemma_sum2::<A, KS::<1>>(self.v()); }
@at /^if (?!.*Self)/ 1
    assert(len == plen(part::<A>(self.v().0)));
@@ fn Encode for DvK2B<A>::ssz_append
@props C01 C03 C08
@start
    let ghost b0 = buf@;
    proof {
        let ps = parts2::<A, KS::<1>>(self.v());
        self.law_wf();
        lemma_sum2::<A, KS::<1>>(self.v());
        lemma_takes2::<A, KS::<1>>(self.v());
        lemma_part_len(ps, 0); lemma_part_len(ps, 1);
    }
@closure 0
    |$0: &mut Vec<u8>|
        requires KS::<1>::ok(), (KS::<1> { x: self.b }).wf(), small(KS::<1>::enc((KS::<1> { x: self.b }).v()).len())
        ensures final($0)@ == old($0)@ + KS::<1>::enc((KS::<1> { x: self.b }).v())
@at /^encoder\./ 2
    proof {
        assert(part::<KS::<1>>(self.v().1) == (KS::<1>::fixed(), KS::<1>::enc(self.v().1)));
        assert(encoder.state(b0, Seq::<Part>::empty().push(part::<A>(self.v().0)).push(part::<KS::<1>>(self.v().1)), sum2::<A, KS::<1>>() as int));
    }
@@ impl Decode for DvK2B<A>
@@ fn Decode for DvK2B<A>::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvK2B<A>::ssz_fixed_len
@props C07 C08
@@ fn Decode for DvK2B<A>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08
@closure 0
    |$0: &[u8]| -> (q: Result<F1, DecodeError>)
        requires KS::<1>::ok(), $0@.len() <= mem_limit()
        ensures
            q is Ok ==> KS::<1>::dec($0@) == Some((KS::<1> { x: q->Ok_0 }).v()) && (KS::<1> { x: q->Ok_0 }).wf(),
            q is Err ==> KS::<1>::dec($0@) is None
@start
    hide(split_ok);
    hide(prefix_ok);
    hide(piece);
    let ghost gb = bytes@;
    let ghost gl = lay2::<A, KS::<1>>();
    proof {
        assert(gl[0] == slot::<A>()); assert(gl[1] == slot::<KS::<1>>());
        KS::<1>::law_flen();
        if split_ok(gb, gl) { lemma_pieces_le(gb, gl); }
        if Self::fixed() {
            lemma_cut_fixed(gb, gl);
        }
    }
@at /^let a =/
    proof { assert(slice@ =~= piece(gb, gl, 0)); assert(bytes@ =~= gb.skip(start(gl, 1))); }
@at /^let b =/
    proof { assert(slice@ =~= piece(gb, gl, 1)); assert(bytes@ =~= gb.skip(start(gl, 2))); }

@@ module dvk3 private
@@ item DvK3
@@ raw
impl<C: Encode + Decode> Ssz for DvK3<C> {
    type V = (<KS::<1> as Ssz>::V, <KS::<2> as Ssz>::V, <C as Ssz>::V, );
    open spec fn v(&self) -> (<KS::<1> as Ssz>::V, <KS::<2> as Ssz>::V, <C as Ssz>::V, ) { ((KS::<1> { x: self.a }).v(), (KS::<2> { x: self.b }).v(), self.c.v(), ) }
    open spec fn wf(&self) -> bool { (KS::<1> { x: self.a }).wf() && (KS::<2> { x: self.b }).wf() && self.c.wf() }
    open spec fn valid(v: (<KS::<1> as Ssz>::V, <KS::<2> as Ssz>::V, <C as Ssz>::V, )) -> bool { <(KS::<1>, KS::<2>, C, ) as Ssz>::valid(v) }
    open spec fn ok() -> bool { <(KS::<1>, KS::<2>, C, ) as Ssz>::ok() }
    open spec fn fixed() -> bool { <(KS::<1>, KS::<2>, C, ) as Ssz>::fixed() }
    open spec fn flen() -> nat { <(KS::<1>, KS::<2>, C, ) as Ssz>::flen() }
    open spec fn enc(v: (<KS::<1> as Ssz>::V, <KS::<2> as Ssz>::V, <C as Ssz>::V, )) -> Seq<u8> { <(KS::<1>, KS::<2>, C, ) as Ssz>::enc(v) }
    open spec fn dec(b: Seq<u8>) -> Option<(<KS::<1> as Ssz>::V, <KS::<2> as Ssz>::V, <C as Ssz>::V, )> { <(KS::<1>, KS::<2>, C, ) as Ssz>::dec(b) }
    open spec fn rt() -> bool { <(KS::<1>, KS::<2>, C, ) as Ssz>::rt() }
    open spec fn strict() -> bool { <(KS::<1>, KS::<2>, C, ) as Ssz>::strict() }
    proof fn law_wf(&self) { (KS::<1> { x: self.a }).law_wf(); (KS::<2> { x: self.b }).law_wf(); self.c.law_wf(); }
    proof fn law_len(v: (<KS::<1> as Ssz>::V, <KS::<2> as Ssz>::V, <C as Ssz>::V, )) { <(KS::<1>, KS::<2>, C, ) as Ssz>::law_len(v); }
    proof fn law_flen() { <(KS::<1>, KS::<2>, C, ) as Ssz>::law_flen(); }
    proof fn law_dec(b: Seq<u8>) { <(KS::<1>, KS::<2>, C, ) as Ssz>::law_dec(b); }
    proof fn law_rt(v: (<KS::<1> as Ssz>::V, <KS::<2> as Ssz>::V, <C as Ssz>::V, )) { <(KS::<1>, KS::<2>, C, ) as Ssz>::law_rt(v); }
    proof fn law_strict(b: Seq<u8>) { <(KS::<1>, KS::<2>, C, ) as Ssz>::law_strict(b); }
}

@@ impl Encode for DvK3<C>
@@ fn Encode for DvK3<C>::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvK3<C>::ssz_fixed_len
@props C07 C08
@@ fn Encode for DvK3<C>::ssz_bytes_len
@props C07 C08
@start
    proof { self.law_wf(); lemma_sum3::<KS::<1>, KS::<2>, C>(self.v()); }
@at /^if (?!.*Self)/ 1
    assert(len == plen(part::<KS::<1>>(self.v().0)));
@at /^if (?!.*Self)/ 2
    assert(len == plen(part::<KS::<1>>(self.v().0)) + plen(part::<KS::<2>>(self.v().1)));
@@ fn Encode for DvK3<C>::ssz_append
@props C01 C03 C08
@start
    let ghost b0 = buf@;
    proof {
        let ps = parts3::<KS::<1>, KS::<2>, C>(self.v());
        self.law_wf();
        lemma_sum3::<KS::<1>, KS::<2>, C>(self.v());
        lemma_takes3::<KS::<1>, KS::<2>, C>(self.v());
        lemma_part_len(ps, 0); lemma_part_len(ps, 1); lemma_part_len(ps, 2);
    }
@closure 0
    |$0: &mut Vec<u8>|
        requires KS::<1>::ok(), (KS::<1> { x: self.a }).wf(), small(KS::<1>::enc((KS::<1> { x: self.a }).v()).len())
        ensures final($0)@ == old($0)@ + KS::<1>::enc((KS::<1> { x: self.a }).v())
@at /^encoder\./ 1
    proof {
        assert(part::<KS::<1>>(self.v().0) == (KS::<1>::fixed(), KS::<1>::enc(self.v().0)));
        assert(encoder.state(b0, Seq::<Part>::empty().push(part::<KS::<1>>(self.v().0)), sum3::<KS::<1>, KS::<2>, C>() as int));
    }
@closure 1
    |$0: &mut Vec<u8>|
        requires KS::<2>::ok(), (KS::<2> { x: self.b }).wf(), small(KS::<2>::enc((KS::<2> { x: self.b }).v()).len())
        ensures final($0)@ == old($0)@ + KS::<2>::enc((KS::<2> { x: self.b }).v())
@at /^encoder\./ 2
    proof {
        assert(part::<KS::<2>>(self.v().1) == (KS::<2>::fixed(), KS::<2>::enc(self.v().1)));
        assert(encoder.state(b0, Seq::<Part>::empty().push(part::<KS::<1>>(self.v().0)).push(part::<KS::<2>>(self.v().1)), sum3::<KS::<1>, KS::<2>, C>() as int));
    }
@@ impl Decode for DvK3<C>
@@ fn Decode for DvK3<C>::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvK3<C>::ssz_fixed_len
@props C07 C08
@@ fn Decode for DvK3<C>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08
@closure 0
    |$0: &[u8]| -> (q: Result<F1, DecodeError>)
        requires KS::<1>::ok(), $0@.len() <= mem_limit()
        ensures
            q is Ok ==> KS::<1>::dec($0@) == Some((KS::<1> { x: q->Ok_0 }).v()) && (KS::<1> { x: q->Ok_0 }).wf(),
            q is Err ==> KS::<1>::dec($0@) is None
@closure 1
    |$0: &[u8]| -> (q: Result<F2, DecodeError>)
        requires KS::<2>::ok(), $0@.len() <= mem_limit()
        ensures
            q is Ok ==> KS::<2>::dec($0@) == Some((KS::<2> { x: q->Ok_0 }).v()) && (KS::<2> { x: q->Ok_0 }).wf(),
            q is Err ==> KS::<2>::dec($0@) is None
@start
    hide(split_ok);
    hide(prefix_ok);
    hide(piece);
    let ghost gb = bytes@;
    let ghost gl = lay3::<KS::<1>, KS::<2>, C>();
    proof {
        assert(gl[0] == slot::<KS::<1>>()); assert(gl[1] == slot::<KS::<2>>()); assert(gl[2] == slot::<C>());
        KS::<1>::law_flen(); KS::<2>::law_flen();
        if split_ok(gb, gl) { lemma_pieces_le(gb, gl); }
        if Self::fixed() {
            lemma_cut_fixed(gb, gl);
        }
    }
@at /^let a =/
    proof { assert(slice@ =~= piece(gb, gl, 0)); assert(bytes@ =~= gb.skip(start(gl, 1))); }
@at /^let b =/
    proof { assert(slice@ =~= piece(gb, gl, 1)); assert(bytes@ =~= gb.skip(start(gl, 2))); }
@at /^let c =/
    proof { assert(slice@ =~= piece(gb, gl, 2)); assert(bytes@ =~= gb.skip(start(gl, 3))); }

@@ module dvk5 private
@@ item DvK5
@@ raw
impl<A: Encode + Decode, C: VDefault, D: Encode + Decode> Ssz for DvK5<A, C, D> {
    type V = (<A as Ssz>::V, <KS::<1> as Ssz>::V, <D as Ssz>::V, <KS::<2> as Ssz>::V, );
    open spec fn v(&self) -> (<A as Ssz>::V, <KS::<1> as Ssz>::V, <D as Ssz>::V, <KS::<2> as Ssz>::V, ) { (self.a.v(), (KS::<1> { x: self.b }).v(), self.d.v(), (KS::<2> { x: self.e }).v(), ) }
    open spec fn wf(&self) -> bool { self.a.wf() && (KS::<1> { x: self.b }).wf() && self.d.wf() && (KS::<2> { x: self.e }).wf() }
    open spec fn valid(v: (<A as Ssz>::V, <KS::<1> as Ssz>::V, <D as Ssz>::V, <KS::<2> as Ssz>::V, )) -> bool { <(A, KS::<1>, D, KS::<2>, ) as Ssz>::valid(v) }
    open spec fn ok() -> bool { <(A, KS::<1>, D, KS::<2>, ) as Ssz>::ok() }
    open spec fn fixed() -> bool { <(A, KS::<1>, D, KS::<2>, ) as Ssz>::fixed() }
    open spec fn flen() -> nat { <(A, KS::<1>, D, KS::<2>, ) as Ssz>::flen() }
    open spec fn enc(v: (<A as Ssz>::V, <KS::<1> as Ssz>::V, <D as Ssz>::V, <KS::<2> as Ssz>::V, )) -> Seq<u8> { <(A, KS::<1>, D, KS::<2>, ) as Ssz>::enc(v) }
    open spec fn dec(b: Seq<u8>) -> Option<(<A as Ssz>::V, <KS::<1> as Ssz>::V, <D as Ssz>::V, <KS::<2> as Ssz>::V, )> { <(A, KS::<1>, D, KS::<2>, ) as Ssz>::dec(b) }
    open spec fn rt() -> bool { <(A, KS::<1>, D, KS::<2>, ) as Ssz>::rt() }
    open spec fn strict() -> bool { <(A, KS::<1>, D, KS::<2>, ) as Ssz>::strict() }
    proof fn law_wf(&self) { self.a.law_wf(); (KS::<1> { x: self.b }).law_wf(); self.d.law_wf(); (KS::<2> { x: self.e }).law_wf(); }
    proof fn law_len(v: (<A as Ssz>::V, <KS::<1> as Ssz>::V, <D as Ssz>::V, <KS::<2> as Ssz>::V, )) { <(A, KS::<1>, D, KS::<2>, ) as Ssz>::law_len(v); }
    proof fn law_flen() { <(A, KS::<1>, D, KS::<2>, ) as Ssz>::law_flen(); }
    proof fn law_dec(b: Seq<u8>) { <(A, KS::<1>, D, KS::<2>, ) as Ssz>::law_dec(b); }
    proof fn law_rt(v: (<A as Ssz>::V, <KS::<1> as Ssz>::V, <D as Ssz>::V, <KS::<2> as Ssz>::V, )) { <(A, KS::<1>, D, KS::<2>, ) as Ssz>::law_rt(v); }
    proof fn law_strict(b: Seq<u8>) { <(A, KS::<1>, D, KS::<2>, ) as Ssz>::law_strict(b); }
}

@@ impl Encode for DvK5<A,C,D>
@@ fn Encode for DvK5<A,C,D>::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvK5<A,C,D>::ssz_fixed_len
@props C07 C08
@@ fn Encode for DvK5<A,C,D>::ssz_bytes_len
@props C07 C08
@start
    proof { self.law_wf(); lemma_sum4::<A, KS::<1>, D, KS::<2>>(self.v()); }
@at /^if (?!.*Self)/ 1
    assert(len == plen(part::<A>(self.v().0)));
@at /^if (?!.*Self)/ 2
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<KS::<1>>(self.v().1)));
@at /^if (?!.*Self)/ 3
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<KS::<1>>(self.v().1)) + plen(part::<D>(self.v().2)));
@@ fn Encode for DvK5<A,C,D>::ssz_append
@props C01 C03 C08
@start
    let ghost b0 = buf@;
    proof {
        let ps = parts4::<A, KS::<1>, D, KS::<2>>(self.v());
        self.law_wf();
        lemma_sum4::<A, KS::<1>, D, KS::<2>>(self.v());
        lemma_takes4::<A, KS::<1>, D, KS::<2>>(self.v());
        lemma_part_len(ps, 0); lemma_part_len(ps, 1); lemma_part_len(ps, 2); lemma_part_len(ps, 3);
    }
@closure 0
    |$0: &mut Vec<u8>|
        requires KS::<1>::ok(), (KS::<1> { x: self.b }).wf(), small(KS::<1>::enc((KS::<1> { x: self.b }).v()).len())
        ensures final($0)@ == old($0)@ + KS::<1>::enc((KS::<1> { x: self.b }).v())
@at /^encoder\./ 2
    proof {
        assert(part::<KS::<1>>(self.v().1) == (KS::<1>::fixed(), KS::<1>::enc(self.v().1)));
        assert(encoder.state(b0, Seq::<Part>::empty().push(part::<A>(self.v().0)).push(part::<KS::<1>>(self.v().1)), sum4::<A, KS::<1>, D, KS::<2>>() as int));
    }
@closure 1
    |$0: &mut Vec<u8>|
        requires KS::<2>::ok(), (KS::<2> { x: self.e }).wf(), small(KS::<2>::enc((KS::<2> { x: self.e }).v()).len())
        ensures final($0)@ == old($0)@ + KS::<2>::enc((KS::<2> { x: self.e }).v())
@at /^encoder\./ 4
    proof {
        assert(part::<KS::<2>>(self.v().3) == (KS::<2>::fixed(), KS::<2>::enc(self.v().3)));
        assert(encoder.state(b0, Seq::<Part>::empty().push(part::<A>(self.v().0)).push(part::<KS::<1>>(self.v().1)).push(part::<D>(self.v().2)).push(part::<KS::<2>>(self.v().3)), sum4::<A, KS::<1>, D, KS::<2>>() as int));
    }
@@ impl Decode for DvK5<A,C,D>
@@ fn Decode for DvK5<A,C,D>::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvK5<A,C,D>::ssz_fixed_len
@props C07 C08
@@ fn Decode for DvK5<A,C,D>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08
@spec
    ensures r is Ok ==> r->Ok_0.c.is_default()
@closure 0
    |$0: &[u8]| -> (q: Result<F1, DecodeError>)
        requires KS::<1>::ok(), $0@.len() <= mem_limit()
        ensures
            q is Ok ==> KS::<1>::dec($0@) == Some((KS::<1> { x: q->Ok_0 }).v()) && (KS::<1> { x: q->Ok_0 }).wf(),
            q is Err ==> KS::<1>::dec($0@) is None
@closure 1
    |$0: &[u8]| -> (q: Result<F2, DecodeError>)
        requires KS::<2>::ok(), $0@.len() <= mem_limit()
        ensures
            q is Ok ==> KS::<2>::dec($0@) == Some((KS::<2> { x: q->Ok_0 }).v()) && (KS::<2> { x: q->Ok_0 }).wf(),
            q is Err ==> KS::<2>::dec($0@) is None
@start
    hide(split_ok);
    hide(prefix_ok);
    hide(piece);
    let ghost gb = bytes@;
    let ghost gl = lay4::<A, KS::<1>, D, KS::<2>>();
    proof {
        assert(gl[0] == slot::<A>()); assert(gl[1] == slot::<KS::<1>>()); assert(gl[2] == slot::<D>()); assert(gl[3] == slot::<KS::<2>>());
        KS::<1>::law_flen(); KS::<2>::law_flen();
        if split_ok(gb, gl) { lemma_pieces_le(gb, gl); }
        if Self::fixed() {
            lemma_cut_fixed(gb, gl);
        }
    }
@at /^let a =/
    proof { assert(slice@ =~= piece(gb, gl, 0)); assert(bytes@ =~= gb.skip(start(gl, 1))); }
@at /^let b =/
    proof { assert(slice@ =~= piece(gb, gl, 1)); assert(bytes@ =~= gb.skip(start(gl, 2))); }
@at /^let d =/
    proof { assert(slice@ =~= piece(gb, gl, 2)); assert(bytes@ =~= gb.skip(start(gl, 3))); }
@at /^let e =/
    proof { assert(slice@ =~= piece(gb, gl, 3)); assert(bytes@ =~= gb.skip(start(gl, 4))); }

@@ module dvo2 private
@@ item DvO2
@@ raw
impl<B: Encode + Decode> Ssz for DvO2<B> {
    type V = (<OptP as Ssz>::V, <B as Ssz>::V, );
    open spec fn v(&self) -> (<OptP as Ssz>::V, <B as Ssz>::V, ) { ((OptP { x: self.a }).v(), self.b.v(), ) }
    open spec fn wf(&self) -> bool { (OptP { x: self.a }).wf() && self.b.wf() }
    open spec fn valid(v: (<OptP as Ssz>::V, <B as Ssz>::V, )) -> bool { <(OptP, B, ) as Ssz>::valid(v) }
    open spec fn ok() -> bool { <(OptP, B, ) as Ssz>::ok() }
    open spec fn fixed() -> bool { <(OptP, B, ) as Ssz>::fixed() }
    open spec fn flen() -> nat { <(OptP, B, ) as Ssz>::flen() }
    open spec fn enc(v: (<OptP as Ssz>::V, <B as Ssz>::V, )) -> Seq<u8> { <(OptP, B, ) as Ssz>::enc(v) }
    open spec fn dec(b: Seq<u8>) -> Option<(<OptP as Ssz>::V, <B as Ssz>::V, )> { <(OptP, B, ) as Ssz>::dec(b) }
    open spec fn rt() -> bool { <(OptP, B, ) as Ssz>::rt() }
    open spec fn strict() -> bool { <(OptP, B, ) as Ssz>::strict() }
    proof fn law_wf(&self) { (OptP { x: self.a }).law_wf(); self.b.law_wf(); }
    proof fn law_len(v: (<OptP as Ssz>::V, <B as Ssz>::V, )) { <(OptP, B, ) as Ssz>::law_len(v); }
    proof fn law_flen() { <(OptP, B, ) as Ssz>::law_flen(); }
    proof fn law_dec(b: Seq<u8>) { <(OptP, B, ) as Ssz>::law_dec(b); }
    proof fn law_rt(v: (<OptP as Ssz>::V, <B as Ssz>::V, )) { <(OptP, B, ) as Ssz>::law_rt(v); }
    proof fn law_strict(b: Seq<u8>) { <(OptP, B, ) as Ssz>::law_strict(b); }
}

@@ impl Encode for DvO2<B>
@@ fn Encode for DvO2<B>::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvO2<B>::ssz_fixed_len
@props C07 C08
@@ fn Encode for DvO2<B>::ssz_bytes_len
@props C07 C08
@start
    proof { self.law_wf(); lemma_sum2::<OptP, B>(self.v()); }
@at /^if (?!.*Self)/ 1
    assert(len == plen(part::<OptP>(self.v().0)));
@@ fn Encode for DvO2<B>::ssz_append
@props C01 C03 C08 C17
@start
    let ghost b0 = buf@;
    proof {
        let ps = parts2::<OptP, B>(self.v());
        self.law_wf();
        lemma_sum2::<OptP, B>(self.v());
        lemma_takes2::<OptP, B>(self.v());
        lemma_part_len(ps, 0); lemma_part_len(ps, 1);
    }
@closure 0
    |$0: &mut Vec<u8>|
        requires OptP::ok(), (OptP { x: self.a }).wf(), small(OptP::enc((OptP { x: self.a }).v()).len())
        ensures final($0)@ == old($0)@ + OptP::enc((OptP { x: self.a }).v())
@at /^encoder\./ 1
    proof {
        assert(part::<OptP>(self.v().0) == (OptP::fixed(), OptP::enc(self.v().0)));
        assert(encoder.state(b0, Seq::<Part>::empty().push(part::<OptP>(self.v().0)), sum2::<OptP, B>() as int));
    }
@@ impl Decode for DvO2<B>
@@ fn Decode for DvO2<B>::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvO2<B>::ssz_fixed_len
@props C07 C08
@@ fn Decode for DvO2<B>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08 C17
@closure 0
    |$0: &[u8]| -> (q: Result<Option<P>, DecodeError>)
        requires OptP::ok(), $0@.len() <= mem_limit()
        ensures
            q is Ok ==> OptP::dec($0@) == Some((OptP { x: q->Ok_0 }).v()) && (OptP { x: q->Ok_0 }).wf(),
            q is Err ==> OptP::dec($0@) is None
@start
    hide(split_ok);
    hide(prefix_ok);
    hide(piece);
    let ghost gb = bytes@;
    let ghost gl = lay2::<OptP, B>();
    proof {
        assert(gl[0] == slot::<OptP>()); assert(gl[1] == slot::<B>());
        OptP::law_flen();
        if split_ok(gb, gl) { lemma_pieces_le(gb, gl); }
        if Self::fixed() {
            lemma_cut_fixed(gb, gl);
        }
    }
@at /^let a =/
    proof { assert(slice@ =~= piece(gb, gl, 0)); assert(bytes@ =~= gb.skip(start(gl, 1))); }
@at /^let b =/
    proof { assert(slice@ =~= piece(gb, gl, 1)); assert(bytes@ =~= gb.skip(start(gl, 2))); }

@@ module dvo3 private
@@ item DvO3
@@ raw
impl<A: Encode + Decode, C: Encode + Decode> Ssz for DvO3<A, C> {
    type V = (<A as Ssz>::V, <OptP as Ssz>::V, <C as Ssz>::V, );
    open spec fn v(&self) -> (<A as Ssz>::V, <OptP as Ssz>::V, <C as Ssz>::V, ) { (self.a.v(), (OptP { x: self.b }).v(), self.c.v(), ) }
    open spec fn wf(&self) -> bool { self.a.wf() && (OptP { x: self.b }).wf() && self.c.wf() }
    open spec fn valid(v: (<A as Ssz>::V, <OptP as Ssz>::V, <C as Ssz>::V, )) -> bool { <(A, OptP, C, ) as Ssz>::valid(v) }
    open spec fn ok() -> bool { <(A, OptP, C, ) as Ssz>::ok() }
    open spec fn fixed() -> bool { <(A, OptP, C, ) as Ssz>::fixed() }
    open spec fn flen() -> nat { <(A, OptP, C, ) as Ssz>::flen() }
    open spec fn enc(v: (<A as Ssz>::V, <OptP as Ssz>::V, <C as Ssz>::V, )) -> Seq<u8> { <(A, OptP, C, ) as Ssz>::enc(v) }
    open spec fn dec(b: Seq<u8>) -> Option<(<A as Ssz>::V, <OptP as Ssz>::V, <C as Ssz>::V, )> { <(A, OptP, C, ) as Ssz>::dec(b) }
    open spec fn rt() -> bool { <(A, OptP, C, ) as Ssz>::rt() }
    open spec fn strict() -> bool { <(A, OptP, C, ) as Ssz>::strict() }
    proof fn law_wf(&self) { self.a.law_wf(); (OptP { x: self.b }).law_wf(); self.c.law_wf(); }
    proof fn law_len(v: (<A as Ssz>::V, <OptP as Ssz>::V, <C as Ssz>::V, )) { <(A, OptP, C, ) as Ssz>::law_len(v); }
    proof fn law_flen() { <(A, OptP, C, ) as Ssz>::law_flen(); }
    proof fn law_dec(b: Seq<u8>) { <(A, OptP, C, ) as Ssz>::law_dec(b); }
    proof fn law_rt(v: (<A as Ssz>::V, <OptP as Ssz>::V, <C as Ssz>::V, )) { <(A, OptP, C, ) as Ssz>::law_rt(v); }
    proof fn law_strict(b: Seq<u8>) { <(A, OptP, C, ) as Ssz>::law_strict(b); }
}

@@ impl Encode for DvO3<A,C>
@@ fn Encode for DvO3<A,C>::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvO3<A,C>::ssz_fixed_len
@props C07 C08
@@ fn Encode for DvO3<A,C>::ssz_bytes_len
@props C07 C08
@start
    proof { self.law_wf(); lemma_sum3::<A, OptP, C>(self.v()); }
@at /^if (?!.*Self)/ 1
    assert(len == plen(part::<A>(self.v().0)));
@at /^if (?!.*Self)/ 2
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<OptP>(self.v().1)));
@@ fn Encode for DvO3<A,C>::ssz_append
@props C01 C03 C08 C17
@start
    let ghost b0 = buf@;
    proof {
        let ps = parts3::<A, OptP, C>(self.v());
        self.law_wf();
        lemma_sum3::<A, OptP, C>(self.v());
        lemma_takes3::<A, OptP, C>(self.v());
        lemma_part_len(ps, 0); lemma_part_len(ps, 1); lemma_part_len(ps, 2);
    }
@closure 0
    |$0: &mut Vec<u8>|
        requires OptP::ok(), (OptP { x: self.b }).wf(), small(OptP::enc((OptP { x: self.b }).v()).len())
        ensures final($0)@ == old($0)@ + OptP::enc((OptP { x: self.b }).v())
@at /^encoder\./ 2
    proof {
        assert(part::<OptP>(self.v().1) == (OptP::fixed(), OptP::enc(self.v().1)));
        assert(encoder.state(b0, Seq::<Part>::empty().push(part::<A>(self.v().0)).push(part::<OptP>(self.v().1)), sum3::<A, OptP, C>() as int));
    }
@@ impl Decode for DvO3<A,C>
@@ fn Decode for DvO3<A,C>::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvO3<A,C>::ssz_fixed_len
@props C07 C08
@@ fn Decode for DvO3<A,C>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08 C17
@closure 0
    |$0: &[u8]| -> (q: Result<Option<P>, DecodeError>)
        requires OptP::ok(), $0@.len() <= mem_limit()
        ensures
            q is Ok ==> OptP::dec($0@) == Some((OptP { x: q->Ok_0 }).v()) && (OptP { x: q->Ok_0 }).wf(),
            q is Err ==> OptP::dec($0@) is None
@start
    hide(split_ok);
    hide(prefix_ok);
    hide(piece);
    let ghost gb = bytes@;
    let ghost gl = lay3::<A, OptP, C>();
    proof {
        assert(gl[0] == slot::<A>()); assert(gl[1] == slot::<OptP>()); assert(gl[2] == slot::<C>());
        OptP::law_flen();
        if split_ok(gb, gl) { lemma_pieces_le(gb, gl); }
        if Self::fixed() {
            lemma_cut_fixed(gb, gl);
        }
    }
@at /^let a =/
    proof { assert(slice@ =~= piece(gb, gl, 0)); assert(bytes@ =~= gb.skip(start(gl, 1))); }
@at /^let b =/
    proof { assert(slice@ =~= piece(gb, gl, 1)); assert(bytes@ =~= gb.skip(start(gl, 2))); }
@at /^let c =/
    proof { assert(slice@ =~= piece(gb, gl, 2)); assert(bytes@ =~= gb.skip(start(gl, 3))); }

@@ module dvxe3 private
@@ item DvXE3
@@ raw
impl<A, B: Encode, C: Encode> Ssz for DvXE3<A, B, C> {
    type V = (<B as Ssz>::V, <C as Ssz>::V, );
    open spec fn v(&self) -> (<B as Ssz>::V, <C as Ssz>::V, ) { (self.b.v(), self.c.v(), ) }
    open spec fn wf(&self) -> bool { self.b.wf() && self.c.wf() }
    open spec fn valid(v: (<B as Ssz>::V, <C as Ssz>::V, )) -> bool { <(B, C, ) as Ssz>::valid(v) }
    open spec fn ok() -> bool { <(B, C, ) as Ssz>::ok() }
    open spec fn fixed() -> bool { <(B, C, ) as Ssz>::fixed() }
    open spec fn flen() -> nat { <(B, C, ) as Ssz>::flen() }
    open spec fn enc(v: (<B as Ssz>::V, <C as Ssz>::V, )) -> Seq<u8> { <(B, C, ) as Ssz>::enc(v) }
    open spec fn dec(b: Seq<u8>) -> Option<(<B as Ssz>::V, <C as Ssz>::V, )> { <(B, C, ) as Ssz>::dec(b) }
    open spec fn rt() -> bool { <(B, C, ) as Ssz>::rt() }
    open spec fn strict() -> bool { <(B, C, ) as Ssz>::strict() }
    proof fn law_wf(&self) { self.b.law_wf(); self.c.law_wf(); }
    proof fn law_len(v: (<B as Ssz>::V, <C as Ssz>::V, )) { <(B, C, ) as Ssz>::law_len(v); }
    proof fn law_flen() { <(B, C, ) as Ssz>::law_flen(); }
    proof fn law_dec(b: Seq<u8>) { <(B, C, ) as Ssz>::law_dec(b); }
    proof fn law_rt(v: (<B as Ssz>::V, <C as Ssz>::V, )) { <(B, C, ) as Ssz>::law_rt(v); }
    proof fn law_strict(b: Seq<u8>) { <(B, C, ) as Ssz>::law_strict(b); }
}

@@ impl Encode for DvXE3<A,B,C>
@@ fn Encode for DvXE3<A,B,C>::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvXE3<A,B,C>::ssz_fixed_len
@props C07 C08
@@ fn Encode for DvXE3<A,B,C>::ssz_bytes_len
@props C07 C08
@start
    proof { self.law_wf(); lemma_sum2::<B, C>(self.v()); }
@at /^if (?!.*Self)/ 1
    assert(len == plen(part::<B>(self.v().0)));
@@ fn Encode for DvXE3<A,B,C>::ssz_append
@props C01 C03 C08
@start
    let ghost b0 = buf@;
    proof {
        let ps = parts2::<B, C>(self.v());
        self.law_wf();
        lemma_sum2::<B, C>(self.v());
        lemma_takes2::<B, C>(self.v());
        lemma_part_len(ps, 0); lemma_part_len(ps, 1);
    }

@@ module dvxd3 private
@@ item DvXD3
@@ raw
impl<A: Decode, B: Decode, C: VDefault> Ssz for DvXD3<A, B, C> {
    type V = (<A as Ssz>::V, <B as Ssz>::V, );
    open spec fn v(&self) -> (<A as Ssz>::V, <B as Ssz>::V, ) { (self.a.v(), self.b.v(), ) }
    open spec fn wf(&self) -> bool { self.a.wf() && self.b.wf() }
    open spec fn valid(v: (<A as Ssz>::V, <B as Ssz>::V, )) -> bool { <(A, B, ) as Ssz>::valid(v) }
    open spec fn ok() -> bool { <(A, B, ) as Ssz>::ok() }
    open spec fn fixed() -> bool { <(A, B, ) as Ssz>::fixed() }
    open spec fn flen() -> nat { <(A, B, ) as Ssz>::flen() }
    open spec fn enc(v: (<A as Ssz>::V, <B as Ssz>::V, )) -> Seq<u8> { <(A, B, ) as Ssz>::enc(v) }
    open spec fn dec(b: Seq<u8>) -> Option<(<A as Ssz>::V, <B as Ssz>::V, )> { <(A, B, ) as Ssz>::dec(b) }
    open spec fn rt() -> bool { <(A, B, ) as Ssz>::rt() }
    open spec fn strict() -> bool { <(A, B, ) as Ssz>::strict() }
    proof fn law_wf(&self) { self.a.law_wf(); self.b.law_wf(); }
    proof fn law_len(v: (<A as Ssz>::V, <B as Ssz>::V, )) { <(A, B, ) as Ssz>::law_len(v); }
    proof fn law_flen() { <(A, B, ) as Ssz>::law_flen(); }
    proof fn law_dec(b: Seq<u8>) { <(A, B, ) as Ssz>::law_dec(b); }
    proof fn law_rt(v: (<A as Ssz>::V, <B as Ssz>::V, )) { <(A, B, ) as Ssz>::law_rt(v); }
    proof fn law_strict(b: Seq<u8>) { <(A, B, ) as Ssz>::law_strict(b); }
}

@@ impl Decode for DvXD3<A,B,C>
@@ fn Decode for DvXD3<A,B,C>::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvXD3<A,B,C>::ssz_fixed_len
@props C07 C08
@@ fn Decode for DvXD3<A,B,C>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08
@spec
    ensures r is Ok ==> r->Ok_0.c.is_default()
@start
    hide(split_ok);
    hide(prefix_ok);
    hide(piece);
    let ghost gb = bytes@;
    let ghost gl = lay2::<A, B>();
    proof {
        assert(gl[0] == slot::<A>()); assert(gl[1] == slot::<B>());
        
        if split_ok(gb, gl) { lemma_pieces_le(gb, gl); }
        if Self::fixed() {
            lemma_cut_fixed(gb, gl);
        }
    }
@at /^let a =/
    proof { assert(slice@ =~= piece(gb, gl, 0)); assert(bytes@ =~= gb.skip(start(gl, 1))); }
@at /^let b =/
    proof { assert(slice@ =~= piece(gb, gl, 1)); assert(bytes@ =~= gb.skip(start(gl, 2))); }

@@ module dvxe4 private
@@ item DvXE4
@@ raw
impl<A: Encode, B, C, D: Encode> Ssz for DvXE4<A, B, C, D> {
    type V = (<A as Ssz>::V, <D as Ssz>::V, );
    open spec fn v(&self) -> (<A as Ssz>::V, <D as Ssz>::V, ) { (self.a.v(), self.d.v(), ) }
    open spec fn wf(&self) -> bool { self.a.wf() && self.d.wf() }
    open spec fn valid(v: (<A as Ssz>::V, <D as Ssz>::V, )) -> bool { <(A, D, ) as Ssz>::valid(v) }
    open spec fn ok() -> bool { <(A, D, ) as Ssz>::ok() }
    open spec fn fixed() -> bool { <(A, D, ) as Ssz>::fixed() }
    open spec fn flen() -> nat { <(A, D, ) as Ssz>::flen() }
    open spec fn enc(v: (<A as Ssz>::V, <D as Ssz>::V, )) -> Seq<u8> { <(A, D, ) as Ssz>::enc(v) }
    open spec fn dec(b: Seq<u8>) -> Option<(<A as Ssz>::V, <D as Ssz>::V, )> { <(A, D, ) as Ssz>::dec(b) }
    open spec fn rt() -> bool { <(A, D, ) as Ssz>::rt() }
    open spec fn strict() -> bool { <(A, D, ) as Ssz>::strict() }
    proof fn law_wf(&self) { self.a.law_wf(); self.d.law_wf(); }
    proof fn law_len(v: (<A as Ssz>::V, <D as Ssz>::V, )) { <(A, D, ) as Ssz>::law_len(v); }
    proof fn law_flen() { <(A, D, ) as Ssz>::law_flen(); }
    proof fn law_dec(b: Seq<u8>) { <(A, D, ) as Ssz>::law_dec(b); }
    proof fn law_rt(v: (<A as Ssz>::V, <D as Ssz>::V, )) { <(A, D, ) as Ssz>::law_rt(v); }
    proof fn law_strict(b: Seq<u8>) { <(A, D, ) as Ssz>::law_strict(b); }
}

@@ impl Encode for DvXE4<A,B,C,D>
@@ fn Encode for DvXE4<A,B,C,D>::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvXE4<A,B,C,D>::ssz_fixed_len
@props C07 C08
@@ fn Encode for DvXE4<A,B,C,D>::ssz_bytes_len
@props C07 C08
@start
    proof { self.law_wf(); lemma_sum2::<A, D>(self.v()); }
@at /^if (?!.*Self)/ 1
    assert(len == plen(part::<A>(self.v().0)));
@@ fn Encode for DvXE4<A,B,C,D>::ssz_append
@props C01 C03 C08
@start
    let ghost b0 = buf@;
    proof {
        let ps = parts2::<A, D>(self.v());
        self.law_wf();
        lemma_sum2::<A, D>(self.v());
        lemma_takes2::<A, D>(self.v());
        lemma_part_len(ps, 0); lemma_part_len(ps, 1);
    }

@@ module dvxd4 private
@@ item DvXD4
@@ raw
impl<A: VDefault, B: VDefault, C: Decode, D: Decode> Ssz for DvXD4<A, B, C, D> {
    type V = (<C as Ssz>::V, <D as Ssz>::V, );
    open spec fn v(&self) -> (<C as Ssz>::V, <D as Ssz>::V, ) { (self.c.v(), self.d.v(), ) }
    open spec fn wf(&self) -> bool { self.c.wf() && self.d.wf() }
    open spec fn valid(v: (<C as Ssz>::V, <D as Ssz>::V, )) -> bool { <(C, D, ) as Ssz>::valid(v) }
    open spec fn ok() -> bool { <(C, D, ) as Ssz>::ok() }
    open spec fn fixed() -> bool { <(C, D, ) as Ssz>::fixed() }
    open spec fn flen() -> nat { <(C, D, ) as Ssz>::flen() }
    open spec fn enc(v: (<C as Ssz>::V, <D as Ssz>::V, )) -> Seq<u8> { <(C, D, ) as Ssz>::enc(v) }
    open spec fn dec(b: Seq<u8>) -> Option<(<C as Ssz>::V, <D as Ssz>::V, )> { <(C, D, ) as Ssz>::dec(b) }
    open spec fn rt() -> bool { <(C, D, ) as Ssz>::rt() }
    open spec fn strict() -> bool { <(C, D, ) as Ssz>::strict() }
    proof fn law_wf(&self) { self.c.law_wf(); self.d.law_wf(); }
    proof fn law_len(v: (<C as Ssz>::V, <D as Ssz>::V, )) { <(C, D, ) as Ssz>::law_len(v); }
    proof fn law_flen() { <(C, D, ) as Ssz>::law_flen(); }
    proof fn law_dec(b: Seq<u8>) { <(C, D, ) as Ssz>::law_dec(b); }
    proof fn law_rt(v: (<C as Ssz>::V, <D as Ssz>::V, )) { <(C, D, ) as Ssz>::law_rt(v); }
    proof fn law_strict(b: Seq<u8>) { <(C, D, ) as Ssz>::law_strict(b); }
}

@@ impl Decode for DvXD4<A,B,C,D>
@@ fn Decode for DvXD4<A,B,C,D>::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvXD4<A,B,C,D>::ssz_fixed_len
@props C07 C08
@@ fn Decode for DvXD4<A,B,C,D>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08
@spec
    ensures r is Ok ==> r->Ok_0.a.is_default(), r is Ok ==> r->Ok_0.b.is_default()
@start
    hide(split_ok);
    hide(prefix_ok);
    hide(piece);
    let ghost gb = bytes@;
    let ghost gl = lay2::<C, D>();
    proof {
        assert(gl[0] == slot::<C>()); assert(gl[1] == slot::<D>());
        
        if split_ok(gb, gl) { lemma_pieces_le(gb, gl); }
        if Self::fixed() {
            lemma_cut_fixed(gb, gl);
        }
    }
@at /^let c =/
    proof { assert(slice@ =~= piece(gb, gl, 0)); assert(bytes@ =~= gb.skip(start(gl, 1))); }
@at /^let d =/
    proof { assert(slice@ =~= piece(gb, gl, 1)); assert(bytes@ =~= gb.skip(start(gl, 2))); }

@@ module dvtxe2 private
@@ item DvTXE2
@@ raw
impl<A, B: Encode> Ssz for DvTXE2<A, B> {
    type V = <B as Ssz>::V;
    open spec fn v(&self) -> <B as Ssz>::V { self.b.v() }
    open spec fn wf(&self) -> bool { self.b.wf() }
    open spec fn valid(v: <B as Ssz>::V) -> bool { <B as Ssz>::valid(v) }
    open spec fn ok() -> bool { <B as Ssz>::ok() }
    open spec fn fixed() -> bool { <B as Ssz>::fixed() }
    open spec fn flen() -> nat { <B as Ssz>::flen() }
    open spec fn enc(v: <B as Ssz>::V) -> Seq<u8> { <B as Ssz>::enc(v) }
    open spec fn dec(b: Seq<u8>) -> Option<<B as Ssz>::V> { <B as Ssz>::dec(b) }
    open spec fn rt() -> bool { <B as Ssz>::rt() }
    open spec fn strict() -> bool { <B as Ssz>::strict() }
    proof fn law_wf(&self) { self.b.law_wf(); }
    proof fn law_len(v: <B as Ssz>::V) { <B as Ssz>::law_len(v); }
    proof fn law_flen() { <B as Ssz>::law_flen(); }
    proof fn law_dec(b: Seq<u8>) { <B as Ssz>::law_dec(b); }
    proof fn law_rt(v: <B as Ssz>::V) { <B as Ssz>::law_rt(v); }
    proof fn law_strict(b: Seq<u8>) { <B as Ssz>::law_strict(b); }
}
@@ impl Encode for DvTXE2<A,B>
@@ fn Encode for DvTXE2<A,B>::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvTXE2<A,B>::ssz_fixed_len
@props C07 C08
@@ fn Encode for DvTXE2<A,B>::ssz_bytes_len
@props C07 C08
@@ fn Encode for DvTXE2<A,B>::ssz_append
@props C01 C03 C08

@@ module dvtxd2 private
@@ item DvTXD2
@@ raw
impl<A: VDefault, B: Decode> Ssz for DvTXD2<A, B> {
    type V = <B as Ssz>::V;
    open spec fn v(&self) -> <B as Ssz>::V { self.b.v() }
    open spec fn wf(&self) -> bool { self.b.wf() }
    open spec fn valid(v: <B as Ssz>::V) -> bool { <B as Ssz>::valid(v) }
    open spec fn ok() -> bool { <B as Ssz>::ok() }
    open spec fn fixed() -> bool { <B as Ssz>::fixed() }
    open spec fn flen() -> nat { <B as Ssz>::flen() }
    open spec fn enc(v: <B as Ssz>::V) -> Seq<u8> { <B as Ssz>::enc(v) }
    open spec fn dec(b: Seq<u8>) -> Option<<B as Ssz>::V> { <B as Ssz>::dec(b) }
    open spec fn rt() -> bool { <B as Ssz>::rt() }
    open spec fn strict() -> bool { <B as Ssz>::strict() }
    proof fn law_wf(&self) { self.b.law_wf(); }
    proof fn law_len(v: <B as Ssz>::V) { <B as Ssz>::law_len(v); }
    proof fn law_flen() { <B as Ssz>::law_flen(); }
    proof fn law_dec(b: Seq<u8>) { <B as Ssz>::law_dec(b); }
    proof fn law_rt(v: <B as Ssz>::V) { <B as Ssz>::law_rt(v); }
    proof fn law_strict(b: Seq<u8>) { <B as Ssz>::law_strict(b); }
}
@@ impl Decode for DvTXD2<A,B>
@@ fn Decode for DvTXD2<A,B>::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvTXD2<A,B>::ssz_fixed_len
@props C07 C08
@@ fn Decode for DvTXD2<A,B>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08
@spec
    ensures r is Ok ==> r->Ok_0.a.is_default()

@@ module dvtxe3 private
@@ item DvTXE3
@@ raw
impl<A, B: Encode, C> Ssz for DvTXE3<A, B, C> {
    type V = <B as Ssz>::V;
    open spec fn v(&self) -> <B as Ssz>::V { self.1.v() }
    open spec fn wf(&self) -> bool { self.1.wf() }
    open spec fn valid(v: <B as Ssz>::V) -> bool { <B as Ssz>::valid(v) }
    open spec fn ok() -> bool { <B as Ssz>::ok() }
    open spec fn fixed() -> bool { <B as Ssz>::fixed() }
    open spec fn flen() -> nat { <B as Ssz>::flen() }
    open spec fn enc(v: <B as Ssz>::V) -> Seq<u8> { <B as Ssz>::enc(v) }
    open spec fn dec(b: Seq<u8>) -> Option<<B as Ssz>::V> { <B as Ssz>::dec(b) }
    open spec fn rt() -> bool { <B as Ssz>::rt() }
    open spec fn strict() -> bool { <B as Ssz>::strict() }
    proof fn law_wf(&self) { self.1.law_wf(); }
    proof fn law_len(v: <B as Ssz>::V) { <B as Ssz>::law_len(v); }
    proof fn law_flen() { <B as Ssz>::law_flen(); }
    proof fn law_dec(b: Seq<u8>) { <B as Ssz>::law_dec(b); }
    proof fn law_rt(v: <B as Ssz>::V) { <B as Ssz>::law_rt(v); }
    proof fn law_strict(b: Seq<u8>) { <B as Ssz>::law_strict(b); }
}
@@ impl Encode for DvTXE3<A,B,C>
@@ fn Encode for DvTXE3<A,B,C>::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvTXE3<A,B,C>::ssz_fixed_len
@props C07 C08
@@ fn Encode for DvTXE3<A,B,C>::ssz_bytes_len
@props C07 C08
@@ fn Encode for DvTXE3<A,B,C>::ssz_append
@props C01 C03 C08

@@ module dvtxd3 private
@@ item DvTXD3
@@ raw
impl<A: VDefault, B: Decode, C: VDefault> Ssz for DvTXD3<A, B, C> {
    type V = <B as Ssz>::V;
    open spec fn v(&self) -> <B as Ssz>::V { self.1.v() }
    open spec fn wf(&self) -> bool { self.1.wf() }
    open spec fn valid(v: <B as Ssz>::V) -> bool { <B as Ssz>::valid(v) }
    open spec fn ok() -> bool { <B as Ssz>::ok() }
    open spec fn fixed() -> bool { <B as Ssz>::fixed() }
    open spec fn flen() -> nat { <B as Ssz>::flen() }
    open spec fn enc(v: <B as Ssz>::V) -> Seq<u8> { <B as Ssz>::enc(v) }
    open spec fn dec(b: Seq<u8>) -> Option<<B as Ssz>::V> { <B as Ssz>::dec(b) }
    open spec fn rt() -> bool { <B as Ssz>::rt() }
    open spec fn strict() -> bool { <B as Ssz>::strict() }
    proof fn law_wf(&self) { self.1.law_wf(); }
    proof fn law_len(v: <B as Ssz>::V) { <B as Ssz>::law_len(v); }
    proof fn law_flen() { <B as Ssz>::law_flen(); }
    proof fn law_dec(b: Seq<u8>) { <B as Ssz>::law_dec(b); }
    proof fn law_rt(v: <B as Ssz>::V) { <B as Ssz>::law_rt(v); }
    proof fn law_strict(b: Seq<u8>) { <B as Ssz>::law_strict(b); }
}
@@ impl Decode for DvTXD3<A,B,C>
@@ fn Decode for DvTXD3<A,B,C>::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvTXD3<A,B,C>::ssz_fixed_len
@props C07 C08
@@ fn Decode for DvTXD3<A,B,C>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08
@spec
    ensures r is Ok ==> r->Ok_0.0.is_default(), r is Ok ==> r->Ok_0.2.is_default()

@@ module dvy4 private
@@ item DvY4
@@ raw
impl<A: Encode + Decode, B: VDefault, D: Encode + Decode> Ssz for DvY4<A, B, D> {
    type V = (<A as Ssz>::V, <KS::<1> as Ssz>::V, <D as Ssz>::V, );
    open spec fn v(&self) -> (<A as Ssz>::V, <KS::<1> as Ssz>::V, <D as Ssz>::V, ) { (self.a.v(), (KS::<1> { x: self.c }).v(), self.d.v(), ) }
    open spec fn wf(&self) -> bool { self.a.wf() && (KS::<1> { x: self.c }).wf() && self.d.wf() }
    open spec fn valid(v: (<A as Ssz>::V, <KS::<1> as Ssz>::V, <D as Ssz>::V, )) -> bool { <(A, KS::<1>, D, ) as Ssz>::valid(v) }
    open spec fn ok() -> bool { <(A, KS::<1>, D, ) as Ssz>::ok() }
    open spec fn fixed() -> bool { <(A, KS::<1>, D, ) as Ssz>::fixed() }
    open spec fn flen() -> nat { <(A, KS::<1>, D, ) as Ssz>::flen() }
    open spec fn enc(v: (<A as Ssz>::V, <KS::<1> as Ssz>::V, <D as Ssz>::V, )) -> Seq<u8> { <(A, KS::<1>, D, ) as Ssz>::enc(v) }
    open spec fn dec(b: Seq<u8>) -> Option<(<A as Ssz>::V, <KS::<1> as Ssz>::V, <D as Ssz>::V, )> { <(A, KS::<1>, D, ) as Ssz>::dec(b) }
    open spec fn rt() -> bool { <(A, KS::<1>, D, ) as Ssz>::rt() }
    open spec fn strict() -> bool { <(A, KS::<1>, D, ) as Ssz>::strict() }
    proof fn law_wf(&self) { self.a.law_wf(); (KS::<1> { x: self.c }).law_wf(); self.d.law_wf(); }
    proof fn law_len(v: (<A as Ssz>::V, <KS::<1> as Ssz>::V, <D as Ssz>::V, )) { <(A, KS::<1>, D, ) as Ssz>::law_len(v); }
    proof fn law_flen() { <(A, KS::<1>, D, ) as Ssz>::law_flen(); }
    proof fn law_dec(b: Seq<u8>) { <(A, KS::<1>, D, ) as Ssz>::law_dec(b); }
    proof fn law_rt(v: (<A as Ssz>::V, <KS::<1> as Ssz>::V, <D as Ssz>::V, )) { <(A, KS::<1>, D, ) as Ssz>::law_rt(v); }
    proof fn law_strict(b: Seq<u8>) { <(A, KS::<1>, D, ) as Ssz>::law_strict(b); }
}

@@ impl Encode for DvY4<A,B,D>
@@ fn Encode for DvY4<A,B,D>::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvY4<A,B,D>::ssz_fixed_len
@props C07 C08
@@ fn Encode for DvY4<A,B,D>::ssz_bytes_len
@props C07 C08
@start
    proof { self.law_wf(); lemma_sum3::<A, KS::<1>, D>(self.v()); }
@at /^if (?!.*Self)/ 1
    assert(len == plen(part::<A>(self.v().0)));
@at /^if (?!.*Self)/ 2
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<KS::<1>>(self.v().1)));
@@ fn Encode for DvY4<A,B,D>::ssz_append
@props C01 C03 C08
@start
    let ghost b0 = buf@;
    proof {
        let ps = parts3::<A, KS::<1>, D>(self.v());
        self.law_wf();
        lemma_sum3::<A, KS::<1>, D>(self.v());
        lemma_takes3::<A, KS::<1>, D>(self.v());
        lemma_part_len(ps, 0); lemma_part_len(ps, 1); lemma_part_len(ps, 2);
    }
@closure 0
    |$0: &mut Vec<u8>|
        requires KS::<1>::ok(), (KS::<1> { x: self.c }).wf(), small(KS::<1>::enc((KS::<1> { x: self.c }).v()).len())
        ensures final($0)@ == old($0)@ + KS::<1>::enc((KS::<1> { x: self.c }).v())
@at /^encoder\./ 2
    proof {
        assert(part::<KS::<1>>(self.v().1) == (KS::<1>::fixed(), KS::<1>::enc(self.v().1)));
        assert(encoder.state(b0, Seq::<Part>::empty().push(part::<A>(self.v().0)).push(part::<KS::<1>>(self.v().1)), sum3::<A, KS::<1>, D>() as int));
    }
@@ impl Decode for DvY4<A,B,D>
@@ fn Decode for DvY4<A,B,D>::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvY4<A,B,D>::ssz_fixed_len
@props C07 C08
@@ fn Decode for DvY4<A,B,D>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08
@spec
    ensures r is Ok ==> r->Ok_0.b.is_default()
@closure 0
    |$0: &[u8]| -> (q: Result<F1, DecodeError>)
        requires KS::<1>::ok(), $0@.len() <= mem_limit()
        ensures
            q is Ok ==> KS::<1>::dec($0@) == Some((KS::<1> { x: q->Ok_0 }).v()) && (KS::<1> { x: q->Ok_0 }).wf(),
            q is Err ==> KS::<1>::dec($0@) is None
@start
    hide(split_ok);
    hide(prefix_ok);
    hide(piece);
    let ghost gb = bytes@;
    let ghost gl = lay3::<A, KS::<1>, D>();
    proof {
        assert(gl[0] == slot::<A>()); assert(gl[1] == slot::<KS::<1>>()); assert(gl[2] == slot::<D>());
        KS::<1>::law_flen();
        if split_ok(gb, gl) { lemma_pieces_le(gb, gl); }
        if Self::fixed() {
            lemma_cut_fixed(gb, gl);
        }
    }
@at /^let a =/
    proof { assert(slice@ =~= piece(gb, gl, 0)); assert(bytes@ =~= gb.skip(start(gl, 1))); }
@at /^let c =/
    proof { assert(slice@ =~= piece(gb, gl, 1)); assert(bytes@ =~= gb.skip(start(gl, 2))); }
@at /^let d =/
    proof { assert(slice@ =~= piece(gb, gl, 2)); assert(bytes@ =~= gb.skip(start(gl, 3))); }

@@ module dvye4 private
@@ item DvYE4
@@ raw
impl<B, C: Encode> Ssz for DvYE4<B, C> {
    type V = (<KS::<1> as Ssz>::V, <C as Ssz>::V, <KS::<1> as Ssz>::V, );
    open spec fn v(&self) -> (<KS::<1> as Ssz>::V, <C as Ssz>::V, <KS::<1> as Ssz>::V, ) { ((KS::<1> { x: self.a }).v(), self.c.v(), (KS::<1> { x: self.d }).v(), ) }
    open spec fn wf(&self) -> bool { (KS::<1> { x: self.a }).wf() && self.c.wf() && (KS::<1> { x: self.d }).wf() }
    open spec fn valid(v: (<KS::<1> as Ssz>::V, <C as Ssz>::V, <KS::<1> as Ssz>::V, )) -> bool { <(KS::<1>, C, KS::<1>, ) as Ssz>::valid(v) }
    open spec fn ok() -> bool { <(KS::<1>, C, KS::<1>, ) as Ssz>::ok() }
    open spec fn fixed() -> bool { <(KS::<1>, C, KS::<1>, ) as Ssz>::fixed() }
    open spec fn flen() -> nat { <(KS::<1>, C, KS::<1>, ) as Ssz>::flen() }
    open spec fn enc(v: (<KS::<1> as Ssz>::V, <C as Ssz>::V, <KS::<1> as Ssz>::V, )) -> Seq<u8> { <(KS::<1>, C, KS::<1>, ) as Ssz>::enc(v) }
    open spec fn dec(b: Seq<u8>) -> Option<(<KS::<1> as Ssz>::V, <C as Ssz>::V, <KS::<1> as Ssz>::V, )> { <(KS::<1>, C, KS::<1>, ) as Ssz>::dec(b) }
    open spec fn rt() -> bool { <(KS::<1>, C, KS::<1>, ) as Ssz>::rt() }
    open spec fn strict() -> bool { <(KS::<1>, C, KS::<1>, ) as Ssz>::strict() }
    proof fn law_wf(&self) { (KS::<1> { x: self.a }).law_wf(); self.c.law_wf(); (KS::<1> { x: self.d }).law_wf(); }
    proof fn law_len(v: (<KS::<1> as Ssz>::V, <C as Ssz>::V, <KS::<1> as Ssz>::V, )) { <(KS::<1>, C, KS::<1>, ) as Ssz>::law_len(v); }
    proof fn law_flen() { <(KS::<1>, C, KS::<1>, ) as Ssz>::law_flen(); }
    proof fn law_dec(b: Seq<u8>) { <(KS::<1>, C, KS::<1>, ) as Ssz>::law_dec(b); }
    proof fn law_rt(v: (<KS::<1> as Ssz>::V, <C as Ssz>::V, <KS::<1> as Ssz>::V, )) { <(KS::<1>, C, KS::<1>, ) as Ssz>::law_rt(v); }
    proof fn law_strict(b: Seq<u8>) { <(KS::<1>, C, KS::<1>, ) as Ssz>::law_strict(b); }
}

@@ impl Encode for DvYE4<B,C>
@@ fn Encode for DvYE4<B,C>::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvYE4<B,C>::ssz_fixed_len
@props C07 C08
@@ fn Encode for DvYE4<B,C>::ssz_bytes_len
@props C07 C08
@start
    proof { self.law_wf(); lemma_sum3::<KS::<1>, C, KS::<1>>(self.v()); }
@at /^if (?!.*Self)/ 1
    assert(len == plen(part::<KS::<1>>(self.v().0)));
@at /^if (?!.*Self)/ 2
    assert(len == plen(part::<KS::<1>>(self.v().0)) + plen(part::<C>(self.v().1)));
@@ fn Encode for DvYE4<B,C>::ssz_append
@props C01 C03 C08
@start
    let ghost b0 = buf@;
    proof {
        let ps = parts3::<KS::<1>, C, KS::<1>>(self.v());
        self.law_wf();
        lemma_sum3::<KS::<1>, C, KS::<1>>(self.v());
        lemma_takes3::<KS::<1>, C, KS::<1>>(self.v());
        lemma_part_len(ps, 0); lemma_part_len(ps, 1); lemma_part_len(ps, 2);
    }
@closure 0
    |$0: &mut Vec<u8>|
        requires KS::<1>::ok(), (KS::<1> { x: self.a }).wf(), small(KS::<1>::enc((KS::<1> { x: self.a }).v()).len())
        ensures final($0)@ == old($0)@ + KS::<1>::enc((KS::<1> { x: self.a }).v())
@at /^encoder\./ 1
    proof {
        assert(part::<KS::<1>>(self.v().0) == (KS::<1>::fixed(), KS::<1>::enc(self.v().0)));
        assert(encoder.state(b0, Seq::<Part>::empty().push(part::<KS::<1>>(self.v().0)), sum3::<KS::<1>, C, KS::<1>>() as int));
    }
@closure 1
    |$0: &mut Vec<u8>|
        requires KS::<1>::ok(), (KS::<1> { x: self.d }).wf(), small(KS::<1>::enc((KS::<1> { x: self.d }).v()).len())
        ensures final($0)@ == old($0)@ + KS::<1>::enc((KS::<1> { x: self.d }).v())
@at /^encoder\./ 3
    proof {
        assert(part::<KS::<1>>(self.v().2) == (KS::<1>::fixed(), KS::<1>::enc(self.v().2)));
        assert(encoder.state(b0, Seq::<Part>::empty().push(part::<KS::<1>>(self.v().0)).push(part::<C>(self.v().1)).push(part::<KS::<1>>(self.v().2)), sum3::<KS::<1>, C, KS::<1>>() as int));
    }

@@ module dvyd4 private
@@ item DvYD4
@@ raw
impl<B: VDefault, C: Decode> Ssz for DvYD4<B, C> {
    type V = (<KS::<1> as Ssz>::V, <C as Ssz>::V, <KS::<1> as Ssz>::V, );
    open spec fn v(&self) -> (<KS::<1> as Ssz>::V, <C as Ssz>::V, <KS::<1> as Ssz>::V, ) { ((KS::<1> { x: self.a }).v(), self.c.v(), (KS::<1> { x: self.d }).v(), ) }
    open spec fn wf(&self) -> bool { (KS::<1> { x: self.a }).wf() && self.c.wf() && (KS::<1> { x: self.d }).wf() }
    open spec fn valid(v: (<KS::<1> as Ssz>::V, <C as Ssz>::V, <KS::<1> as Ssz>::V, )) -> bool { <(KS::<1>, C, KS::<1>, ) as Ssz>::valid(v) }
    open spec fn ok() -> bool { <(KS::<1>, C, KS::<1>, ) as Ssz>::ok() }
    open spec fn fixed() -> bool { <(KS::<1>, C, KS::<1>, ) as Ssz>::fixed() }
    open spec fn flen() -> nat { <(KS::<1>, C, KS::<1>, ) as Ssz>::flen() }
    open spec fn enc(v: (<KS::<1> as Ssz>::V, <C as Ssz>::V, <KS::<1> as Ssz>::V, )) -> Seq<u8> { <(KS::<1>, C, KS::<1>, ) as Ssz>::enc(v) }
    open spec fn dec(b: Seq<u8>) -> Option<(<KS::<1> as Ssz>::V, <C as Ssz>::V, <KS::<1> as Ssz>::V, )> { <(KS::<1>, C, KS::<1>, ) as Ssz>::dec(b) }
    open spec fn rt() -> bool { <(KS::<1>, C, KS::<1>, ) as Ssz>::rt() }
    open spec fn strict() -> bool { <(KS::<1>, C, KS::<1>, ) as Ssz>::strict() }
    proof fn law_wf(&self) { (KS::<1> { x: self.a }).law_wf(); self.c.law_wf(); (KS::<1> { x: self.d }).law_wf(); }
    proof fn law_len(v: (<KS::<1> as Ssz>::V, <C as Ssz>::V, <KS::<1> as Ssz>::V, )) { <(KS::<1>, C, KS::<1>, ) as Ssz>::law_len(v); }
    proof fn law_flen() { <(KS::<1>, C, KS::<1>, ) as Ssz>::law_flen(); }
    proof fn law_dec(b: Seq<u8>) { <(KS::<1>, C, KS::<1>, ) as Ssz>::law_dec(b); }
    proof fn law_rt(v: (<KS::<1> as Ssz>::V, <C as Ssz>::V, <KS::<1> as Ssz>::V, )) { <(KS::<1>, C, KS::<1>, ) as Ssz>::law_rt(v); }
    proof fn law_strict(b: Seq<u8>) { <(KS::<1>, C, KS::<1>, ) as Ssz>::law_strict(b); }
}

@@ impl Decode for DvYD4<B,C>
@@ fn Decode for DvYD4<B,C>::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvYD4<B,C>::ssz_fixed_len
@props C07 C08
@@ fn Decode for DvYD4<B,C>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08
@spec
    ensures r is Ok ==> r->Ok_0.b.is_default()
@closure 0
    |$0: &[u8]| -> (q: Result<F1, DecodeError>)
        requires KS::<1>::ok(), $0@.len() <= mem_limit()
        ensures
            q is Ok ==> KS::<1>::dec($0@) == Some((KS::<1> { x: q->Ok_0 }).v()) && (KS::<1> { x: q->Ok_0 }).wf(),
            q is Err ==> KS::<1>::dec($0@) is None
@closure 1
    |$0: &[u8]| -> (q: Result<F1, DecodeError>)
        requires KS::<1>::ok(), $0@.len() <= mem_limit()
        ensures
            q is Ok ==> KS::<1>::dec($0@) == Some((KS::<1> { x: q->Ok_0 }).v()) && (KS::<1> { x: q->Ok_0 }).wf(),
            q is Err ==> KS::<1>::dec($0@) is None
@start
    hide(split_ok);
    hide(prefix_ok);
    hide(piece);
    let ghost gb = bytes@;
    let ghost gl = lay3::<KS::<1>, C, KS::<1>>();
    proof {
        assert(gl[0] == slot::<KS::<1>>()); assert(gl[1] == slot::<C>()); assert(gl[2] == slot::<KS::<1>>());
        KS::<1>::law_flen();
        if split_ok(gb, gl) { lemma_pieces_le(gb, gl); }
        if Self::fixed() {
            lemma_cut_fixed(gb, gl);
        }
    }
@at /^let a =/
    proof { assert(slice@ =~= piece(gb, gl, 0)); assert(bytes@ =~= gb.skip(start(gl, 1))); }
@at /^let c =/
    proof { assert(slice@ =~= piece(gb, gl, 1)); assert(bytes@ =~= gb.skip(start(gl, 2))); }
@at /^let d =/
    proof { assert(slice@ =~= piece(gb, gl, 2)); assert(bytes@ =~= gb.skip(start(gl, 3))); }

@@ module dvye3 private
@@ item DvYE3
@@ raw
impl<A, C: Encode> Ssz for DvYE3<A, C> {
    type V = (<KS::<1> as Ssz>::V, <C as Ssz>::V, );
    open spec fn v(&self) -> (<KS::<1> as Ssz>::V, <C as Ssz>::V, ) { ((KS::<1> { x: self.b }).v(), self.c.v(), ) }
    open spec fn wf(&self) -> bool { (KS::<1> { x: self.b }).wf() && self.c.wf() }
    open spec fn valid(v: (<KS::<1> as Ssz>::V, <C as Ssz>::V, )) -> bool { <(KS::<1>, C, ) as Ssz>::valid(v) }
    open spec fn ok() -> bool { <(KS::<1>, C, ) as Ssz>::ok() }
    open spec fn fixed() -> bool { <(KS::<1>, C, ) as Ssz>::fixed() }
    open spec fn flen() -> nat { <(KS::<1>, C, ) as Ssz>::flen() }
    open spec fn enc(v: (<KS::<1> as Ssz>::V, <C as Ssz>::V, )) -> Seq<u8> { <(KS::<1>, C, ) as Ssz>::enc(v) }
    open spec fn dec(b: Seq<u8>) -> Option<(<KS::<1> as Ssz>::V, <C as Ssz>::V, )> { <(KS::<1>, C, ) as Ssz>::dec(b) }
    open spec fn rt() -> bool { <(KS::<1>, C, ) as Ssz>::rt() }
    open spec fn strict() -> bool { <(KS::<1>, C, ) as Ssz>::strict() }
    proof fn law_wf(&self) { (KS::<1> { x: self.b }).law_wf(); self.c.law_wf(); }
    proof fn law_len(v: (<KS::<1> as Ssz>::V, <C as Ssz>::V, )) { <(KS::<1>, C, ) as Ssz>::law_len(v); }
    proof fn law_flen() { <(KS::<1>, C, ) as Ssz>::law_flen(); }
    proof fn law_dec(b: Seq<u8>) { <(KS::<1>, C, ) as Ssz>::law_dec(b); }
    proof fn law_rt(v: (<KS::<1> as Ssz>::V, <C as Ssz>::V, )) { <(KS::<1>, C, ) as Ssz>::law_rt(v); }
    proof fn law_strict(b: Seq<u8>) { <(KS::<1>, C, ) as Ssz>::law_strict(b); }
}

@@ impl Encode for DvYE3<A,C>
@@ fn Encode for DvYE3<A,C>::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvYE3<A,C>::ssz_fixed_len
@props C07 C08
@@ fn Encode for DvYE3<A,C>::ssz_bytes_len
@props C07 C08
@start
    proof { self.law_wf(); lemma_sum2::<KS::<1>, C>(self.v()); }
@at /^if (?!.*Self)/ 1
    assert(len == plen(part::<KS::<1>>(self.v().0)));
@@ fn Encode for DvYE3<A,C>::ssz_append
@props C01 C03 C08
@start
    let ghost b0 = buf@;
    proof {
        let ps = parts2::<KS::<1>, C>(self.v());
        self.law_wf();
        lemma_sum2::<KS::<1>, C>(self.v());
        lemma_takes2::<KS::<1>, C>(self.v());
        lemma_part_len(ps, 0); lemma_part_len(ps, 1);
    }
@closure 0
    |$0: &mut Vec<u8>|
        requires KS::<1>::ok(), (KS::<1> { x: self.b }).wf(), small(KS::<1>::enc((KS::<1> { x: self.b }).v()).len())
        ensures final($0)@ == old($0)@ + KS::<1>::enc((KS::<1> { x: self.b }).v())
@at /^encoder\./ 1
    proof {
        assert(part::<KS::<1>>(self.v().0) == (KS::<1>::fixed(), KS::<1>::enc(self.v().0)));
        assert(encoder.state(b0, Seq::<Part>::empty().push(part::<KS::<1>>(self.v().0)), sum2::<KS::<1>, C>() as int));
    }

@@ module dvyd3 private
@@ item DvYD3
@@ raw
impl<A: VDefault, C: Decode> Ssz for DvYD3<A, C> {
    type V = (<KS::<1> as Ssz>::V, <C as Ssz>::V, );
    open spec fn v(&self) -> (<KS::<1> as Ssz>::V, <C as Ssz>::V, ) { ((KS::<1> { x: self.b }).v(), self.c.v(), ) }
    open spec fn wf(&self) -> bool { (KS::<1> { x: self.b }).wf() && self.c.wf() }
    open spec fn valid(v: (<KS::<1> as Ssz>::V, <C as Ssz>::V, )) -> bool { <(KS::<1>, C, ) as Ssz>::valid(v) }
    open spec fn ok() -> bool { <(KS::<1>, C, ) as Ssz>::ok() }
    open spec fn fixed() -> bool { <(KS::<1>, C, ) as Ssz>::fixed() }
    open spec fn flen() -> nat { <(KS::<1>, C, ) as Ssz>::flen() }
    open spec fn enc(v: (<KS::<1> as Ssz>::V, <C as Ssz>::V, )) -> Seq<u8> { <(KS::<1>, C, ) as Ssz>::enc(v) }
    open spec fn dec(b: Seq<u8>) -> Option<(<KS::<1> as Ssz>::V, <C as Ssz>::V, )> { <(KS::<1>, C, ) as Ssz>::dec(b) }
    open spec fn rt() -> bool { <(KS::<1>, C, ) as Ssz>::rt() }
    open spec fn strict() -> bool { <(KS::<1>, C, ) as Ssz>::strict() }
    proof fn law_wf(&self) { (KS::<1> { x: self.b }).law_wf(); self.c.law_wf(); }
    proof fn law_len(v: (<KS::<1> as Ssz>::V, <C as Ssz>::V, )) { <(KS::<1>, C, ) as Ssz>::law_len(v); }
    proof fn law_flen() { <(KS::<1>, C, ) as Ssz>::law_flen(); }
    proof fn law_dec(b: Seq<u8>) { <(KS::<1>, C, ) as Ssz>::law_dec(b); }
    proof fn law_rt(v: (<KS::<1> as Ssz>::V, <C as Ssz>::V, )) { <(KS::<1>, C, ) as Ssz>::law_rt(v); }
    proof fn law_strict(b: Seq<u8>) { <(KS::<1>, C, ) as Ssz>::law_strict(b); }
}

@@ impl Decode for DvYD3<A,C>
@@ fn Decode for DvYD3<A,C>::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvYD3<A,C>::ssz_fixed_len
@props C07 C08
@@ fn Decode for DvYD3<A,C>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08
@spec
    ensures r is Ok ==> r->Ok_0.a.is_default()
@closure 0
    |$0: &[u8]| -> (q: Result<F1, DecodeError>)
        requires KS::<1>::ok(), $0@.len() <= mem_limit()
        ensures
            q is Ok ==> KS::<1>::dec($0@) == Some((KS::<1> { x: q->Ok_0 }).v()) && (KS::<1> { x: q->Ok_0 }).wf(),
            q is Err ==> KS::<1>::dec($0@) is None
@start
    hide(split_ok);
    hide(prefix_ok);
    hide(piece);
    let ghost gb = bytes@;
    let ghost gl = lay2::<KS::<1>, C>();
    proof {
        assert(gl[0] == slot::<KS::<1>>()); assert(gl[1] == slot::<C>());
        KS::<1>::law_flen();
        if split_ok(gb, gl) { lemma_pieces_le(gb, gl); }
        if Self::fixed() {
            lemma_cut_fixed(gb, gl);
        }
    }
@at /^let b =/
    proof { assert(slice@ =~= piece(gb, gl, 0)); assert(bytes@ =~= gb.skip(start(gl, 1))); }
@at /^let c =/
    proof { assert(slice@ =~= piece(gb, gl, 1)); assert(bytes@ =~= gb.skip(start(gl, 2))); }

@@ module dvtye3 private
@@ item DvTYE3
@@ raw
impl<A, C> Ssz for DvTYE3<A, C> {
    type V = <KS::<1> as Ssz>::V;
    open spec fn v(&self) -> <KS::<1> as Ssz>::V { (KS::<1> { x: self.b }).v() }
    open spec fn wf(&self) -> bool { (KS::<1> { x: self.b }).wf() }
    open spec fn valid(v: <KS::<1> as Ssz>::V) -> bool { <KS::<1> as Ssz>::valid(v) }
    open spec fn ok() -> bool { <KS::<1> as Ssz>::ok() }
    open spec fn fixed() -> bool { <KS::<1> as Ssz>::fixed() }
    open spec fn flen() -> nat { <KS::<1> as Ssz>::flen() }
    open spec fn enc(v: <KS::<1> as Ssz>::V) -> Seq<u8> { <KS::<1> as Ssz>::enc(v) }
    open spec fn dec(b: Seq<u8>) -> Option<<KS::<1> as Ssz>::V> { <KS::<1> as Ssz>::dec(b) }
    open spec fn rt() -> bool { <KS::<1> as Ssz>::rt() }
    open spec fn strict() -> bool { <KS::<1> as Ssz>::strict() }
    proof fn law_wf(&self) { (KS::<1> { x: self.b }).law_wf(); }
    proof fn law_len(v: <KS::<1> as Ssz>::V) { <KS::<1> as Ssz>::law_len(v); }
    proof fn law_flen() { <KS::<1> as Ssz>::law_flen(); }
    proof fn law_dec(b: Seq<u8>) { <KS::<1> as Ssz>::law_dec(b); }
    proof fn law_rt(v: <KS::<1> as Ssz>::V) { <KS::<1> as Ssz>::law_rt(v); }
    proof fn law_strict(b: Seq<u8>) { <KS::<1> as Ssz>::law_strict(b); }
}
@@ impl Encode for DvTYE3<A,C>
@@ fn Encode for DvTYE3<A,C>::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvTYE3<A,C>::ssz_fixed_len
@props C07 C08
@@ fn Encode for DvTYE3<A,C>::ssz_bytes_len
@props C07 C08
@@ fn Encode for DvTYE3<A,C>::ssz_append
@props C01 C03 C08

@@ module dvtyd3 private
@@ item DvTYD3
@@ raw
impl<A: VDefault, C: VDefault> Ssz for DvTYD3<A, C> {
    type V = <KS::<1> as Ssz>::V;
    open spec fn v(&self) -> <KS::<1> as Ssz>::V { (KS::<1> { x: self.b }).v() }
    open spec fn wf(&self) -> bool { (KS::<1> { x: self.b }).wf() }
    open spec fn valid(v: <KS::<1> as Ssz>::V) -> bool { <KS::<1> as Ssz>::valid(v) }
    open spec fn ok() -> bool { <KS::<1> as Ssz>::ok() }
    open spec fn fixed() -> bool { <KS::<1> as Ssz>::fixed() }
    open spec fn flen() -> nat { <KS::<1> as Ssz>::flen() }
    open spec fn enc(v: <KS::<1> as Ssz>::V) -> Seq<u8> { <KS::<1> as Ssz>::enc(v) }
    open spec fn dec(b: Seq<u8>) -> Option<<KS::<1> as Ssz>::V> { <KS::<1> as Ssz>::dec(b) }
    open spec fn rt() -> bool { <KS::<1> as Ssz>::rt() }
    open spec fn strict() -> bool { <KS::<1> as Ssz>::strict() }
    proof fn law_wf(&self) { (KS::<1> { x: self.b }).law_wf(); }
    proof fn law_len(v: <KS::<1> as Ssz>::V) { <KS::<1> as Ssz>::law_len(v); }
    proof fn law_flen() { <KS::<1> as Ssz>::law_flen(); }
    proof fn law_dec(b: Seq<u8>) { <KS::<1> as Ssz>::law_dec(b); }
    proof fn law_rt(v: <KS::<1> as Ssz>::V) { <KS::<1> as Ssz>::law_rt(v); }
    proof fn law_strict(b: Seq<u8>) { <KS::<1> as Ssz>::law_strict(b); }
}
@@ impl Decode for DvTYD3<A,C>
@@ fn Decode for DvTYD3<A,C>::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvTYD3<A,C>::ssz_fixed_len
@props C07 C08
@@ fn Decode for DvTYD3<A,C>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08
@spec
    ensures r is Ok ==> r->Ok_0.a.is_default(), r is Ok ==> r->Ok_0.c.is_default()

@@ module dvty3 private
@@ item DvTY3
@@ raw
impl<A: VDefault, B: VDefault> Ssz for DvTY3<A, B> {
    type V = <KS::<2> as Ssz>::V;
    open spec fn v(&self) -> <KS::<2> as Ssz>::V { (KS::<2> { x: self.2 }).v() }
    open spec fn wf(&self) -> bool { (KS::<2> { x: self.2 }).wf() }
    open spec fn valid(v: <KS::<2> as Ssz>::V) -> bool { <KS::<2> as Ssz>::valid(v) }
    open spec fn ok() -> bool { <KS::<2> as Ssz>::ok() }
    open spec fn fixed() -> bool { <KS::<2> as Ssz>::fixed() }
    open spec fn flen() -> nat { <KS::<2> as Ssz>::flen() }
    open spec fn enc(v: <KS::<2> as Ssz>::V) -> Seq<u8> { <KS::<2> as Ssz>::enc(v) }
    open spec fn dec(b: Seq<u8>) -> Option<<KS::<2> as Ssz>::V> { <KS::<2> as Ssz>::dec(b) }
    open spec fn rt() -> bool { <KS::<2> as Ssz>::rt() }
    open spec fn strict() -> bool { <KS::<2> as Ssz>::strict() }
    proof fn law_wf(&self) { (KS::<2> { x: self.2 }).law_wf(); }
    proof fn law_len(v: <KS::<2> as Ssz>::V) { <KS::<2> as Ssz>::law_len(v); }
    proof fn law_flen() { <KS::<2> as Ssz>::law_flen(); }
    proof fn law_dec(b: Seq<u8>) { <KS::<2> as Ssz>::law_dec(b); }
    proof fn law_rt(v: <KS::<2> as Ssz>::V) { <KS::<2> as Ssz>::law_rt(v); }
    proof fn law_strict(b: Seq<u8>) { <KS::<2> as Ssz>::law_strict(b); }
}
@@ impl Encode for DvTY3<A,B>
@@ fn Encode for DvTY3<A,B>::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvTY3<A,B>::ssz_fixed_len
@props C07 C08
@@ fn Encode for DvTY3<A,B>::ssz_bytes_len
@props C07 C08
@@ fn Encode for DvTY3<A,B>::ssz_append
@props C01 C03 C08
@@ impl Decode for DvTY3<A,B>
@@ fn Decode for DvTY3<A,B>::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvTY3<A,B>::ssz_fixed_len
@props C07 C08
@@ fn Decode for DvTY3<A,B>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08
@spec
    ensures r is Ok ==> r->Ok_0.0.is_default(), r is Ok ==> r->Ok_0.1.is_default()

@@ module dvty2 private
@@ item DvTY2
@@ raw
impl<A: VDefault, B: Encode + Decode> Ssz for DvTY2<A, B> {
    type V = <B as Ssz>::V;
    open spec fn v(&self) -> <B as Ssz>::V { self.b.v() }
    open spec fn wf(&self) -> bool { self.b.wf() }
    open spec fn valid(v: <B as Ssz>::V) -> bool { <B as Ssz>::valid(v) }
    open spec fn ok() -> bool { <B as Ssz>::ok() }
    open spec fn fixed() -> bool { <B as Ssz>::fixed() }
    open spec fn flen() -> nat { <B as Ssz>::flen() }
    open spec fn enc(v: <B as Ssz>::V) -> Seq<u8> { <B as Ssz>::enc(v) }
    open spec fn dec(b: Seq<u8>) -> Option<<B as Ssz>::V> { <B as Ssz>::dec(b) }
    open spec fn rt() -> bool { <B as Ssz>::rt() }
    open spec fn strict() -> bool { <B as Ssz>::strict() }
    proof fn law_wf(&self) { self.b.law_wf(); }
    proof fn law_len(v: <B as Ssz>::V) { <B as Ssz>::law_len(v); }
    proof fn law_flen() { <B as Ssz>::law_flen(); }
    proof fn law_dec(b: Seq<u8>) { <B as Ssz>::law_dec(b); }
    proof fn law_rt(v: <B as Ssz>::V) { <B as Ssz>::law_rt(v); }
    proof fn law_strict(b: Seq<u8>) { <B as Ssz>::law_strict(b); }
}
@@ impl Encode for DvTY2<A,B>
@@ fn Encode for DvTY2<A,B>::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvTY2<A,B>::ssz_fixed_len
@props C07 C08
@@ fn Encode for DvTY2<A,B>::ssz_bytes_len
@props C07 C08
@@ fn Encode for DvTY2<A,B>::ssz_append
@props C01 C03 C08
@@ impl Decode for DvTY2<A,B>
@@ fn Decode for DvTY2<A,B>::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvTY2<A,B>::ssz_fixed_len
@props C07 C08
@@ fn Decode for DvTY2<A,B>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08
@spec
    ensures r is Ok ==> r->Ok_0.a.is_default()

@@ module dvt1 private
@@ item DvT1
@@ raw
impl<A: Encode + Decode> Ssz for DvT1<A> {
    type V = <A as Ssz>::V;
    open spec fn v(&self) -> <A as Ssz>::V { self.a.v() }
    open spec fn wf(&self) -> bool { self.a.wf() }
    open spec fn valid(v: <A as Ssz>::V) -> bool { <A as Ssz>::valid(v) }
    open spec fn ok() -> bool { <A as Ssz>::ok() }
    open spec fn fixed() -> bool { <A as Ssz>::fixed() }
    open spec fn flen() -> nat { <A as Ssz>::flen() }
    open spec fn enc(v: <A as Ssz>::V) -> Seq<u8> { <A as Ssz>::enc(v) }
    open spec fn dec(b: Seq<u8>) -> Option<<A as Ssz>::V> { <A as Ssz>::dec(b) }
    open spec fn rt() -> bool { <A as Ssz>::rt() }
    open spec fn strict() -> bool { <A as Ssz>::strict() }
    proof fn law_wf(&self) { self.a.law_wf(); }
    proof fn law_len(v: <A as Ssz>::V) { <A as Ssz>::law_len(v); }
    proof fn law_flen() { <A as Ssz>::law_flen(); }
    proof fn law_dec(b: Seq<u8>) { <A as Ssz>::law_dec(b); }
    proof fn law_rt(v: <A as Ssz>::V) { <A as Ssz>::law_rt(v); }
    proof fn law_strict(b: Seq<u8>) { <A as Ssz>::law_strict(b); }
}
@@ impl Encode for DvT1<A>
@@ fn Encode for DvT1<A>::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvT1<A>::ssz_fixed_len
@props C07 C08
@@ fn Encode for DvT1<A>::ssz_bytes_len
@props C07 C08
@@ fn Encode for DvT1<A>::ssz_append
@props C01 C03 C08
@@ impl Decode for DvT1<A>
@@ fn Decode for DvT1<A>::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvT1<A>::ssz_fixed_len
@props C07 C08
@@ fn Decode for DvT1<A>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08

@@ module dvt1u private
@@ item DvT1U
@@ raw
impl<A: Encode + Decode> Ssz for DvT1U<A> {
    type V = <A as Ssz>::V;
    open spec fn v(&self) -> <A as Ssz>::V { self.0.v() }
    open spec fn wf(&self) -> bool { self.0.wf() }
    open spec fn valid(v: <A as Ssz>::V) -> bool { <A as Ssz>::valid(v) }
    open spec fn ok() -> bool { <A as Ssz>::ok() }
    open spec fn fixed() -> bool { <A as Ssz>::fixed() }
    open spec fn flen() -> nat { <A as Ssz>::flen() }
    open spec fn enc(v: <A as Ssz>::V) -> Seq<u8> { <A as Ssz>::enc(v) }
    open spec fn dec(b: Seq<u8>) -> Option<<A as Ssz>::V> { <A as Ssz>::dec(b) }
    open spec fn rt() -> bool { <A as Ssz>::rt() }
    open spec fn strict() -> bool { <A as Ssz>::strict() }
    proof fn law_wf(&self) { self.0.law_wf(); }
    proof fn law_len(v: <A as Ssz>::V) { <A as Ssz>::law_len(v); }
    proof fn law_flen() { <A as Ssz>::law_flen(); }
    proof fn law_dec(b: Seq<u8>) { <A as Ssz>::law_dec(b); }
    proof fn law_rt(v: <A as Ssz>::V) { <A as Ssz>::law_rt(v); }
    proof fn law_strict(b: Seq<u8>) { <A as Ssz>::law_strict(b); }
}
@@ impl Encode for DvT1U<A>
@@ fn Encode for DvT1U<A>::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvT1U<A>::ssz_fixed_len
@props C07 C08
@@ fn Encode for DvT1U<A>::ssz_bytes_len
@props C07 C08
@@ fn Encode for DvT1U<A>::ssz_append
@props C01 C03 C08
@@ impl Decode for DvT1U<A>
@@ fn Decode for DvT1U<A>::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvT1U<A>::ssz_fixed_len
@props C07 C08
@@ fn Decode for DvT1U<A>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08

@@ module dvt1q private
@@ item DvT1Q
@@ raw
impl<A: Encode + Decode> Ssz for DvT1Q<A> {
    type V = <A as Ssz>::V;
    open spec fn v(&self) -> <A as Ssz>::V { self.a.v() }
    open spec fn wf(&self) -> bool { self.a.wf() }
    open spec fn valid(v: <A as Ssz>::V) -> bool { <A as Ssz>::valid(v) }
    open spec fn ok() -> bool { <A as Ssz>::ok() }
    open spec fn fixed() -> bool { <A as Ssz>::fixed() }
    open spec fn flen() -> nat { <A as Ssz>::flen() }
    open spec fn enc(v: <A as Ssz>::V) -> Seq<u8> { <A as Ssz>::enc(v) }
    open spec fn dec(b: Seq<u8>) -> Option<<A as Ssz>::V> { <A as Ssz>::dec(b) }
    open spec fn rt() -> bool { <A as Ssz>::rt() }
    open spec fn strict() -> bool { <A as Ssz>::strict() }
    proof fn law_wf(&self) { self.a.law_wf(); }
    proof fn law_len(v: <A as Ssz>::V) { <A as Ssz>::law_len(v); }
    proof fn law_flen() { <A as Ssz>::law_flen(); }
    proof fn law_dec(b: Seq<u8>) { <A as Ssz>::law_dec(b); }
    proof fn law_rt(v: <A as Ssz>::V) { <A as Ssz>::law_rt(v); }
    proof fn law_strict(b: Seq<u8>) { <A as Ssz>::law_strict(b); }
}
@@ impl Encode for DvT1Q<A>
@@ fn Encode for DvT1Q<A>::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvT1Q<A>::ssz_fixed_len
@props C07 C08
@@ fn Encode for DvT1Q<A>::ssz_bytes_len
@props C07 C08
@@ fn Encode for DvT1Q<A>::ssz_append
@props C01 C03 C08
@@ impl Decode for DvT1Q<A>
@@ fn Decode for DvT1Q<A>::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvT1Q<A>::ssz_fixed_len
@props C07 C08
@@ fn Decode for DvT1Q<A>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08

@@ module dvt2a private
@@ item DvT2A
@@ raw
impl<A: VDefault, B: Encode + Decode> Ssz for DvT2A<A, B> {
    type V = <B as Ssz>::V;
    open spec fn v(&self) -> <B as Ssz>::V { self.b.v() }
    open spec fn wf(&self) -> bool { self.b.wf() }
    open spec fn valid(v: <B as Ssz>::V) -> bool { <B as Ssz>::valid(v) }
    open spec fn ok() -> bool { <B as Ssz>::ok() }
    open spec fn fixed() -> bool { <B as Ssz>::fixed() }
    open spec fn flen() -> nat { <B as Ssz>::flen() }
    open spec fn enc(v: <B as Ssz>::V) -> Seq<u8> { <B as Ssz>::enc(v) }
    open spec fn dec(b: Seq<u8>) -> Option<<B as Ssz>::V> { <B as Ssz>::dec(b) }
    open spec fn rt() -> bool { <B as Ssz>::rt() }
    open spec fn strict() -> bool { <B as Ssz>::strict() }
    proof fn law_wf(&self) { self.b.law_wf(); }
    proof fn law_len(v: <B as Ssz>::V) { <B as Ssz>::law_len(v); }
    proof fn law_flen() { <B as Ssz>::law_flen(); }
    proof fn law_dec(b: Seq<u8>) { <B as Ssz>::law_dec(b); }
    proof fn law_rt(v: <B as Ssz>::V) { <B as Ssz>::law_rt(v); }
    proof fn law_strict(b: Seq<u8>) { <B as Ssz>::law_strict(b); }
}
@@ impl Encode for DvT2A<A,B>
@@ fn Encode for DvT2A<A,B>::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvT2A<A,B>::ssz_fixed_len
@props C07 C08
@@ fn Encode for DvT2A<A,B>::ssz_bytes_len
@props C07 C08
@@ fn Encode for DvT2A<A,B>::ssz_append
@props C01 C03 C08
@@ impl Decode for DvT2A<A,B>
@@ fn Decode for DvT2A<A,B>::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvT2A<A,B>::ssz_fixed_len
@props C07 C08
@@ fn Decode for DvT2A<A,B>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08
@spec
    ensures r is Ok ==> r->Ok_0.a.is_default()

@@ module dvt2b private
@@ item DvT2B
@@ raw
impl<A: Encode + Decode, B: VDefault> Ssz for DvT2B<A, B> {
    type V = <A as Ssz>::V;
    open spec fn v(&self) -> <A as Ssz>::V { self.0.v() }
    open spec fn wf(&self) -> bool { self.0.wf() }
    open spec fn valid(v: <A as Ssz>::V) -> bool { <A as Ssz>::valid(v) }
    open spec fn ok() -> bool { <A as Ssz>::ok() }
    open spec fn fixed() -> bool { <A as Ssz>::fixed() }
    open spec fn flen() -> nat { <A as Ssz>::flen() }
    open spec fn enc(v: <A as Ssz>::V) -> Seq<u8> { <A as Ssz>::enc(v) }
    open spec fn dec(b: Seq<u8>) -> Option<<A as Ssz>::V> { <A as Ssz>::dec(b) }
    open spec fn rt() -> bool { <A as Ssz>::rt() }
    open spec fn strict() -> bool { <A as Ssz>::strict() }
    proof fn law_wf(&self) { self.0.law_wf(); }
    proof fn law_len(v: <A as Ssz>::V) { <A as Ssz>::law_len(v); }
    proof fn law_flen() { <A as Ssz>::law_flen(); }
    proof fn law_dec(b: Seq<u8>) { <A as Ssz>::law_dec(b); }
    proof fn law_rt(v: <A as Ssz>::V) { <A as Ssz>::law_rt(v); }
    proof fn law_strict(b: Seq<u8>) { <A as Ssz>::law_strict(b); }
}
@@ impl Encode for DvT2B<A,B>
@@ fn Encode for DvT2B<A,B>::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvT2B<A,B>::ssz_fixed_len
@props C07 C08
@@ fn Encode for DvT2B<A,B>::ssz_bytes_len
@props C07 C08
@@ fn Encode for DvT2B<A,B>::ssz_append
@props C01 C03 C08
@@ impl Decode for DvT2B<A,B>
@@ fn Decode for DvT2B<A,B>::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvT2B<A,B>::ssz_fixed_len
@props C07 C08
@@ fn Decode for DvT2B<A,B>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08
@spec
    ensures r is Ok ==> r->Ok_0.1.is_default()

@@ module dvt3 private
@@ item DvT3
@@ raw
impl<A: VDefault, B: Encode + Decode, C: VDefault> Ssz for DvT3<A, B, C> {
    type V = <B as Ssz>::V;
    open spec fn v(&self) -> <B as Ssz>::V { self.1.v() }
    open spec fn wf(&self) -> bool { self.1.wf() }
    open spec fn valid(v: <B as Ssz>::V) -> bool { <B as Ssz>::valid(v) }
    open spec fn ok() -> bool { <B as Ssz>::ok() }
    open spec fn fixed() -> bool { <B as Ssz>::fixed() }
    open spec fn flen() -> nat { <B as Ssz>::flen() }
    open spec fn enc(v: <B as Ssz>::V) -> Seq<u8> { <B as Ssz>::enc(v) }
    open spec fn dec(b: Seq<u8>) -> Option<<B as Ssz>::V> { <B as Ssz>::dec(b) }
    open spec fn rt() -> bool { <B as Ssz>::rt() }
    open spec fn strict() -> bool { <B as Ssz>::strict() }
    proof fn law_wf(&self) { self.1.law_wf(); }
    proof fn law_len(v: <B as Ssz>::V) { <B as Ssz>::law_len(v); }
    proof fn law_flen() { <B as Ssz>::law_flen(); }
    proof fn law_dec(b: Seq<u8>) { <B as Ssz>::law_dec(b); }
    proof fn law_rt(v: <B as Ssz>::V) { <B as Ssz>::law_rt(v); }
    proof fn law_strict(b: Seq<u8>) { <B as Ssz>::law_strict(b); }
}
@@ impl Encode for DvT3<A,B,C>
@@ fn Encode for DvT3<A,B,C>::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvT3<A,B,C>::ssz_fixed_len
@props C07 C08
@@ fn Encode for DvT3<A,B,C>::ssz_bytes_len
@props C07 C08
@@ fn Encode for DvT3<A,B,C>::ssz_append
@props C01 C03 C08
@@ impl Decode for DvT3<A,B,C>
@@ fn Decode for DvT3<A,B,C>::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvT3<A,B,C>::ssz_fixed_len
@props C07 C08
@@ fn Decode for DvT3<A,B,C>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08
@spec
    ensures r is Ok ==> r->Ok_0.0.is_default(), r is Ok ==> r->Ok_0.2.is_default()

@@ module dvt3n private
@@ item DvT3N
@@ raw
impl<A: VDefault, B: Encode + Decode, C: VDefault> Ssz for DvT3N<A, B, C> {
    type V = <B as Ssz>::V;
    open spec fn v(&self) -> <B as Ssz>::V { self.b.v() }
    open spec fn wf(&self) -> bool { self.b.wf() }
    open spec fn valid(v: <B as Ssz>::V) -> bool { <B as Ssz>::valid(v) }
    open spec fn ok() -> bool { <B as Ssz>::ok() }
    open spec fn fixed() -> bool { <B as Ssz>::fixed() }
    open spec fn flen() -> nat { <B as Ssz>::flen() }
    open spec fn enc(v: <B as Ssz>::V) -> Seq<u8> { <B as Ssz>::enc(v) }
    open spec fn dec(b: Seq<u8>) -> Option<<B as Ssz>::V> { <B as Ssz>::dec(b) }
    open spec fn rt() -> bool { <B as Ssz>::rt() }
    open spec fn strict() -> bool { <B as Ssz>::strict() }
    proof fn law_wf(&self) { self.b.law_wf(); }
    proof fn law_len(v: <B as Ssz>::V) { <B as Ssz>::law_len(v); }
    proof fn law_flen() { <B as Ssz>::law_flen(); }
    proof fn law_dec(b: Seq<u8>) { <B as Ssz>::law_dec(b); }
    proof fn law_rt(v: <B as Ssz>::V) { <B as Ssz>::law_rt(v); }
    proof fn law_strict(b: Seq<u8>) { <B as Ssz>::law_strict(b); }
}
@@ impl Encode for DvT3N<A,B,C>
@@ fn Encode for DvT3N<A,B,C>::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvT3N<A,B,C>::ssz_fixed_len
@props C07 C08
@@ fn Encode for DvT3N<A,B,C>::ssz_bytes_len
@props C07 C08
@@ fn Encode for DvT3N<A,B,C>::ssz_append
@props C01 C03 C08
@@ impl Decode for DvT3N<A,B,C>
@@ fn Decode for DvT3N<A,B,C>::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvT3N<A,B,C>::ssz_fixed_len
@props C07 C08
@@ fn Decode for DvT3N<A,B,C>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08
@spec
    ensures r is Ok ==> r->Ok_0.a.is_default(), r is Ok ==> r->Ok_0.c.is_default()

@@ module dvtw1 private
@@ item DvTW1
@@ raw
impl Ssz for DvTW1 {
    type V = <KS::<1> as Ssz>::V;
    open spec fn v(&self) -> <KS::<1> as Ssz>::V { (KS::<1> { x: self.0 }).v() }
    open spec fn wf(&self) -> bool { (KS::<1> { x: self.0 }).wf() }
    open spec fn valid(v: <KS::<1> as Ssz>::V) -> bool { <KS::<1> as Ssz>::valid(v) }
    open spec fn ok() -> bool { <KS::<1> as Ssz>::ok() }
    open spec fn fixed() -> bool { <KS::<1> as Ssz>::fixed() }
    open spec fn flen() -> nat { <KS::<1> as Ssz>::flen() }
    open spec fn enc(v: <KS::<1> as Ssz>::V) -> Seq<u8> { <KS::<1> as Ssz>::enc(v) }
    open spec fn dec(b: Seq<u8>) -> Option<<KS::<1> as Ssz>::V> { <KS::<1> as Ssz>::dec(b) }
    open spec fn rt() -> bool { <KS::<1> as Ssz>::rt() }
    open spec fn strict() -> bool { <KS::<1> as Ssz>::strict() }
    proof fn law_wf(&self) { (KS::<1> { x: self.0 }).law_wf(); }
    proof fn law_len(v: <KS::<1> as Ssz>::V) { <KS::<1> as Ssz>::law_len(v); }
    proof fn law_flen() { <KS::<1> as Ssz>::law_flen(); }
    proof fn law_dec(b: Seq<u8>) { <KS::<1> as Ssz>::law_dec(b); }
    proof fn law_rt(v: <KS::<1> as Ssz>::V) { <KS::<1> as Ssz>::law_rt(v); }
    proof fn law_strict(b: Seq<u8>) { <KS::<1> as Ssz>::law_strict(b); }
}
@@ impl Encode for DvTW1
@@ fn Encode for DvTW1::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvTW1::ssz_fixed_len
@props C07 C08
@@ fn Encode for DvTW1::ssz_bytes_len
@props C07 C08
@@ fn Encode for DvTW1::ssz_append
@props C01 C03 C08
@@ impl Decode for DvTW1
@@ fn Decode for DvTW1::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvTW1::ssz_fixed_len
@props C07 C08
@@ fn Decode for DvTW1::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08

@@ module dvtw2 private
@@ item DvTW2
@@ raw
impl<B: VDefault> Ssz for DvTW2<B> {
    type V = <KS::<1> as Ssz>::V;
    open spec fn v(&self) -> <KS::<1> as Ssz>::V { (KS::<1> { x: self.a }).v() }
    open spec fn wf(&self) -> bool { (KS::<1> { x: self.a }).wf() }
    open spec fn valid(v: <KS::<1> as Ssz>::V) -> bool { <KS::<1> as Ssz>::valid(v) }
    open spec fn ok() -> bool { <KS::<1> as Ssz>::ok() }
    open spec fn fixed() -> bool { <KS::<1> as Ssz>::fixed() }
    open spec fn flen() -> nat { <KS::<1> as Ssz>::flen() }
    open spec fn enc(v: <KS::<1> as Ssz>::V) -> Seq<u8> { <KS::<1> as Ssz>::enc(v) }
    open spec fn dec(b: Seq<u8>) -> Option<<KS::<1> as Ssz>::V> { <KS::<1> as Ssz>::dec(b) }
    open spec fn rt() -> bool { <KS::<1> as Ssz>::rt() }
    open spec fn strict() -> bool { <KS::<1> as Ssz>::strict() }
    proof fn law_wf(&self) { (KS::<1> { x: self.a }).law_wf(); }
    proof fn law_len(v: <KS::<1> as Ssz>::V) { <KS::<1> as Ssz>::law_len(v); }
    proof fn law_flen() { <KS::<1> as Ssz>::law_flen(); }
    proof fn law_dec(b: Seq<u8>) { <KS::<1> as Ssz>::law_dec(b); }
    proof fn law_rt(v: <KS::<1> as Ssz>::V) { <KS::<1> as Ssz>::law_rt(v); }
    proof fn law_strict(b: Seq<u8>) { <KS::<1> as Ssz>::law_strict(b); }
}
@@ impl Encode for DvTW2<B>
@@ fn Encode for DvTW2<B>::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvTW2<B>::ssz_fixed_len
@props C07 C08
@@ fn Encode for DvTW2<B>::ssz_bytes_len
@props C07 C08
@@ fn Encode for DvTW2<B>::ssz_append
@props C01 C03 C08
@@ impl Decode for DvTW2<B>
@@ fn Decode for DvTW2<B>::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvTW2<B>::ssz_fixed_len
@props C07 C08
@@ fn Decode for DvTW2<B>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08
@spec
    ensures r is Ok ==> r->Ok_0.b.is_default()

@@ module dvtw2u private
@@ item DvTW2U
@@ raw
impl<A: VDefault> Ssz for DvTW2U<A> {
    type V = <KS::<1> as Ssz>::V;
    open spec fn v(&self) -> <KS::<1> as Ssz>::V { (KS::<1> { x: self.1 }).v() }
    open spec fn wf(&self) -> bool { (KS::<1> { x: self.1 }).wf() }
    open spec fn valid(v: <KS::<1> as Ssz>::V) -> bool { <KS::<1> as Ssz>::valid(v) }
    open spec fn ok() -> bool { <KS::<1> as Ssz>::ok() }
    open spec fn fixed() -> bool { <KS::<1> as Ssz>::fixed() }
    open spec fn flen() -> nat { <KS::<1> as Ssz>::flen() }
    open spec fn enc(v: <KS::<1> as Ssz>::V) -> Seq<u8> { <KS::<1> as Ssz>::enc(v) }
    open spec fn dec(b: Seq<u8>) -> Option<<KS::<1> as Ssz>::V> { <KS::<1> as Ssz>::dec(b) }
    open spec fn rt() -> bool { <KS::<1> as Ssz>::rt() }
    open spec fn strict() -> bool { <KS::<1> as Ssz>::strict() }
    proof fn law_wf(&self) { (KS::<1> { x: self.1 }).law_wf(); }
    proof fn law_len(v: <KS::<1> as Ssz>::V) { <KS::<1> as Ssz>::law_len(v); }
    proof fn law_flen() { <KS::<1> as Ssz>::law_flen(); }
    proof fn law_dec(b: Seq<u8>) { <KS::<1> as Ssz>::law_dec(b); }
    proof fn law_rt(v: <KS::<1> as Ssz>::V) { <KS::<1> as Ssz>::law_rt(v); }
    proof fn law_strict(b: Seq<u8>) { <KS::<1> as Ssz>::law_strict(b); }
}
@@ impl Encode for DvTW2U<A>
@@ fn Encode for DvTW2U<A>::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvTW2U<A>::ssz_fixed_len
@props C07 C08
@@ fn Encode for DvTW2U<A>::ssz_bytes_len
@props C07 C08
@@ fn Encode for DvTW2U<A>::ssz_append
@props C01 C03 C08
@@ impl Decode for DvTW2U<A>
@@ fn Decode for DvTW2U<A>::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvTW2U<A>::ssz_fixed_len
@props C07 C08
@@ fn Decode for DvTW2U<A>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08
@spec
    ensures r is Ok ==> r->Ok_0.0.is_default()

@@ module dvu1 private
@@ item DvU1
@@ raw
pub enum DvU1V<A> { Q0(A) }
impl<A: Encode + Decode> Ssz for DvU1<A> {
    type V = DvU1V<A::V>;
    open spec fn v(&self) -> DvU1V<A::V> { match self { DvU1::Q0(x) => DvU1V::Q0(x.v()), } }
    open spec fn wf(&self) -> bool { match self { DvU1::Q0(x) => x.wf(), } }
    open spec fn valid(v: DvU1V<A::V>) -> bool { match v { DvU1V::Q0(x) => A::valid(x), } }
    open spec fn ok() -> bool { A::ok() }
    open spec fn fixed() -> bool { false }
    open spec fn flen() -> nat { 4 }
    open spec fn enc(v: DvU1V<A::V>) -> Seq<u8> { match v { DvU1V::Q0(x) => sel(0, A::enc(x)), } }
    open spec fn dec(b: Seq<u8>) -> Option<DvU1V<A::V>> {
        if b.len() == 0 { None } else { if b[0] == 0 { match A::dec(b.skip(1)) { Some(x) => Some(DvU1V::Q0(x)), None => None } } else { None } }
    }
    open spec fn rt() -> bool { A::rt() }
    open spec fn strict() -> bool { A::strict() }
    proof fn law_wf(&self) { match self { DvU1::Q0(x) => x.law_wf(), } }
    proof fn law_len(v: DvU1V<A::V>) { }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) { if A::dec(b.skip(1)) is Some { A::law_dec(b.skip(1)); } }
    proof fn law_rt(v: DvU1V<A::V>) {
        match v { DvU1V::Q0(x) => A::law_rt(x), }
    }
    proof fn law_strict(b: Seq<u8>) {
        if A::dec(b.skip(1)) is Some { A::law_strict(b.skip(1)); }
        lemma_sel_eta(b);
    }
}
@@ impl Encode for DvU1<A>
@@ fn Encode for DvU1<A>::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvU1<A>::ssz_bytes_len
@props C07 C08
@@ fn Encode for DvU1<A>::ssz_append
@props C01 C03 C08 C15
@@ impl Decode for DvU1<A>
@@ fn Decode for DvU1<A>::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvU1<A>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08 C15

@@ module dvu2 private
@@ item DvU2
@@ raw
pub enum DvU2V<A, B> { Q0(A), M1(B) }
impl<A: Encode + Decode, B: Encode + Decode> Ssz for DvU2<A, B> {
    type V = DvU2V<A::V, B::V>;
    open spec fn v(&self) -> DvU2V<A::V, B::V> { match self { DvU2::Q0(x) => DvU2V::Q0(x.v()), DvU2::M1(x) => DvU2V::M1(x.v()), } }
    open spec fn wf(&self) -> bool { match self { DvU2::Q0(x) => x.wf(), DvU2::M1(x) => x.wf(), } }
    open spec fn valid(v: DvU2V<A::V, B::V>) -> bool { match v { DvU2V::Q0(x) => A::valid(x), DvU2V::M1(x) => B::valid(x), } }
    open spec fn ok() -> bool { A::ok() && B::ok() }
    open spec fn fixed() -> bool { false }
    open spec fn flen() -> nat { 4 }
    open spec fn enc(v: DvU2V<A::V, B::V>) -> Seq<u8> { match v { DvU2V::Q0(x) => sel(0, A::enc(x)), DvU2V::M1(x) => sel(1, B::enc(x)), } }
    open spec fn dec(b: Seq<u8>) -> Option<DvU2V<A::V, B::V>> {
        if b.len() == 0 { None } else { if b[0] == 0 { match A::dec(b.skip(1)) { Some(x) => Some(DvU2V::Q0(x)), None => None } } else { if b[0] == 1 { match B::dec(b.skip(1)) { Some(x) => Some(DvU2V::M1(x)), None => None } } else { None } } }
    }
    open spec fn rt() -> bool { A::rt() && B::rt() }
    open spec fn strict() -> bool { A::strict() && B::strict() }
    proof fn law_wf(&self) { match self { DvU2::Q0(x) => x.law_wf(), DvU2::M1(x) => x.law_wf(), } }
    proof fn law_len(v: DvU2V<A::V, B::V>) { }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) { if A::dec(b.skip(1)) is Some { A::law_dec(b.skip(1)); } if B::dec(b.skip(1)) is Some { B::law_dec(b.skip(1)); } }
    proof fn law_rt(v: DvU2V<A::V, B::V>) {
        match v { DvU2V::Q0(x) => A::law_rt(x), DvU2V::M1(x) => B::law_rt(x), }
    }
    proof fn law_strict(b: Seq<u8>) {
        if A::dec(b.skip(1)) is Some { A::law_strict(b.skip(1)); } if B::dec(b.skip(1)) is Some { B::law_strict(b.skip(1)); }
        lemma_sel_eta(b);
    }
}
@@ impl Encode for DvU2<A,B>
@@ fn Encode for DvU2<A,B>::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvU2<A,B>::ssz_bytes_len
@props C07 C08
@@ fn Encode for DvU2<A,B>::ssz_append
@props C01 C03 C08 C15
@@ impl Decode for DvU2<A,B>
@@ fn Decode for DvU2<A,B>::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvU2<A,B>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08 C15

@@ module dvu3 private
@@ item DvU3
@@ raw
pub enum DvU3V<A, B, C> { Q0(A), M1(B), X2(C) }
impl<A: Encode + Decode, B: Encode + Decode, C: Encode + Decode> Ssz for DvU3<A, B, C> {
    type V = DvU3V<A::V, B::V, C::V>;
    open spec fn v(&self) -> DvU3V<A::V, B::V, C::V> { match self { DvU3::Q0(x) => DvU3V::Q0(x.v()), DvU3::M1(x) => DvU3V::M1(x.v()), DvU3::X2(x) => DvU3V::X2(x.v()), } }
    open spec fn wf(&self) -> bool { match self { DvU3::Q0(x) => x.wf(), DvU3::M1(x) => x.wf(), DvU3::X2(x) => x.wf(), } }
    open spec fn valid(v: DvU3V<A::V, B::V, C::V>) -> bool { match v { DvU3V::Q0(x) => A::valid(x), DvU3V::M1(x) => B::valid(x), DvU3V::X2(x) => C::valid(x), } }
    open spec fn ok() -> bool { A::ok() && B::ok() && C::ok() }
    open spec fn fixed() -> bool { false }
    open spec fn flen() -> nat { 4 }
    open spec fn enc(v: DvU3V<A::V, B::V, C::V>) -> Seq<u8> { match v { DvU3V::Q0(x) => sel(0, A::enc(x)), DvU3V::M1(x) => sel(1, B::enc(x)), DvU3V::X2(x) => sel(2, C::enc(x)), } }
    open spec fn dec(b: Seq<u8>) -> Option<DvU3V<A::V, B::V, C::V>> {
        if b.len() == 0 { None } else { if b[0] == 0 { match A::dec(b.skip(1)) { Some(x) => Some(DvU3V::Q0(x)), None => None } } else { if b[0] == 1 { match B::dec(b.skip(1)) { Some(x) => Some(DvU3V::M1(x)), None => None } } else { if b[0] == 2 { match C::dec(b.skip(1)) { Some(x) => Some(DvU3V::X2(x)), None => None } } else { None } } } }
    }
    open spec fn rt() -> bool { A::rt() && B::rt() && C::rt() }
    open spec fn strict() -> bool { A::strict() && B::strict() && C::strict() }
    proof fn law_wf(&self) { match self { DvU3::Q0(x) => x.law_wf(), DvU3::M1(x) => x.law_wf(), DvU3::X2(x) => x.law_wf(), } }
    proof fn law_len(v: DvU3V<A::V, B::V, C::V>) { }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) { if A::dec(b.skip(1)) is Some { A::law_dec(b.skip(1)); } if B::dec(b.skip(1)) is Some { B::law_dec(b.skip(1)); } if C::dec(b.skip(1)) is Some { C::law_dec(b.skip(1)); } }
    proof fn law_rt(v: DvU3V<A::V, B::V, C::V>) {
        match v { DvU3V::Q0(x) => A::law_rt(x), DvU3V::M1(x) => B::law_rt(x), DvU3V::X2(x) => C::law_rt(x), }
    }
    proof fn law_strict(b: Seq<u8>) {
        if A::dec(b.skip(1)) is Some { A::law_strict(b.skip(1)); } if B::dec(b.skip(1)) is Some { B::law_strict(b.skip(1)); } if C::dec(b.skip(1)) is Some { C::law_strict(b.skip(1)); }
        lemma_sel_eta(b);
    }
}
@@ impl Encode for DvU3<A,B,C>
@@ fn Encode for DvU3<A,B,C>::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvU3<A,B,C>::ssz_bytes_len
@props C07 C08
@@ fn Encode for DvU3<A,B,C>::ssz_append
@props C01 C03 C08 C15
@@ impl Decode for DvU3<A,B,C>
@@ fn Decode for DvU3<A,B,C>::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvU3<A,B,C>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08 C15

@@ module dvu4 private
@@ item DvU4
@@ raw
pub enum DvU4V<A, B, C> { Q0(A), M1(B), X2(A), A3(C) }
impl<A: Encode + Decode, B: Encode + Decode, C: Encode + Decode> Ssz for DvU4<A, B, C> {
    type V = DvU4V<A::V, B::V, C::V>;
    open spec fn v(&self) -> DvU4V<A::V, B::V, C::V> { match self { DvU4::Q0(x) => DvU4V::Q0(x.v()), DvU4::M1(x) => DvU4V::M1(x.v()), DvU4::X2(x) => DvU4V::X2(x.v()), DvU4::A3(x) => DvU4V::A3(x.v()), } }
    open spec fn wf(&self) -> bool { match self { DvU4::Q0(x) => x.wf(), DvU4::M1(x) => x.wf(), DvU4::X2(x) => x.wf(), DvU4::A3(x) => x.wf(), } }
    open spec fn valid(v: DvU4V<A::V, B::V, C::V>) -> bool { match v { DvU4V::Q0(x) => A::valid(x), DvU4V::M1(x) => B::valid(x), DvU4V::X2(x) => A::valid(x), DvU4V::A3(x) => C::valid(x), } }
    open spec fn ok() -> bool { A::ok() && B::ok() && C::ok() }
    open spec fn fixed() -> bool { false }
    open spec fn flen() -> nat { 4 }
    open spec fn enc(v: DvU4V<A::V, B::V, C::V>) -> Seq<u8> { match v { DvU4V::Q0(x) => sel(0, A::enc(x)), DvU4V::M1(x) => sel(1, B::enc(x)), DvU4V::X2(x) => sel(2, A::enc(x)), DvU4V::A3(x) => sel(3, C::enc(x)), } }
    open spec fn dec(b: Seq<u8>) -> Option<DvU4V<A::V, B::V, C::V>> {
        if b.len() == 0 { None } else { if b[0] == 0 { match A::dec(b.skip(1)) { Some(x) => Some(DvU4V::Q0(x)), None => None } } else { if b[0] == 1 { match B::dec(b.skip(1)) { Some(x) => Some(DvU4V::M1(x)), None => None } } else { if b[0] == 2 { match A::dec(b.skip(1)) { Some(x) => Some(DvU4V::X2(x)), None => None } } else { if b[0] == 3 { match C::dec(b.skip(1)) { Some(x) => Some(DvU4V::A3(x)), None => None } } else { None } } } } }
    }
    open spec fn rt() -> bool { A::rt() && B::rt() && C::rt() }
    open spec fn strict() -> bool { A::strict() && B::strict() && C::strict() }
    proof fn law_wf(&self) { match self { DvU4::Q0(x) => x.law_wf(), DvU4::M1(x) => x.law_wf(), DvU4::X2(x) => x.law_wf(), DvU4::A3(x) => x.law_wf(), } }
    proof fn law_len(v: DvU4V<A::V, B::V, C::V>) { }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) { if A::dec(b.skip(1)) is Some { A::law_dec(b.skip(1)); } if B::dec(b.skip(1)) is Some { B::law_dec(b.skip(1)); } if C::dec(b.skip(1)) is Some { C::law_dec(b.skip(1)); } }
    proof fn law_rt(v: DvU4V<A::V, B::V, C::V>) {
        match v { DvU4V::Q0(x) => A::law_rt(x), DvU4V::M1(x) => B::law_rt(x), DvU4V::X2(x) => A::law_rt(x), DvU4V::A3(x) => C::law_rt(x), }
    }
    proof fn law_strict(b: Seq<u8>) {
        if A::dec(b.skip(1)) is Some { A::law_strict(b.skip(1)); } if B::dec(b.skip(1)) is Some { B::law_strict(b.skip(1)); } if C::dec(b.skip(1)) is Some { C::law_strict(b.skip(1)); }
        lemma_sel_eta(b);
    }
}
@@ impl Encode for DvU4<A,B,C>
@@ fn Encode for DvU4<A,B,C>::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvU4<A,B,C>::ssz_bytes_len
@props C07 C08
@@ fn Encode for DvU4<A,B,C>::ssz_append
@props C01 C03 C08 C15
@@ impl Decode for DvU4<A,B,C>
@@ fn Decode for DvU4<A,B,C>::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvU4<A,B,C>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08 C15

@@ module dvuk1 private
@@ item DvUK1
@@ raw
pub enum DvUK1V { Q0(KV) }
impl Ssz for DvUK1 {
    type V = DvUK1V;
    open spec fn v(&self) -> DvUK1V { match self { DvUK1::Q0(x) => DvUK1V::Q0((KS::<1> { x: *x }).v()), } }
    open spec fn wf(&self) -> bool { match self { DvUK1::Q0(x) => (KS::<1> { x: *x }).wf(), } }
    open spec fn valid(v: DvUK1V) -> bool { match v { DvUK1V::Q0(x) => KS::<1>::valid(x), } }
    open spec fn ok() -> bool { KS::<1>::ok() }
    open spec fn fixed() -> bool { false }
    open spec fn flen() -> nat { 4 }
    open spec fn enc(v: DvUK1V) -> Seq<u8> { match v { DvUK1V::Q0(x) => sel(0, KS::<1>::enc(x)), } }
    open spec fn dec(b: Seq<u8>) -> Option<DvUK1V> {
        if b.len() == 0 { None } else { if b[0] == 0 { match KS::<1>::dec(b.skip(1)) { Some(x) => Some(DvUK1V::Q0(x)), None => None } } else { None } }
    }
    open spec fn rt() -> bool { KS::<1>::rt() }
    open spec fn strict() -> bool { KS::<1>::strict() }
    proof fn law_wf(&self) { match self { DvUK1::Q0(x) => (KS::<1> { x: *x }).law_wf(), } }
    proof fn law_len(v: DvUK1V) { }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) { if KS::<1>::dec(b.skip(1)) is Some { KS::<1>::law_dec(b.skip(1)); } }
    proof fn law_rt(v: DvUK1V) {
        match v { DvUK1V::Q0(x) => KS::<1>::law_rt(x), }
    }
    proof fn law_strict(b: Seq<u8>) {
        if KS::<1>::dec(b.skip(1)) is Some { KS::<1>::law_strict(b.skip(1)); }
        lemma_sel_eta(b);
    }
}
@@ impl Encode for DvUK1
@@ fn Encode for DvUK1::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvUK1::ssz_bytes_len
@props C07 C08
@@ fn Encode for DvUK1::ssz_append
@props C01 C03 C08 C15
@@ impl Decode for DvUK1
@@ fn Decode for DvUK1::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvUK1::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08 C15

@@ module dvuk3 private
@@ item DvUK3
@@ raw
pub enum DvUK3V<A> { Q0(KV), M1(A), X2(KV) }
impl<A: Encode + Decode> Ssz for DvUK3<A> {
    type V = DvUK3V<A::V>;
    open spec fn v(&self) -> DvUK3V<A::V> { match self { DvUK3::Q0(x) => DvUK3V::Q0((KS::<1> { x: *x }).v()), DvUK3::M1(x) => DvUK3V::M1(x.v()), DvUK3::X2(x) => DvUK3V::X2((KS::<2> { x: *x }).v()), } }
    open spec fn wf(&self) -> bool { match self { DvUK3::Q0(x) => (KS::<1> { x: *x }).wf(), DvUK3::M1(x) => x.wf(), DvUK3::X2(x) => (KS::<2> { x: *x }).wf(), } }
    open spec fn valid(v: DvUK3V<A::V>) -> bool { match v { DvUK3V::Q0(x) => KS::<1>::valid(x), DvUK3V::M1(x) => A::valid(x), DvUK3V::X2(x) => KS::<2>::valid(x), } }
    open spec fn ok() -> bool { KS::<1>::ok() && A::ok() && KS::<2>::ok() }
    open spec fn fixed() -> bool { false }
    open spec fn flen() -> nat { 4 }
    open spec fn enc(v: DvUK3V<A::V>) -> Seq<u8> { match v { DvUK3V::Q0(x) => sel(0, KS::<1>::enc(x)), DvUK3V::M1(x) => sel(1, A::enc(x)), DvUK3V::X2(x) => sel(2, KS::<2>::enc(x)), } }
    open spec fn dec(b: Seq<u8>) -> Option<DvUK3V<A::V>> {
        if b.len() == 0 { None } else { if b[0] == 0 { match KS::<1>::dec(b.skip(1)) { Some(x) => Some(DvUK3V::Q0(x)), None => None } } else { if b[0] == 1 { match A::dec(b.skip(1)) { Some(x) => Some(DvUK3V::M1(x)), None => None } } else { if b[0] == 2 { match KS::<2>::dec(b.skip(1)) { Some(x) => Some(DvUK3V::X2(x)), None => None } } else { None } } } }
    }
    open spec fn rt() -> bool { KS::<1>::rt() && A::rt() && KS::<2>::rt() }
    open spec fn strict() -> bool { KS::<1>::strict() && A::strict() && KS::<2>::strict() }
    proof fn law_wf(&self) { match self { DvUK3::Q0(x) => (KS::<1> { x: *x }).law_wf(), DvUK3::M1(x) => x.law_wf(), DvUK3::X2(x) => (KS::<2> { x: *x }).law_wf(), } }
    proof fn law_len(v: DvUK3V<A::V>) { }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) { if KS::<1>::dec(b.skip(1)) is Some { KS::<1>::law_dec(b.skip(1)); } if A::dec(b.skip(1)) is Some { A::law_dec(b.skip(1)); } if KS::<2>::dec(b.skip(1)) is Some { KS::<2>::law_dec(b.skip(1)); } }
    proof fn law_rt(v: DvUK3V<A::V>) {
        match v { DvUK3V::Q0(x) => KS::<1>::law_rt(x), DvUK3V::M1(x) => A::law_rt(x), DvUK3V::X2(x) => KS::<2>::law_rt(x), }
    }
    proof fn law_strict(b: Seq<u8>) {
        if KS::<1>::dec(b.skip(1)) is Some { KS::<1>::law_strict(b.skip(1)); } if A::dec(b.skip(1)) is Some { A::law_strict(b.skip(1)); } if KS::<2>::dec(b.skip(1)) is Some { KS::<2>::law_strict(b.skip(1)); }
        lemma_sel_eta(b);
    }
}
@@ impl Encode for DvUK3<A>
@@ fn Encode for DvUK3<A>::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvUK3<A>::ssz_bytes_len
@props C07 C08
@@ fn Encode for DvUK3<A>::ssz_append
@props C01 C03 C08 C15
@@ impl Decode for DvUK3<A>
@@ fn Decode for DvUK3<A>::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvUK3<A>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08 C15

@@ module dvuk4 private
@@ item DvUK4
@@ raw
pub enum DvUK4V<A, B> { Q0(A), M1(KV), X2(B), A3(KV) }
impl<A: Encode + Decode, B: Encode + Decode> Ssz for DvUK4<A, B> {
    type V = DvUK4V<A::V, B::V>;
    open spec fn v(&self) -> DvUK4V<A::V, B::V> { match self { DvUK4::Q0(x) => DvUK4V::Q0(x.v()), DvUK4::M1(x) => DvUK4V::M1((KS::<1> { x: *x }).v()), DvUK4::X2(x) => DvUK4V::X2(x.v()), DvUK4::A3(x) => DvUK4V::A3((KS::<1> { x: *x }).v()), } }
    open spec fn wf(&self) -> bool { match self { DvUK4::Q0(x) => x.wf(), DvUK4::M1(x) => (KS::<1> { x: *x }).wf(), DvUK4::X2(x) => x.wf(), DvUK4::A3(x) => (KS::<1> { x: *x }).wf(), } }
    open spec fn valid(v: DvUK4V<A::V, B::V>) -> bool { match v { DvUK4V::Q0(x) => A::valid(x), DvUK4V::M1(x) => KS::<1>::valid(x), DvUK4V::X2(x) => B::valid(x), DvUK4V::A3(x) => KS::<1>::valid(x), } }
    open spec fn ok() -> bool { A::ok() && KS::<1>::ok() && B::ok() }
    open spec fn fixed() -> bool { false }
    open spec fn flen() -> nat { 4 }
    open spec fn enc(v: DvUK4V<A::V, B::V>) -> Seq<u8> { match v { DvUK4V::Q0(x) => sel(0, A::enc(x)), DvUK4V::M1(x) => sel(1, KS::<1>::enc(x)), DvUK4V::X2(x) => sel(2, B::enc(x)), DvUK4V::A3(x) => sel(3, KS::<1>::enc(x)), } }
    open spec fn dec(b: Seq<u8>) -> Option<DvUK4V<A::V, B::V>> {
        if b.len() == 0 { None } else { if b[0] == 0 { match A::dec(b.skip(1)) { Some(x) => Some(DvUK4V::Q0(x)), None => None } } else { if b[0] == 1 { match KS::<1>::dec(b.skip(1)) { Some(x) => Some(DvUK4V::M1(x)), None => None } } else { if b[0] == 2 { match B::dec(b.skip(1)) { Some(x) => Some(DvUK4V::X2(x)), None => None } } else { if b[0] == 3 { match KS::<1>::dec(b.skip(1)) { Some(x) => Some(DvUK4V::A3(x)), None => None } } else { None } } } } }
    }
    open spec fn rt() -> bool { A::rt() && KS::<1>::rt() && B::rt() }
    open spec fn strict() -> bool { A::strict() && KS::<1>::strict() && B::strict() }
    proof fn law_wf(&self) { match self { DvUK4::Q0(x) => x.law_wf(), DvUK4::M1(x) => (KS::<1> { x: *x }).law_wf(), DvUK4::X2(x) => x.law_wf(), DvUK4::A3(x) => (KS::<1> { x: *x }).law_wf(), } }
    proof fn law_len(v: DvUK4V<A::V, B::V>) { }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) { if A::dec(b.skip(1)) is Some { A::law_dec(b.skip(1)); } if KS::<1>::dec(b.skip(1)) is Some { KS::<1>::law_dec(b.skip(1)); } if B::dec(b.skip(1)) is Some { B::law_dec(b.skip(1)); } }
    proof fn law_rt(v: DvUK4V<A::V, B::V>) {
        match v { DvUK4V::Q0(x) => A::law_rt(x), DvUK4V::M1(x) => KS::<1>::law_rt(x), DvUK4V::X2(x) => B::law_rt(x), DvUK4V::A3(x) => KS::<1>::law_rt(x), }
    }
    proof fn law_strict(b: Seq<u8>) {
        if A::dec(b.skip(1)) is Some { A::law_strict(b.skip(1)); } if KS::<1>::dec(b.skip(1)) is Some { KS::<1>::law_strict(b.skip(1)); } if B::dec(b.skip(1)) is Some { B::law_strict(b.skip(1)); }
        lemma_sel_eta(b);
    }
}
@@ impl Encode for DvUK4<A,B>
@@ fn Encode for DvUK4<A,B>::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvUK4<A,B>::ssz_bytes_len
@props C07 C08
@@ fn Encode for DvUK4<A,B>::ssz_append
@props C01 C03 C08 C15
@@ impl Decode for DvUK4<A,B>
@@ fn Decode for DvUK4<A,B>::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvUK4<A,B>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08 C15

@@ module dvu128 private
@@ item DvU128
@@ raw
pub enum DvU128P<A, B> { A(A), B(B) }
impl<A: Encode + Decode, B: Encode + Decode> Ssz for DvU128<A, B> {
    type V = (u8, DvU128P<A::V, B::V>);
    open spec fn v(&self) -> (u8, DvU128P<A::V, B::V>) { match self { DvU128::Q0(x) => (0, DvU128P::A(x.v())), DvU128::M1(x) => (1, DvU128P::B(x.v())), DvU128::X2(x) => (2, DvU128P::A(x.v())), DvU128::A3(x) => (3, DvU128P::B(x.v())), DvU128::T4(x) => (4, DvU128P::A(x.v())), DvU128::E5(x) => (5, DvU128P::B(x.v())), DvU128::Z6(x) => (6, DvU128P::A(x.v())), DvU128::B7(x) => (7, DvU128P::B(x.v())), DvU128::Q8(x) => (8, DvU128P::A(x.v())), DvU128::M9(x) => (9, DvU128P::B(x.v())), DvU128::X10(x) => (10, DvU128P::A(x.v())), DvU128::A11(x) => (11, DvU128P::B(x.v())), DvU128::T12(x) => (12, DvU128P::A(x.v())), DvU128::E13(x) => (13, DvU128P::B(x.v())), DvU128::Z14(x) => (14, DvU128P::A(x.v())), DvU128::B15(x) => (15, DvU128P::B(x.v())), DvU128::Q16(x) => (16, DvU128P::A(x.v())), DvU128::M17(x) => (17, DvU128P::B(x.v())), DvU128::X18(x) => (18, DvU128P::A(x.v())), DvU128::A19(x) => (19, DvU128P::B(x.v())), DvU128::T20(x) => (20, DvU128P::A(x.v())), DvU128::E21(x) => (21, DvU128P::B(x.v())), DvU128::Z22(x) => (22, DvU128P::A(x.v())), DvU128::B23(x) => (23, DvU128P::B(x.v())), DvU128::Q24(x) => (24, DvU128P::A(x.v())), DvU128::M25(x) => (25, DvU128P::B(x.v())), DvU128::X26(x) => (26, DvU128P::A(x.v())), DvU128::A27(x) => (27, DvU128P::B(x.v())), DvU128::T28(x) => (28, DvU128P::A(x.v())), DvU128::E29(x) => (29, DvU128P::B(x.v())), DvU128::Z30(x) => (30, DvU128P::A(x.v())), DvU128::B31(x) => (31, DvU128P::B(x.v())), DvU128::Q32(x) => (32, DvU128P::A(x.v())), DvU128::M33(x) => (33, DvU128P::B(x.v())), DvU128::X34(x) => (34, DvU128P::A(x.v())), DvU128::A35(x) => (35, DvU128P::B(x.v())), DvU128::T36(x) => (36, DvU128P::A(x.v())), DvU128::E37(x) => (37, DvU128P::B(x.v())), DvU128::Z38(x) => (38, DvU128P::A(x.v())), DvU128::B39(x) => (39, DvU128P::B(x.v())), DvU128::Q40(x) => (40, DvU128P::A(x.v())), DvU128::M41(x) => (41, DvU128P::B(x.v())), DvU128::X42(x) => (42, DvU128P::A(x.v())), DvU128::A43(x) => (43, DvU128P::B(x.v())), DvU128::T44(x) => (44, DvU128P::A(x.v())), DvU128::E45(x) => (45, DvU128P::B(x.v())), DvU128::Z46(x) => (46, DvU128P::A(x.v())), DvU128::B47(x) => (47, DvU128P::B(x.v())), DvU128::Q48(x) => (48, DvU128P::A(x.v())), DvU128::M49(x) => (49, DvU128P::B(x.v())), DvU128::X50(x) => (50, DvU128P::A(x.v())), DvU128::A51(x) => (51, DvU128P::B(x.v())), DvU128::T52(x) => (52, DvU128P::A(x.v())), DvU128::E53(x) => (53, DvU128P::B(x.v())), DvU128::Z54(x) => (54, DvU128P::A(x.v())), DvU128::B55(x) => (55, DvU128P::B(x.v())), DvU128::Q56(x) => (56, DvU128P::A(x.v())), DvU128::M57(x) => (57, DvU128P::B(x.v())), DvU128::X58(x) => (58, DvU128P::A(x.v())), DvU128::A59(x) => (59, DvU128P::B(x.v())), DvU128::T60(x) => (60, DvU128P::A(x.v())), DvU128::E61(x) => (61, DvU128P::B(x.v())), DvU128::Z62(x) => (62, DvU128P::A(x.v())), DvU128::B63(x) => (63, DvU128P::B(x.v())), DvU128::Q64(x) => (64, DvU128P::A(x.v())), DvU128::M65(x) => (65, DvU128P::B(x.v())), DvU128::X66(x) => (66, DvU128P::A(x.v())), DvU128::A67(x) => (67, DvU128P::B(x.v())), DvU128::T68(x) => (68, DvU128P::A(x.v())), DvU128::E69(x) => (69, DvU128P::B(x.v())), DvU128::Z70(x) => (70, DvU128P::A(x.v())), DvU128::B71(x) => (71, DvU128P::B(x.v())), DvU128::Q72(x) => (72, DvU128P::A(x.v())), DvU128::M73(x) => (73, DvU128P::B(x.v())), DvU128::X74(x) => (74, DvU128P::A(x.v())), DvU128::A75(x) => (75, DvU128P::B(x.v())), DvU128::T76(x) => (76, DvU128P::A(x.v())), DvU128::E77(x) => (77, DvU128P::B(x.v())), DvU128::Z78(x) => (78, DvU128P::A(x.v())), DvU128::B79(x) => (79, DvU128P::B(x.v())), DvU128::Q80(x) => (80, DvU128P::A(x.v())), DvU128::M81(x) => (81, DvU128P::B(x.v())), DvU128::X82(x) => (82, DvU128P::A(x.v())), DvU128::A83(x) => (83, DvU128P::B(x.v())), DvU128::T84(x) => (84, DvU128P::A(x.v())), DvU128::E85(x) => (85, DvU128P::B(x.v())), DvU128::Z86(x) => (86, DvU128P::A(x.v())), DvU128::B87(x) => (87, DvU128P::B(x.v())), DvU128::Q88(x) => (88, DvU128P::A(x.v())), DvU128::M89(x) => (89, DvU128P::B(x.v())), DvU128::X90(x) => (90, DvU128P::A(x.v())), DvU128::A91(x) => (91, DvU128P::B(x.v())), DvU128::T92(x) => (92, DvU128P::A(x.v())), DvU128::E93(x) => (93, DvU128P::B(x.v())), DvU128::Z94(x) => (94, DvU128P::A(x.v())), DvU128::B95(x) => (95, DvU128P::B(x.v())), DvU128::Q96(x) => (96, DvU128P::A(x.v())), DvU128::M97(x) => (97, DvU128P::B(x.v())), DvU128::X98(x) => (98, DvU128P::A(x.v())), DvU128::A99(x) => (99, DvU128P::B(x.v())), DvU128::T100(x) => (100, DvU128P::A(x.v())), DvU128::E101(x) => (101, DvU128P::B(x.v())), DvU128::Z102(x) => (102, DvU128P::A(x.v())), DvU128::B103(x) => (103, DvU128P::B(x.v())), DvU128::Q104(x) => (104, DvU128P::A(x.v())), DvU128::M105(x) => (105, DvU128P::B(x.v())), DvU128::X106(x) => (106, DvU128P::A(x.v())), DvU128::A107(x) => (107, DvU128P::B(x.v())), DvU128::T108(x) => (108, DvU128P::A(x.v())), DvU128::E109(x) => (109, DvU128P::B(x.v())), DvU128::Z110(x) => (110, DvU128P::A(x.v())), DvU128::B111(x) => (111, DvU128P::B(x.v())), DvU128::Q112(x) => (112, DvU128P::A(x.v())), DvU128::M113(x) => (113, DvU128P::B(x.v())), DvU128::X114(x) => (114, DvU128P::A(x.v())), DvU128::A115(x) => (115, DvU128P::B(x.v())), DvU128::T116(x) => (116, DvU128P::A(x.v())), DvU128::E117(x) => (117, DvU128P::B(x.v())), DvU128::Z118(x) => (118, DvU128P::A(x.v())), DvU128::B119(x) => (119, DvU128P::B(x.v())), DvU128::Q120(x) => (120, DvU128P::A(x.v())), DvU128::M121(x) => (121, DvU128P::B(x.v())), DvU128::X122(x) => (122, DvU128P::A(x.v())), DvU128::A123(x) => (123, DvU128P::B(x.v())), DvU128::T124(x) => (124, DvU128P::A(x.v())), DvU128::E125(x) => (125, DvU128P::B(x.v())), DvU128::Z126(x) => (126, DvU128P::A(x.v())), DvU128::B127(x) => (127, DvU128P::B(x.v())), } }
    open spec fn wf(&self) -> bool { match self { DvU128::Q0(x) => x.wf(), DvU128::M1(x) => x.wf(), DvU128::X2(x) => x.wf(), DvU128::A3(x) => x.wf(), DvU128::T4(x) => x.wf(), DvU128::E5(x) => x.wf(), DvU128::Z6(x) => x.wf(), DvU128::B7(x) => x.wf(), DvU128::Q8(x) => x.wf(), DvU128::M9(x) => x.wf(), DvU128::X10(x) => x.wf(), DvU128::A11(x) => x.wf(), DvU128::T12(x) => x.wf(), DvU128::E13(x) => x.wf(), DvU128::Z14(x) => x.wf(), DvU128::B15(x) => x.wf(), DvU128::Q16(x) => x.wf(), DvU128::M17(x) => x.wf(), DvU128::X18(x) => x.wf(), DvU128::A19(x) => x.wf(), DvU128::T20(x) => x.wf(), DvU128::E21(x) => x.wf(), DvU128::Z22(x) => x.wf(), DvU128::B23(x) => x.wf(), DvU128::Q24(x) => x.wf(), DvU128::M25(x) => x.wf(), DvU128::X26(x) => x.wf(), DvU128::A27(x) => x.wf(), DvU128::T28(x) => x.wf(), DvU128::E29(x) => x.wf(), DvU128::Z30(x) => x.wf(), DvU128::B31(x) => x.wf(), DvU128::Q32(x) => x.wf(), DvU128::M33(x) => x.wf(), DvU128::X34(x) => x.wf(), DvU128::A35(x) => x.wf(), DvU128::T36(x) => x.wf(), DvU128::E37(x) => x.wf(), DvU128::Z38(x) => x.wf(), DvU128::B39(x) => x.wf(), DvU128::Q40(x) => x.wf(), DvU128::M41(x) => x.wf(), DvU128::X42(x) => x.wf(), DvU128::A43(x) => x.wf(), DvU128::T44(x) => x.wf(), DvU128::E45(x) => x.wf(), DvU128::Z46(x) => x.wf(), DvU128::B47(x) => x.wf(), DvU128::Q48(x) => x.wf(), DvU128::M49(x) => x.wf(), DvU128::X50(x) => x.wf(), DvU128::A51(x) => x.wf(), DvU128::T52(x) => x.wf(), DvU128::E53(x) => x.wf(), DvU128::Z54(x) => x.wf(), DvU128::B55(x) => x.wf(), DvU128::Q56(x) => x.wf(), DvU128::M57(x) => x.wf(), DvU128::X58(x) => x.wf(), DvU128::A59(x) => x.wf(), DvU128::T60(x) => x.wf(), DvU128::E61(x) => x.wf(), DvU128::Z62(x) => x.wf(), DvU128::B63(x) => x.wf(), DvU128::Q64(x) => x.wf(), DvU128::M65(x) => x.wf(), DvU128::X66(x) => x.wf(), DvU128::A67(x) => x.wf(), DvU128::T68(x) => x.wf(), DvU128::E69(x) => x.wf(), DvU128::Z70(x) => x.wf(), DvU128::B71(x) => x.wf(), DvU128::Q72(x) => x.wf(), DvU128::M73(x) => x.wf(), DvU128::X74(x) => x.wf(), DvU128::A75(x) => x.wf(), DvU128::T76(x) => x.wf(), DvU128::E77(x) => x.wf(), DvU128::Z78(x) => x.wf(), DvU128::B79(x) => x.wf(), DvU128::Q80(x) => x.wf(), DvU128::M81(x) => x.wf(), DvU128::X82(x) => x.wf(), DvU128::A83(x) => x.wf(), DvU128::T84(x) => x.wf(), DvU128::E85(x) => x.wf(), DvU128::Z86(x) => x.wf(), DvU128::B87(x) => x.wf(), DvU128::Q88(x) => x.wf(), DvU128::M89(x) => x.wf(), DvU128::X90(x) => x.wf(), DvU128::A91(x) => x.wf(), DvU128::T92(x) => x.wf(), DvU128::E93(x) => x.wf(), DvU128::Z94(x) => x.wf(), DvU128::B95(x) => x.wf(), DvU128::Q96(x) => x.wf(), DvU128::M97(x) => x.wf(), DvU128::X98(x) => x.wf(), DvU128::A99(x) => x.wf(), DvU128::T100(x) => x.wf(), DvU128::E101(x) => x.wf(), DvU128::Z102(x) => x.wf(), DvU128::B103(x) => x.wf(), DvU128::Q104(x) => x.wf(), DvU128::M105(x) => x.wf(), DvU128::X106(x) => x.wf(), DvU128::A107(x) => x.wf(), DvU128::T108(x) => x.wf(), DvU128::E109(x) => x.wf(), DvU128::Z110(x) => x.wf(), DvU128::B111(x) => x.wf(), DvU128::Q112(x) => x.wf(), DvU128::M113(x) => x.wf(), DvU128::X114(x) => x.wf(), DvU128::A115(x) => x.wf(), DvU128::T116(x) => x.wf(), DvU128::E117(x) => x.wf(), DvU128::Z118(x) => x.wf(), DvU128::B119(x) => x.wf(), DvU128::Q120(x) => x.wf(), DvU128::M121(x) => x.wf(), DvU128::X122(x) => x.wf(), DvU128::A123(x) => x.wf(), DvU128::T124(x) => x.wf(), DvU128::E125(x) => x.wf(), DvU128::Z126(x) => x.wf(), DvU128::B127(x) => x.wf(), } }
    open spec fn valid(v: (u8, DvU128P<A::V, B::V>)) -> bool {
        v.0 < 128 && match v.1 { DvU128P::A(x) => v.0 % 2 == 0 && A::valid(x), DvU128P::B(x) => v.0 % 2 == 1 && B::valid(x) }
    }
    open spec fn ok() -> bool { A::ok() && B::ok() }
    open spec fn fixed() -> bool { false }
    open spec fn flen() -> nat { 4 }
    open spec fn enc(v: (u8, DvU128P<A::V, B::V>)) -> Seq<u8> { sel(v.0, match v.1 { DvU128P::A(x) => A::enc(x), DvU128P::B(x) => B::enc(x) }) }
    open spec fn dec(b: Seq<u8>) -> Option<(u8, DvU128P<A::V, B::V>)> {
        if b.len() == 0 || b[0] >= 128 { None }
        else if b[0] % 2 == 0 { match A::dec(b.skip(1)) { Some(x) => Some((b[0], DvU128P::A(x))), None => None } }
        else { match B::dec(b.skip(1)) { Some(x) => Some((b[0], DvU128P::B(x))), None => None } }
    }
    open spec fn rt() -> bool { A::rt() && B::rt() }
    open spec fn strict() -> bool { A::strict() && B::strict() }
    proof fn law_wf(&self) { match self { DvU128::Q0(x) => x.law_wf(), DvU128::M1(x) => x.law_wf(), DvU128::X2(x) => x.law_wf(), DvU128::A3(x) => x.law_wf(), DvU128::T4(x) => x.law_wf(), DvU128::E5(x) => x.law_wf(), DvU128::Z6(x) => x.law_wf(), DvU128::B7(x) => x.law_wf(), DvU128::Q8(x) => x.law_wf(), DvU128::M9(x) => x.law_wf(), DvU128::X10(x) => x.law_wf(), DvU128::A11(x) => x.law_wf(), DvU128::T12(x) => x.law_wf(), DvU128::E13(x) => x.law_wf(), DvU128::Z14(x) => x.law_wf(), DvU128::B15(x) => x.law_wf(), DvU128::Q16(x) => x.law_wf(), DvU128::M17(x) => x.law_wf(), DvU128::X18(x) => x.law_wf(), DvU128::A19(x) => x.law_wf(), DvU128::T20(x) => x.law_wf(), DvU128::E21(x) => x.law_wf(), DvU128::Z22(x) => x.law_wf(), DvU128::B23(x) => x.law_wf(), DvU128::Q24(x) => x.law_wf(), DvU128::M25(x) => x.law_wf(), DvU128::X26(x) => x.law_wf(), DvU128::A27(x) => x.law_wf(), DvU128::T28(x) => x.law_wf(), DvU128::E29(x) => x.law_wf(), DvU128::Z30(x) => x.law_wf(), DvU128::B31(x) => x.law_wf(), DvU128::Q32(x) => x.law_wf(), DvU128::M33(x) => x.law_wf(), DvU128::X34(x) => x.law_wf(), DvU128::A35(x) => x.law_wf(), DvU128::T36(x) => x.law_wf(), DvU128::E37(x) => x.law_wf(), DvU128::Z38(x) => x.law_wf(), DvU128::B39(x) => x.law_wf(), DvU128::Q40(x) => x.law_wf(), DvU128::M41(x) => x.law_wf(), DvU128::X42(x) => x.law_wf(), DvU128::A43(x) => x.law_wf(), DvU128::T44(x) => x.law_wf(), DvU128::E45(x) => x.law_wf(), DvU128::Z46(x) => x.law_wf(), DvU128::B47(x) => x.law_wf(), DvU128::Q48(x) => x.law_wf(), DvU128::M49(x) => x.law_wf(), DvU128::X50(x) => x.law_wf(), DvU128::A51(x) => x.law_wf(), DvU128::T52(x) => x.law_wf(), DvU128::E53(x) => x.law_wf(), DvU128::Z54(x) => x.law_wf(), DvU128::B55(x) => x.law_wf(), DvU128::Q56(x) => x.law_wf(), DvU128::M57(x) => x.law_wf(), DvU128::X58(x) => x.law_wf(), DvU128::A59(x) => x.law_wf(), DvU128::T60(x) => x.law_wf(), DvU128::E61(x) => x.law_wf(), DvU128::Z62(x) => x.law_wf(), DvU128::B63(x) => x.law_wf(), DvU128::Q64(x) => x.law_wf(), DvU128::M65(x) => x.law_wf(), DvU128::X66(x) => x.law_wf(), DvU128::A67(x) => x.law_wf(), DvU128::T68(x) => x.law_wf(), DvU128::E69(x) => x.law_wf(), DvU128::Z70(x) => x.law_wf(), DvU128::B71(x) => x.law_wf(), DvU128::Q72(x) => x.law_wf(), DvU128::M73(x) => x.law_wf(), DvU128::X74(x) => x.law_wf(), DvU128::A75(x) => x.law_wf(), DvU128::T76(x) => x.law_wf(), DvU128::E77(x) => x.law_wf(), DvU128::Z78(x) => x.law_wf(), DvU128::B79(x) => x.law_wf(), DvU128::Q80(x) => x.law_wf(), DvU128::M81(x) => x.law_wf(), DvU128::X82(x) => x.law_wf(), DvU128::A83(x) => x.law_wf(), DvU128::T84(x) => x.law_wf(), DvU128::E85(x) => x.law_wf(), DvU128::Z86(x) => x.law_wf(), DvU128::B87(x) => x.law_wf(), DvU128::Q88(x) => x.law_wf(), DvU128::M89(x) => x.law_wf(), DvU128::X90(x) => x.law_wf(), DvU128::A91(x) => x.law_wf(), DvU128::T92(x) => x.law_wf(), DvU128::E93(x) => x.law_wf(), DvU128::Z94(x) => x.law_wf(), DvU128::B95(x) => x.law_wf(), DvU128::Q96(x) => x.law_wf(), DvU128::M97(x) => x.law_wf(), DvU128::X98(x) => x.law_wf(), DvU128::A99(x) => x.law_wf(), DvU128::T100(x) => x.law_wf(), DvU128::E101(x) => x.law_wf(), DvU128::Z102(x) => x.law_wf(), DvU128::B103(x) => x.law_wf(), DvU128::Q104(x) => x.law_wf(), DvU128::M105(x) => x.law_wf(), DvU128::X106(x) => x.law_wf(), DvU128::A107(x) => x.law_wf(), DvU128::T108(x) => x.law_wf(), DvU128::E109(x) => x.law_wf(), DvU128::Z110(x) => x.law_wf(), DvU128::B111(x) => x.law_wf(), DvU128::Q112(x) => x.law_wf(), DvU128::M113(x) => x.law_wf(), DvU128::X114(x) => x.law_wf(), DvU128::A115(x) => x.law_wf(), DvU128::T116(x) => x.law_wf(), DvU128::E117(x) => x.law_wf(), DvU128::Z118(x) => x.law_wf(), DvU128::B119(x) => x.law_wf(), DvU128::Q120(x) => x.law_wf(), DvU128::M121(x) => x.law_wf(), DvU128::X122(x) => x.law_wf(), DvU128::A123(x) => x.law_wf(), DvU128::T124(x) => x.law_wf(), DvU128::E125(x) => x.law_wf(), DvU128::Z126(x) => x.law_wf(), DvU128::B127(x) => x.law_wf(), } }
    proof fn law_len(v: (u8, DvU128P<A::V, B::V>)) { }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) { if b[0] % 2 == 0 { A::law_dec(b.skip(1)); } else { B::law_dec(b.skip(1)); } }
    proof fn law_rt(v: (u8, DvU128P<A::V, B::V>)) { match v.1 { DvU128P::A(x) => A::law_rt(x), DvU128P::B(x) => B::law_rt(x) } }
    proof fn law_strict(b: Seq<u8>) {
        if b[0] % 2 == 0 { A::law_strict(b.skip(1)); } else { B::law_strict(b.skip(1)); }
        lemma_sel_eta(b);
    }
}
@@ impl Encode for DvU128<A,B>
@@ fn Encode for DvU128<A,B>::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvU128<A,B>::ssz_bytes_len
@props C07 C08
@attr #[verifier::rlimit(80)]
@@ fn Encode for DvU128<A,B>::ssz_append
@props C01 C03 C08 C15
@attr #[verifier::rlimit(80)]
@@ impl Decode for DvU128<A,B>
@@ fn Decode for DvU128<A,B>::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvU128<A,B>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08 C15
@attr #[verifier::rlimit(80)]

@@ module dve1 private
@@ item DvE1
@@ raw
pub enum DvE1V<A> { Q0(A) }
impl<A: Encode + Decode> Ssz for DvE1<A> {
    type V = DvE1V<A::V>;
    open spec fn v(&self) -> DvE1V<A::V> { match self { DvE1::Q0(x) => DvE1V::Q0(x.v()), } }
    open spec fn wf(&self) -> bool { match self { DvE1::Q0(x) => x.wf(), } }
    open spec fn valid(v: DvE1V<A::V>) -> bool { match v { DvE1V::Q0(x) => A::valid(x), } }
    open spec fn ok() -> bool { A::ok() && !A::fixed() }
    open spec fn fixed() -> bool { false }
    open spec fn flen() -> nat { 4 }
    open spec fn enc(v: DvE1V<A::V>) -> Seq<u8> { match v { DvE1V::Q0(x) => A::enc(x), } }
    open spec fn dec(b: Seq<u8>) -> Option<DvE1V<A::V>> { if A::dec(b) is Some { Some(DvE1V::Q0(A::dec(b).unwrap())) } else { None } }
    open spec fn rt() -> bool { A::rt() }
    open spec fn strict() -> bool { A::strict() }
    proof fn law_wf(&self) { match self { DvE1::Q0(x) => x.law_wf(), } }
    proof fn law_len(v: DvE1V<A::V>) { }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) { if A::dec(b) is Some { A::law_dec(b); } }
    proof fn law_rt(v: DvE1V<A::V>) {
        match v { DvE1V::Q0(x) => A::law_rt(x), }
    }
    proof fn law_strict(b: Seq<u8>) { if A::dec(b) is Some { A::law_strict(b); } }
}
@@ impl Encode for DvE1<A>
@@ fn Encode for DvE1<A>::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvE1<A>::ssz_bytes_len
@props C07 C08
@@ fn Encode for DvE1<A>::ssz_append
@props C01 C03 C08
@@ impl Decode for DvE1<A>
@@ fn Decode for DvE1<A>::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvE1<A>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08

@@ module dve2 private
@@ item DvE2
@@ raw
pub enum DvE2V<A, B> { Q0(A), M1(B) }
impl<A: Encode + Decode, B: Encode + Decode> Ssz for DvE2<A, B> {
    type V = DvE2V<A::V, B::V>;
    open spec fn v(&self) -> DvE2V<A::V, B::V> { match self { DvE2::Q0(x) => DvE2V::Q0(x.v()), DvE2::M1(x) => DvE2V::M1(x.v()), } }
    open spec fn wf(&self) -> bool { match self { DvE2::Q0(x) => x.wf(), DvE2::M1(x) => x.wf(), } }
    open spec fn valid(v: DvE2V<A::V, B::V>) -> bool { match v { DvE2V::Q0(x) => A::valid(x), DvE2V::M1(x) => B::valid(x), } }
    open spec fn ok() -> bool { A::ok() && !A::fixed() && B::ok() && !B::fixed() }
    open spec fn fixed() -> bool { false }
    open spec fn flen() -> nat { 4 }
    open spec fn enc(v: DvE2V<A::V, B::V>) -> Seq<u8> { match v { DvE2V::Q0(x) => A::enc(x), DvE2V::M1(x) => B::enc(x), } }
    open spec fn dec(b: Seq<u8>) -> Option<DvE2V<A::V, B::V>> { if A::dec(b) is Some { Some(DvE2V::Q0(A::dec(b).unwrap())) } else { if B::dec(b) is Some { Some(DvE2V::M1(B::dec(b).unwrap())) } else { None } } }
    open spec fn rt() -> bool { false }
    open spec fn strict() -> bool { A::strict() && B::strict() }
    proof fn law_wf(&self) { match self { DvE2::Q0(x) => x.law_wf(), DvE2::M1(x) => x.law_wf(), } }
    proof fn law_len(v: DvE2V<A::V, B::V>) { }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) { if A::dec(b) is Some { A::law_dec(b); } if B::dec(b) is Some { B::law_dec(b); } }
    proof fn law_rt(v: DvE2V<A::V, B::V>) {
        
    }
    proof fn law_strict(b: Seq<u8>) { if A::dec(b) is Some { A::law_strict(b); } if B::dec(b) is Some { B::law_strict(b); } }
}
@@ impl Encode for DvE2<A,B>
@@ fn Encode for DvE2<A,B>::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvE2<A,B>::ssz_bytes_len
@props C07 C08
@@ fn Encode for DvE2<A,B>::ssz_append
@props C01 C03 C08
@@ impl Decode for DvE2<A,B>
@@ fn Decode for DvE2<A,B>::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvE2<A,B>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08

@@ module dve3 private
@@ item DvE3
@@ raw
pub enum DvE3V<A, B, C> { Q0(A), M1(B), X2(C) }
impl<A: Encode + Decode, B: Encode + Decode, C: Encode + Decode> Ssz for DvE3<A, B, C> {
    type V = DvE3V<A::V, B::V, C::V>;
    open spec fn v(&self) -> DvE3V<A::V, B::V, C::V> { match self { DvE3::Q0(x) => DvE3V::Q0(x.v()), DvE3::M1(x) => DvE3V::M1(x.v()), DvE3::X2(x) => DvE3V::X2(x.v()), } }
    open spec fn wf(&self) -> bool { match self { DvE3::Q0(x) => x.wf(), DvE3::M1(x) => x.wf(), DvE3::X2(x) => x.wf(), } }
    open spec fn valid(v: DvE3V<A::V, B::V, C::V>) -> bool { match v { DvE3V::Q0(x) => A::valid(x), DvE3V::M1(x) => B::valid(x), DvE3V::X2(x) => C::valid(x), } }
    open spec fn ok() -> bool { A::ok() && !A::fixed() && B::ok() && !B::fixed() && C::ok() && !C::fixed() }
    open spec fn fixed() -> bool { false }
    open spec fn flen() -> nat { 4 }
    open spec fn enc(v: DvE3V<A::V, B::V, C::V>) -> Seq<u8> { match v { DvE3V::Q0(x) => A::enc(x), DvE3V::M1(x) => B::enc(x), DvE3V::X2(x) => C::enc(x), } }
    open spec fn dec(b: Seq<u8>) -> Option<DvE3V<A::V, B::V, C::V>> { if A::dec(b) is Some { Some(DvE3V::Q0(A::dec(b).unwrap())) } else { if B::dec(b) is Some { Some(DvE3V::M1(B::dec(b).unwrap())) } else { if C::dec(b) is Some { Some(DvE3V::X2(C::dec(b).unwrap())) } else { None } } } }
    open spec fn rt() -> bool { false }
    open spec fn strict() -> bool { A::strict() && B::strict() && C::strict() }
    proof fn law_wf(&self) { match self { DvE3::Q0(x) => x.law_wf(), DvE3::M1(x) => x.law_wf(), DvE3::X2(x) => x.law_wf(), } }
    proof fn law_len(v: DvE3V<A::V, B::V, C::V>) { }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) { if A::dec(b) is Some { A::law_dec(b); } if B::dec(b) is Some { B::law_dec(b); } if C::dec(b) is Some { C::law_dec(b); } }
    proof fn law_rt(v: DvE3V<A::V, B::V, C::V>) {
        
    }
    proof fn law_strict(b: Seq<u8>) { if A::dec(b) is Some { A::law_strict(b); } if B::dec(b) is Some { B::law_strict(b); } if C::dec(b) is Some { C::law_strict(b); } }
}
@@ impl Encode for DvE3<A,B,C>
@@ fn Encode for DvE3<A,B,C>::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvE3<A,B,C>::ssz_bytes_len
@props C07 C08
@@ fn Encode for DvE3<A,B,C>::ssz_append
@props C01 C03 C08
@@ impl Decode for DvE3<A,B,C>
@@ fn Decode for DvE3<A,B,C>::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvE3<A,B,C>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08

@@ module dve4 private
@@ item DvE4
@@ raw
pub enum DvE4V<B, A, C> { Q0(B), M1(A), X2(C), A3(A) }
impl<B: Encode + Decode, A: Encode + Decode, C: Encode + Decode> Ssz for DvE4<B, A, C> {
    type V = DvE4V<B::V, A::V, C::V>;
    open spec fn v(&self) -> DvE4V<B::V, A::V, C::V> { match self { DvE4::Q0(x) => DvE4V::Q0(x.v()), DvE4::M1(x) => DvE4V::M1(x.v()), DvE4::X2(x) => DvE4V::X2(x.v()), DvE4::A3(x) => DvE4V::A3(x.v()), } }
    open spec fn wf(&self) -> bool { match self { DvE4::Q0(x) => x.wf(), DvE4::M1(x) => x.wf(), DvE4::X2(x) => x.wf(), DvE4::A3(x) => x.wf(), } }
    open spec fn valid(v: DvE4V<B::V, A::V, C::V>) -> bool { match v { DvE4V::Q0(x) => B::valid(x), DvE4V::M1(x) => A::valid(x), DvE4V::X2(x) => C::valid(x), DvE4V::A3(x) => A::valid(x), } }
    open spec fn ok() -> bool { B::ok() && !B::fixed() && A::ok() && !A::fixed() && C::ok() && !C::fixed() }
    open spec fn fixed() -> bool { false }
    open spec fn flen() -> nat { 4 }
    open spec fn enc(v: DvE4V<B::V, A::V, C::V>) -> Seq<u8> { match v { DvE4V::Q0(x) => B::enc(x), DvE4V::M1(x) => A::enc(x), DvE4V::X2(x) => C::enc(x), DvE4V::A3(x) => A::enc(x), } }
    open spec fn dec(b: Seq<u8>) -> Option<DvE4V<B::V, A::V, C::V>> { if B::dec(b) is Some { Some(DvE4V::Q0(B::dec(b).unwrap())) } else { if A::dec(b) is Some { Some(DvE4V::M1(A::dec(b).unwrap())) } else { if C::dec(b) is Some { Some(DvE4V::X2(C::dec(b).unwrap())) } else { if A::dec(b) is Some { Some(DvE4V::A3(A::dec(b).unwrap())) } else { None } } } } }
    open spec fn rt() -> bool { false }
    open spec fn strict() -> bool { B::strict() && A::strict() && C::strict() }
    proof fn law_wf(&self) { match self { DvE4::Q0(x) => x.law_wf(), DvE4::M1(x) => x.law_wf(), DvE4::X2(x) => x.law_wf(), DvE4::A3(x) => x.law_wf(), } }
    proof fn law_len(v: DvE4V<B::V, A::V, C::V>) { }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) { if B::dec(b) is Some { B::law_dec(b); } if A::dec(b) is Some { A::law_dec(b); } if C::dec(b) is Some { C::law_dec(b); } }
    proof fn law_rt(v: DvE4V<B::V, A::V, C::V>) {
        
    }
    proof fn law_strict(b: Seq<u8>) { if B::dec(b) is Some { B::law_strict(b); } if A::dec(b) is Some { A::law_strict(b); } if C::dec(b) is Some { C::law_strict(b); } }
}
@@ impl Encode for DvE4<B,A,C>
@@ fn Encode for DvE4<B,A,C>::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvE4<B,A,C>::ssz_bytes_len
@props C07 C08
@@ fn Encode for DvE4<B,A,C>::ssz_append
@props C01 C03 C08
@@ impl Decode for DvE4<B,A,C>
@@ fn Decode for DvE4<B,A,C>::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvE4<B,A,C>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08

@@ module dvek1 private
@@ item DvEK1
@@ raw
pub enum DvEK1V { Q0(KV) }
impl Ssz for DvEK1 {
    type V = DvEK1V;
    open spec fn v(&self) -> DvEK1V { match self { DvEK1::Q0(x) => DvEK1V::Q0((KS::<1> { x: *x }).v()), } }
    open spec fn wf(&self) -> bool { match self { DvEK1::Q0(x) => (KS::<1> { x: *x }).wf(), } }
    open spec fn valid(v: DvEK1V) -> bool { match v { DvEK1V::Q0(x) => KS::<1>::valid(x), } }
    open spec fn ok() -> bool { KS::<1>::ok() && !KS::<1>::fixed() }
    open spec fn fixed() -> bool { false }
    open spec fn flen() -> nat { 4 }
    open spec fn enc(v: DvEK1V) -> Seq<u8> { match v { DvEK1V::Q0(x) => KS::<1>::enc(x), } }
    open spec fn dec(b: Seq<u8>) -> Option<DvEK1V> { if KS::<1>::dec(b) is Some { Some(DvEK1V::Q0(KS::<1>::dec(b).unwrap())) } else { None } }
    open spec fn rt() -> bool { KS::<1>::rt() }
    open spec fn strict() -> bool { KS::<1>::strict() }
    proof fn law_wf(&self) { match self { DvEK1::Q0(x) => (KS::<1> { x: *x }).law_wf(), } }
    proof fn law_len(v: DvEK1V) { }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) { if KS::<1>::dec(b) is Some { KS::<1>::law_dec(b); } }
    proof fn law_rt(v: DvEK1V) {
        match v { DvEK1V::Q0(x) => KS::<1>::law_rt(x), }
    }
    proof fn law_strict(b: Seq<u8>) { if KS::<1>::dec(b) is Some { KS::<1>::law_strict(b); } }
}
@@ impl Encode for DvEK1
@@ fn Encode for DvEK1::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvEK1::ssz_bytes_len
@props C07 C08
@@ fn Encode for DvEK1::ssz_append
@props C01 C03 C08
@@ impl Decode for DvEK1
@@ fn Decode for DvEK1::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvEK1::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08

@@ module dvek2 private
@@ item DvEK2
@@ raw
pub enum DvEK2V<A> { Q0(A), M1(KV) }
impl<A: Encode + Decode> Ssz for DvEK2<A> {
    type V = DvEK2V<A::V>;
    open spec fn v(&self) -> DvEK2V<A::V> { match self { DvEK2::Q0(x) => DvEK2V::Q0(x.v()), DvEK2::M1(x) => DvEK2V::M1((KS::<1> { x: *x }).v()), } }
    open spec fn wf(&self) -> bool { match self { DvEK2::Q0(x) => x.wf(), DvEK2::M1(x) => (KS::<1> { x: *x }).wf(), } }
    open spec fn valid(v: DvEK2V<A::V>) -> bool { match v { DvEK2V::Q0(x) => A::valid(x), DvEK2V::M1(x) => KS::<1>::valid(x), } }
    open spec fn ok() -> bool { A::ok() && !A::fixed() && KS::<1>::ok() && !KS::<1>::fixed() }
    open spec fn fixed() -> bool { false }
    open spec fn flen() -> nat { 4 }
    open spec fn enc(v: DvEK2V<A::V>) -> Seq<u8> { match v { DvEK2V::Q0(x) => A::enc(x), DvEK2V::M1(x) => KS::<1>::enc(x), } }
    open spec fn dec(b: Seq<u8>) -> Option<DvEK2V<A::V>> { if A::dec(b) is Some { Some(DvEK2V::Q0(A::dec(b).unwrap())) } else { if KS::<1>::dec(b) is Some { Some(DvEK2V::M1(KS::<1>::dec(b).unwrap())) } else { None } } }
    open spec fn rt() -> bool { false }
    open spec fn strict() -> bool { A::strict() && KS::<1>::strict() }
    proof fn law_wf(&self) { match self { DvEK2::Q0(x) => x.law_wf(), DvEK2::M1(x) => (KS::<1> { x: *x }).law_wf(), } }
    proof fn law_len(v: DvEK2V<A::V>) { }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) { if A::dec(b) is Some { A::law_dec(b); } if KS::<1>::dec(b) is Some { KS::<1>::law_dec(b); } }
    proof fn law_rt(v: DvEK2V<A::V>) {
        
    }
    proof fn law_strict(b: Seq<u8>) { if A::dec(b) is Some { A::law_strict(b); } if KS::<1>::dec(b) is Some { KS::<1>::law_strict(b); } }
}
@@ impl Encode for DvEK2<A>
@@ fn Encode for DvEK2<A>::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvEK2<A>::ssz_bytes_len
@props C07 C08
@@ fn Encode for DvEK2<A>::ssz_append
@props C01 C03 C08
@@ impl Decode for DvEK2<A>
@@ fn Decode for DvEK2<A>::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvEK2<A>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08

@@ module dvek3 private
@@ item DvEK3
@@ raw
pub enum DvEK3V<A> { Q0(KV), M1(A), X2(KV) }
impl<A: Encode + Decode> Ssz for DvEK3<A> {
    type V = DvEK3V<A::V>;
    open spec fn v(&self) -> DvEK3V<A::V> { match self { DvEK3::Q0(x) => DvEK3V::Q0((KS::<2> { x: *x }).v()), DvEK3::M1(x) => DvEK3V::M1(x.v()), DvEK3::X2(x) => DvEK3V::X2((KS::<1> { x: *x }).v()), } }
    open spec fn wf(&self) -> bool { match self { DvEK3::Q0(x) => (KS::<2> { x: *x }).wf(), DvEK3::M1(x) => x.wf(), DvEK3::X2(x) => (KS::<1> { x: *x }).wf(), } }
    open spec fn valid(v: DvEK3V<A::V>) -> bool { match v { DvEK3V::Q0(x) => KS::<2>::valid(x), DvEK3V::M1(x) => A::valid(x), DvEK3V::X2(x) => KS::<1>::valid(x), } }
    open spec fn ok() -> bool { KS::<2>::ok() && !KS::<2>::fixed() && A::ok() && !A::fixed() && KS::<1>::ok() && !KS::<1>::fixed() }
    open spec fn fixed() -> bool { false }
    open spec fn flen() -> nat { 4 }
    open spec fn enc(v: DvEK3V<A::V>) -> Seq<u8> { match v { DvEK3V::Q0(x) => KS::<2>::enc(x), DvEK3V::M1(x) => A::enc(x), DvEK3V::X2(x) => KS::<1>::enc(x), } }
    open spec fn dec(b: Seq<u8>) -> Option<DvEK3V<A::V>> { if KS::<2>::dec(b) is Some { Some(DvEK3V::Q0(KS::<2>::dec(b).unwrap())) } else { if A::dec(b) is Some { Some(DvEK3V::M1(A::dec(b).unwrap())) } else { if KS::<1>::dec(b) is Some { Some(DvEK3V::X2(KS::<1>::dec(b).unwrap())) } else { None } } } }
    open spec fn rt() -> bool { false }
    open spec fn strict() -> bool { KS::<2>::strict() && A::strict() && KS::<1>::strict() }
    proof fn law_wf(&self) { match self { DvEK3::Q0(x) => (KS::<2> { x: *x }).law_wf(), DvEK3::M1(x) => x.law_wf(), DvEK3::X2(x) => (KS::<1> { x: *x }).law_wf(), } }
    proof fn law_len(v: DvEK3V<A::V>) { }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) { if KS::<2>::dec(b) is Some { KS::<2>::law_dec(b); } if A::dec(b) is Some { A::law_dec(b); } if KS::<1>::dec(b) is Some { KS::<1>::law_dec(b); } }
    proof fn law_rt(v: DvEK3V<A::V>) {
        
    }
    proof fn law_strict(b: Seq<u8>) { if KS::<2>::dec(b) is Some { KS::<2>::law_strict(b); } if A::dec(b) is Some { A::law_strict(b); } if KS::<1>::dec(b) is Some { KS::<1>::law_strict(b); } }
}
@@ impl Encode for DvEK3<A>
@@ fn Encode for DvEK3<A>::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvEK3<A>::ssz_bytes_len
@props C07 C08
@@ fn Encode for DvEK3<A>::ssz_append
@props C01 C03 C08
@@ impl Decode for DvEK3<A>
@@ fn Decode for DvEK3<A>::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvEK3<A>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08

@@ module dvg1 private
@@ item DvG1
@@ raw
impl Ssz for DvG1 {
    type V = int;
    open spec fn v(&self) -> int { match self { DvG1::Q0 => 0, } }
    open spec fn wf(&self) -> bool { true }
    open spec fn valid(v: int) -> bool { 0 <= v < 1 }
    open spec fn ok() -> bool { true }
    open spec fn fixed() -> bool { true }
    open spec fn flen() -> nat { 1 }
    open spec fn enc(v: int) -> Seq<u8> { seq![v as u8] }
    open spec fn dec(b: Seq<u8>) -> Option<int> { if b.len() == 1 && b[0] < 1 { Some(b[0] as int) } else { None } }
    open spec fn rt() -> bool { true }
    open spec fn strict() -> bool { true }
    proof fn law_wf(&self) { }
    proof fn law_len(v: int) { }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) { }
    proof fn law_rt(v: int) { }
    proof fn law_strict(b: Seq<u8>) { assert(seq![b[0]] =~= b); }
}
@@ impl Encode for DvG1
@@ fn Encode for DvG1::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvG1::ssz_fixed_len
@props C07 C08
@@ fn Encode for DvG1::ssz_bytes_len
@props C07 C08
@@ fn Encode for DvG1::ssz_append
@props C01 C03 C08 C15
@start
    let ghost b0 = buf@;
    proof { assert forall|x: u8| #[trigger] (b0 + seq![x]) == b0.push(x) by { assert(b0 + seq![x] =~= b0.push(x)); } }
@@ impl Decode for DvG1
@@ fn Decode for DvG1::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvG1::ssz_fixed_len
@props C07 C08
@@ fn Decode for DvG1::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08 C15

@@ module dvg2 private
@@ item DvG2
@@ raw
impl Ssz for DvG2 {
    type V = int;
    open spec fn v(&self) -> int { match self { DvG2::Q0 => 0, DvG2::M1 => 1, } }
    open spec fn wf(&self) -> bool { true }
    open spec fn valid(v: int) -> bool { 0 <= v < 2 }
    open spec fn ok() -> bool { true }
    open spec fn fixed() -> bool { true }
    open spec fn flen() -> nat { 1 }
    open spec fn enc(v: int) -> Seq<u8> { seq![v as u8] }
    open spec fn dec(b: Seq<u8>) -> Option<int> { if b.len() == 1 && b[0] < 2 { Some(b[0] as int) } else { None } }
    open spec fn rt() -> bool { true }
    open spec fn strict() -> bool { true }
    proof fn law_wf(&self) { }
    proof fn law_len(v: int) { }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) { }
    proof fn law_rt(v: int) { }
    proof fn law_strict(b: Seq<u8>) { assert(seq![b[0]] =~= b); }
}
@@ impl Encode for DvG2
@@ fn Encode for DvG2::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvG2::ssz_fixed_len
@props C07 C08
@@ fn Encode for DvG2::ssz_bytes_len
@props C07 C08
@@ fn Encode for DvG2::ssz_append
@props C01 C03 C08 C15
@start
    let ghost b0 = buf@;
    proof { assert forall|x: u8| #[trigger] (b0 + seq![x]) == b0.push(x) by { assert(b0 + seq![x] =~= b0.push(x)); } }
@@ impl Decode for DvG2
@@ fn Decode for DvG2::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvG2::ssz_fixed_len
@props C07 C08
@@ fn Decode for DvG2::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08 C15

@@ module dvg3 private
@@ item DvG3
@@ raw
impl Ssz for DvG3 {
    type V = int;
    open spec fn v(&self) -> int { match self { DvG3::Q0 => 0, DvG3::M1 => 1, DvG3::X2 => 2, } }
    open spec fn wf(&self) -> bool { true }
    open spec fn valid(v: int) -> bool { 0 <= v < 3 }
    open spec fn ok() -> bool { true }
    open spec fn fixed() -> bool { true }
    open spec fn flen() -> nat { 1 }
    open spec fn enc(v: int) -> Seq<u8> { seq![v as u8] }
    open spec fn dec(b: Seq<u8>) -> Option<int> { if b.len() == 1 && b[0] < 3 { Some(b[0] as int) } else { None } }
    open spec fn rt() -> bool { true }
    open spec fn strict() -> bool { true }
    proof fn law_wf(&self) { }
    proof fn law_len(v: int) { }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) { }
    proof fn law_rt(v: int) { }
    proof fn law_strict(b: Seq<u8>) { assert(seq![b[0]] =~= b); }
}
@@ impl Encode for DvG3
@@ fn Encode for DvG3::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvG3::ssz_fixed_len
@props C07 C08
@@ fn Encode for DvG3::ssz_bytes_len
@props C07 C08
@@ fn Encode for DvG3::ssz_append
@props C01 C03 C08 C15
@start
    let ghost b0 = buf@;
    proof { assert forall|x: u8| #[trigger] (b0 + seq![x]) == b0.push(x) by { assert(b0 + seq![x] =~= b0.push(x)); } }
@@ impl Decode for DvG3
@@ fn Decode for DvG3::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvG3::ssz_fixed_len
@props C07 C08
@@ fn Decode for DvG3::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08 C15

@@ module dvg128 private
@@ item DvG128
@@ raw
impl Ssz for DvG128 {
    type V = int;
    open spec fn v(&self) -> int { match self { DvG128::Q0 => 0, DvG128::M1 => 1, DvG128::X2 => 2, DvG128::A3 => 3, DvG128::T4 => 4, DvG128::E5 => 5, DvG128::Z6 => 6, DvG128::B7 => 7, DvG128::Q8 => 8, DvG128::M9 => 9, DvG128::X10 => 10, DvG128::A11 => 11, DvG128::T12 => 12, DvG128::E13 => 13, DvG128::Z14 => 14, DvG128::B15 => 15, DvG128::Q16 => 16, DvG128::M17 => 17, DvG128::X18 => 18, DvG128::A19 => 19, DvG128::T20 => 20, DvG128::E21 => 21, DvG128::Z22 => 22, DvG128::B23 => 23, DvG128::Q24 => 24, DvG128::M25 => 25, DvG128::X26 => 26, DvG128::A27 => 27, DvG128::T28 => 28, DvG128::E29 => 29, DvG128::Z30 => 30, DvG128::B31 => 31, DvG128::Q32 => 32, DvG128::M33 => 33, DvG128::X34 => 34, DvG128::A35 => 35, DvG128::T36 => 36, DvG128::E37 => 37, DvG128::Z38 => 38, DvG128::B39 => 39, DvG128::Q40 => 40, DvG128::M41 => 41, DvG128::X42 => 42, DvG128::A43 => 43, DvG128::T44 => 44, DvG128::E45 => 45, DvG128::Z46 => 46, DvG128::B47 => 47, DvG128::Q48 => 48, DvG128::M49 => 49, DvG128::X50 => 50, DvG128::A51 => 51, DvG128::T52 => 52, DvG128::E53 => 53, DvG128::Z54 => 54, DvG128::B55 => 55, DvG128::Q56 => 56, DvG128::M57 => 57, DvG128::X58 => 58, DvG128::A59 => 59, DvG128::T60 => 60, DvG128::E61 => 61, DvG128::Z62 => 62, DvG128::B63 => 63, DvG128::Q64 => 64, DvG128::M65 => 65, DvG128::X66 => 66, DvG128::A67 => 67, DvG128::T68 => 68, DvG128::E69 => 69, DvG128::Z70 => 70, DvG128::B71 => 71, DvG128::Q72 => 72, DvG128::M73 => 73, DvG128::X74 => 74, DvG128::A75 => 75, DvG128::T76 => 76, DvG128::E77 => 77, DvG128::Z78 => 78, DvG128::B79 => 79, DvG128::Q80 => 80, DvG128::M81 => 81, DvG128::X82 => 82, DvG128::A83 => 83, DvG128::T84 => 84, DvG128::E85 => 85, DvG128::Z86 => 86, DvG128::B87 => 87, DvG128::Q88 => 88, DvG128::M89 => 89, DvG128::X90 => 90, DvG128::A91 => 91, DvG128::T92 => 92, DvG128::E93 => 93, DvG128::Z94 => 94, DvG128::B95 => 95, DvG128::Q96 => 96, DvG128::M97 => 97, DvG128::X98 => 98, DvG128::A99 => 99, DvG128::T100 => 100, DvG128::E101 => 101, DvG128::Z102 => 102, DvG128::B103 => 103, DvG128::Q104 => 104, DvG128::M105 => 105, DvG128::X106 => 106, DvG128::A107 => 107, DvG128::T108 => 108, DvG128::E109 => 109, DvG128::Z110 => 110, DvG128::B111 => 111, DvG128::Q112 => 112, DvG128::M113 => 113, DvG128::X114 => 114, DvG128::A115 => 115, DvG128::T116 => 116, DvG128::E117 => 117, DvG128::Z118 => 118, DvG128::B119 => 119, DvG128::Q120 => 120, DvG128::M121 => 121, DvG128::X122 => 122, DvG128::A123 => 123, DvG128::T124 => 124, DvG128::E125 => 125, DvG128::Z126 => 126, DvG128::B127 => 127, } }
    open spec fn wf(&self) -> bool { true }
    open spec fn valid(v: int) -> bool { 0 <= v < 128 }
    open spec fn ok() -> bool { true }
    open spec fn fixed() -> bool { true }
    open spec fn flen() -> nat { 1 }
    open spec fn enc(v: int) -> Seq<u8> { seq![v as u8] }
    open spec fn dec(b: Seq<u8>) -> Option<int> { if b.len() == 1 && b[0] < 128 { Some(b[0] as int) } else { None } }
    open spec fn rt() -> bool { true }
    open spec fn strict() -> bool { true }
    proof fn law_wf(&self) { }
    proof fn law_len(v: int) { }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) { }
    proof fn law_rt(v: int) { }
    proof fn law_strict(b: Seq<u8>) { assert(seq![b[0]] =~= b); }
}
@@ impl Encode for DvG128
@@ fn Encode for DvG128::is_ssz_fixed_len
@props C07 C08
@@ fn Encode for DvG128::ssz_fixed_len
@props C07 C08
@@ fn Encode for DvG128::ssz_bytes_len
@props C07 C08
@@ fn Encode for DvG128::ssz_append
@props C01 C03 C08 C15
@attr #[verifier::rlimit(80)]
@start
    let ghost b0 = buf@;
    proof { assert forall|x: u8| #[trigger] (b0 + seq![x]) == b0.push(x) by { assert(b0 + seq![x] =~= b0.push(x)); } }
@@ impl Decode for DvG128
@@ fn Decode for DvG128::is_ssz_fixed_len
@props C07 C08
@@ fn Decode for DvG128::ssz_fixed_len
@props C07 C08
@@ fn Decode for DvG128::from_ssz_bytes
@props C01 C02 C04 C05 C06 C08 C15
@attr #[verifier::rlimit(80)]

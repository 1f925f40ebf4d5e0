# tuples: written by tools/gen_tuples.py

@@ raw
broadcast use { lemma_empty_parts, axiom_mem_limit, lemma_lay_push, lemma_split_prefix, lemma_prefix_push };

@@ module tuple2
@@ raw
pub open spec fn lay2<A: Ssz, B: Ssz>() -> Seq<Slot> { Seq::<Slot>::empty().push(slot::<A>()).push(slot::<B>()) }

pub open spec fn parts2<A: Ssz, B: Ssz>(v: (A::V, B::V)) -> Seq<Part> { Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)) }

pub open spec fn sum2<A: Ssz, B: Ssz>() -> nat { A::flen() + B::flen() }

impl<A: Ssz, B: Ssz> Ssz for (A, B) {
    type V = (A::V, B::V);
    open spec fn v(&self) -> (A::V, B::V) { (self.0.v(), self.1.v()) }
    open spec fn wf(&self) -> bool { self.0.wf() && self.1.wf() }
    open spec fn valid(v: (A::V, B::V)) -> bool { A::valid(v.0) && B::valid(v.1) }
    open spec fn ok() -> bool { A::ok() && B::ok() && sum2::<A, B>() <= usize::MAX }
    open spec fn fixed() -> bool { A::fixed() && B::fixed() }
    open spec fn flen() -> nat { if Self::fixed() { sum2::<A, B>() } else { 4 } }
    open spec fn enc(v: (A::V, B::V)) -> Seq<u8> { pack(parts2::<A, B>(v)) }
    open spec fn dec(b: Seq<u8>) -> Option<(A::V, B::V)> {
        let l = lay2::<A, B>();
        if split_ok(b, l) && A::dec(piece(b, l, 0)) is Some && B::dec(piece(b, l, 1)) is Some {
            Some((A::dec(piece(b, l, 0)).unwrap(), B::dec(piece(b, l, 1)).unwrap()))
        } else {
            None
        }
    }
    open spec fn rt() -> bool { A::rt() && B::rt() }
    open spec fn strict() -> bool { A::strict() && B::strict() }
    proof fn law_wf(&self) { self.0.law_wf(); self.1.law_wf(); }
    proof fn law_len(v: (A::V, B::V)) {
        let l = lay2::<A, B>();
        let ps = parts2::<A, B>(v);
        lemma_sum2::<A, B>(v);
        if Self::fixed() { lemma_tl_fixed(ps); lemma_hd_len(ps, fl(ps) as int); }
    }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) {
        let l = lay2::<A, B>();
        A::law_dec(piece(b, l, 0)); B::law_dec(piece(b, l, 1));
        A::law_flen(); B::law_flen();
        if Self::fixed() { lemma_next_fixed(b, l, 0); }
    }
    proof fn law_rt(v: (A::V, B::V)) {
        let l = lay2::<A, B>();
        let ps = parts2::<A, B>(v);
        lemma_sum2::<A, B>(v);
        lemma_split_of_pack(ps, l);
        lemma_part_len(ps, 0); A::law_rt(v.0); assert(piece(pack(ps), l, 0) == ps[0].1); lemma_part_len(ps, 1); B::law_rt(v.1); assert(piece(pack(ps), l, 1) == ps[1].1);
    }
    proof fn law_strict(b: Seq<u8>) {
        let l = lay2::<A, B>();
        A::law_strict(piece(b, l, 0)); A::law_flen(); B::law_strict(piece(b, l, 1)); B::law_flen();
        assert(parts2::<A, B>(Self::dec(b).unwrap()) =~= pieces_of(b, l));
        lemma_pack_of_split(b, l);
    }
}

pub proof fn lemma_sum2<A: Ssz, B: Ssz>(v: (A::V, B::V))
    requires A::ok(), A::valid(v.0), B::ok(), B::valid(v.1)
    ensures
        fits(parts2::<A, B>(v), lay2::<A, B>()),
        fl(parts2::<A, B>(v)) == sum2::<A, B>(),
        A::enc(v.0).len() <= plen(part::<A>(v.0)), B::enc(v.1).len() <= plen(part::<B>(v.1)),
        A::fixed() ==> plen(part::<A>(v.0)) == A::flen(), B::fixed() ==> plen(part::<B>(v.1)) == B::flen(),
        !A::fixed() ==> plen(part::<A>(v.0)) == 4 + A::enc(v.0).len(), !B::fixed() ==> plen(part::<B>(v.1)) == 4 + B::enc(v.1).len(),
        fl(parts2::<A, B>(v)) <= pack(parts2::<A, B>(v)).len(),
        pack(parts2::<A, B>(v)).len() == plen(part::<A>(v.0)) + plen(part::<B>(v.1)),
{
    broadcast use lemma_total_push, lemma_pfl_push;
    let ps = parts2::<A, B>(v);
    lemma_part::<A>(v.0); A::law_flen(); lemma_part::<B>(v.1); B::law_flen();
    lemma_total(ps);
    lemma_total_empty();
    let p = Seq::<Part>::empty();
    let l = Seq::<Slot>::empty();
    assert(fits(p, l));
    lemma_fits_push(p, l, part::<A>(v.0), slot::<A>()); let p = p.push(part::<A>(v.0)); let l = l.push(slot::<A>());
    lemma_fits_push(p, l, part::<B>(v.1), slot::<B>()); let p = p.push(part::<B>(v.1)); let l = l.push(slot::<B>());
}

@@ impl Encode for (A,B)
@@ fn Encode for (A,B)::ssz_fixed_len
@props C07
@@ fn Encode for (A,B)::ssz_bytes_len
@props C07
@start
    proof { self.law_wf(); lemma_sum2::<A, B>(self.v()); }
@at /^len .=/ 1
    assert(len == plen(part::<A>(self.v().0)));
@@ fn Encode for (A,B)::ssz_append
@props C01 C03 C07 C10
@start
    let ghost b0 = buf@;
    proof {
        let ps = parts2::<A, B>(self.v());
        self.law_wf();
        lemma_sum2::<A, B>(self.v());
        lemma_part_len(ps, 0); lemma_takes2::<A, B>(self.v()); lemma_part_len(ps, 1);
    }
@@ fn Encode for (A,B)::as_ssz_bytes
@result v_r
@finish
    proof { assert(v_r@ =~= Self::enc(self.v())); }

@@ impl Decode for (A,B)
@@ fn Decode for (A,B)::ssz_fixed_len
@props C07
@@ fn Decode for (A,B)::from_ssz_bytes
@props C01 C02 C04 C05 C09
@start
    proof {
        let l = lay2::<A, B>();
        let b = bytes@;
        if split_ok(b, l) {
            assert forall|i: int| 0 <= i < l.len() implies (#[trigger] piece(b, l, i)).len() <= b.len() by { lemma_split_bounds(b, l, i); }
        }
    }

@@ raw
pub proof fn lemma_takes2<A: Ssz, B: Ssz>(v: (A::V, B::V))
    ensures parts2::<A, B>(v).take(0) == Seq::<Part>::empty(), parts2::<A, B>(v).take(1) == Seq::<Part>::empty().push(part::<A>(v.0))
{
    assert(parts2::<A, B>(v).take(0) =~= Seq::<Part>::empty()); assert(parts2::<A, B>(v).take(1) =~= Seq::<Part>::empty().push(part::<A>(v.0)));
}

@@ module tuple3
@@ raw
pub open spec fn lay3<A: Ssz, B: Ssz, C: Ssz>() -> Seq<Slot> { Seq::<Slot>::empty().push(slot::<A>()).push(slot::<B>()).push(slot::<C>()) }

pub open spec fn parts3<A: Ssz, B: Ssz, C: Ssz>(v: (A::V, B::V, C::V)) -> Seq<Part> { Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)) }

pub open spec fn sum3<A: Ssz, B: Ssz, C: Ssz>() -> nat { A::flen() + B::flen() + C::flen() }

impl<A: Ssz, B: Ssz, C: Ssz> Ssz for (A, B, C) {
    type V = (A::V, B::V, C::V);
    open spec fn v(&self) -> (A::V, B::V, C::V) { (self.0.v(), self.1.v(), self.2.v()) }
    open spec fn wf(&self) -> bool { self.0.wf() && self.1.wf() && self.2.wf() }
    open spec fn valid(v: (A::V, B::V, C::V)) -> bool { A::valid(v.0) && B::valid(v.1) && C::valid(v.2) }
    open spec fn ok() -> bool { A::ok() && B::ok() && C::ok() && sum3::<A, B, C>() <= usize::MAX }
    open spec fn fixed() -> bool { A::fixed() && B::fixed() && C::fixed() }
    open spec fn flen() -> nat { if Self::fixed() { sum3::<A, B, C>() } else { 4 } }
    open spec fn enc(v: (A::V, B::V, C::V)) -> Seq<u8> { pack(parts3::<A, B, C>(v)) }
    open spec fn dec(b: Seq<u8>) -> Option<(A::V, B::V, C::V)> {
        let l = lay3::<A, B, C>();
        if split_ok(b, l) && A::dec(piece(b, l, 0)) is Some && B::dec(piece(b, l, 1)) is Some && C::dec(piece(b, l, 2)) is Some {
            Some((A::dec(piece(b, l, 0)).unwrap(), B::dec(piece(b, l, 1)).unwrap(), C::dec(piece(b, l, 2)).unwrap()))
        } else {
            None
        }
    }
    open spec fn rt() -> bool { A::rt() && B::rt() && C::rt() }
    open spec fn strict() -> bool { A::strict() && B::strict() && C::strict() }
    proof fn law_wf(&self) { self.0.law_wf(); self.1.law_wf(); self.2.law_wf(); }
    proof fn law_len(v: (A::V, B::V, C::V)) {
        let l = lay3::<A, B, C>();
        let ps = parts3::<A, B, C>(v);
        lemma_sum3::<A, B, C>(v);
        if Self::fixed() { lemma_tl_fixed(ps); lemma_hd_len(ps, fl(ps) as int); }
    }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) {
        let l = lay3::<A, B, C>();
        A::law_dec(piece(b, l, 0)); B::law_dec(piece(b, l, 1)); C::law_dec(piece(b, l, 2));
        A::law_flen(); B::law_flen(); C::law_flen();
        if Self::fixed() { lemma_next_fixed(b, l, 0); }
    }
    proof fn law_rt(v: (A::V, B::V, C::V)) {
        let l = lay3::<A, B, C>();
        let ps = parts3::<A, B, C>(v);
        lemma_sum3::<A, B, C>(v);
        lemma_split_of_pack(ps, l);
        lemma_part_len(ps, 0); A::law_rt(v.0); assert(piece(pack(ps), l, 0) == ps[0].1); lemma_part_len(ps, 1); B::law_rt(v.1); assert(piece(pack(ps), l, 1) == ps[1].1); lemma_part_len(ps, 2); C::law_rt(v.2); assert(piece(pack(ps), l, 2) == ps[2].1);
    }
    proof fn law_strict(b: Seq<u8>) {
        let l = lay3::<A, B, C>();
        A::law_strict(piece(b, l, 0)); A::law_flen(); B::law_strict(piece(b, l, 1)); B::law_flen(); C::law_strict(piece(b, l, 2)); C::law_flen();
        assert(parts3::<A, B, C>(Self::dec(b).unwrap()) =~= pieces_of(b, l));
        lemma_pack_of_split(b, l);
    }
}

pub proof fn lemma_sum3<A: Ssz, B: Ssz, C: Ssz>(v: (A::V, B::V, C::V))
    requires A::ok(), A::valid(v.0), B::ok(), B::valid(v.1), C::ok(), C::valid(v.2)
    ensures
        fits(parts3::<A, B, C>(v), lay3::<A, B, C>()),
        fl(parts3::<A, B, C>(v)) == sum3::<A, B, C>(),
        A::enc(v.0).len() <= plen(part::<A>(v.0)), B::enc(v.1).len() <= plen(part::<B>(v.1)), C::enc(v.2).len() <= plen(part::<C>(v.2)),
        A::fixed() ==> plen(part::<A>(v.0)) == A::flen(), B::fixed() ==> plen(part::<B>(v.1)) == B::flen(), C::fixed() ==> plen(part::<C>(v.2)) == C::flen(),
        !A::fixed() ==> plen(part::<A>(v.0)) == 4 + A::enc(v.0).len(), !B::fixed() ==> plen(part::<B>(v.1)) == 4 + B::enc(v.1).len(), !C::fixed() ==> plen(part::<C>(v.2)) == 4 + C::enc(v.2).len(),
        fl(parts3::<A, B, C>(v)) <= pack(parts3::<A, B, C>(v)).len(),
        pack(parts3::<A, B, C>(v)).len() == plen(part::<A>(v.0)) + plen(part::<B>(v.1)) + plen(part::<C>(v.2)),
{
    broadcast use lemma_total_push, lemma_pfl_push;
    let ps = parts3::<A, B, C>(v);
    lemma_part::<A>(v.0); A::law_flen(); lemma_part::<B>(v.1); B::law_flen(); lemma_part::<C>(v.2); C::law_flen();
    lemma_total(ps);
    lemma_total_empty();
    let p = Seq::<Part>::empty();
    let l = Seq::<Slot>::empty();
    assert(fits(p, l));
    lemma_fits_push(p, l, part::<A>(v.0), slot::<A>()); let p = p.push(part::<A>(v.0)); let l = l.push(slot::<A>());
    lemma_fits_push(p, l, part::<B>(v.1), slot::<B>()); let p = p.push(part::<B>(v.1)); let l = l.push(slot::<B>());
    lemma_fits_push(p, l, part::<C>(v.2), slot::<C>()); let p = p.push(part::<C>(v.2)); let l = l.push(slot::<C>());
}

@@ impl Encode for (A,B,C)
@@ fn Encode for (A,B,C)::ssz_fixed_len
@props C07
@@ fn Encode for (A,B,C)::ssz_bytes_len
@props C07
@start
    proof { self.law_wf(); lemma_sum3::<A, B, C>(self.v()); }
@at /^len .=/ 1
    assert(len == plen(part::<A>(self.v().0)));
@at /^len .=/ 2
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)));
@@ fn Encode for (A,B,C)::ssz_append
@props C01 C03 C07 C10
@start
    let ghost b0 = buf@;
    proof {
        let ps = parts3::<A, B, C>(self.v());
        self.law_wf();
        lemma_sum3::<A, B, C>(self.v());
        lemma_part_len(ps, 0); lemma_takes3::<A, B, C>(self.v()); lemma_part_len(ps, 1); lemma_part_len(ps, 2);
    }
@@ fn Encode for (A,B,C)::as_ssz_bytes
@result v_r
@finish
    proof { assert(v_r@ =~= Self::enc(self.v())); }

@@ impl Decode for (A,B,C)
@@ fn Decode for (A,B,C)::ssz_fixed_len
@props C07
@@ fn Decode for (A,B,C)::from_ssz_bytes
@props C01 C02 C04 C05 C09
@start
    proof {
        let l = lay3::<A, B, C>();
        let b = bytes@;
        if split_ok(b, l) {
            assert forall|i: int| 0 <= i < l.len() implies (#[trigger] piece(b, l, i)).len() <= b.len() by { lemma_split_bounds(b, l, i); }
        }
    }

@@ raw
pub proof fn lemma_takes3<A: Ssz, B: Ssz, C: Ssz>(v: (A::V, B::V, C::V))
    ensures parts3::<A, B, C>(v).take(0) == Seq::<Part>::empty(), parts3::<A, B, C>(v).take(1) == Seq::<Part>::empty().push(part::<A>(v.0)), parts3::<A, B, C>(v).take(2) == Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1))
{
    assert(parts3::<A, B, C>(v).take(0) =~= Seq::<Part>::empty()); assert(parts3::<A, B, C>(v).take(1) =~= Seq::<Part>::empty().push(part::<A>(v.0))); assert(parts3::<A, B, C>(v).take(2) =~= Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)));
}

@@ module tuple4
@@ raw
pub open spec fn lay4<A: Ssz, B: Ssz, C: Ssz, D: Ssz>() -> Seq<Slot> { Seq::<Slot>::empty().push(slot::<A>()).push(slot::<B>()).push(slot::<C>()).push(slot::<D>()) }

pub open spec fn parts4<A: Ssz, B: Ssz, C: Ssz, D: Ssz>(v: (A::V, B::V, C::V, D::V)) -> Seq<Part> { Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)) }

pub open spec fn sum4<A: Ssz, B: Ssz, C: Ssz, D: Ssz>() -> nat { A::flen() + B::flen() + C::flen() + D::flen() }

impl<A: Ssz, B: Ssz, C: Ssz, D: Ssz> Ssz for (A, B, C, D) {
    type V = (A::V, B::V, C::V, D::V);
    open spec fn v(&self) -> (A::V, B::V, C::V, D::V) { (self.0.v(), self.1.v(), self.2.v(), self.3.v()) }
    open spec fn wf(&self) -> bool { self.0.wf() && self.1.wf() && self.2.wf() && self.3.wf() }
    open spec fn valid(v: (A::V, B::V, C::V, D::V)) -> bool { A::valid(v.0) && B::valid(v.1) && C::valid(v.2) && D::valid(v.3) }
    open spec fn ok() -> bool { A::ok() && B::ok() && C::ok() && D::ok() && sum4::<A, B, C, D>() <= usize::MAX }
    open spec fn fixed() -> bool { A::fixed() && B::fixed() && C::fixed() && D::fixed() }
    open spec fn flen() -> nat { if Self::fixed() { sum4::<A, B, C, D>() } else { 4 } }
    open spec fn enc(v: (A::V, B::V, C::V, D::V)) -> Seq<u8> { pack(parts4::<A, B, C, D>(v)) }
    open spec fn dec(b: Seq<u8>) -> Option<(A::V, B::V, C::V, D::V)> {
        let l = lay4::<A, B, C, D>();
        if split_ok(b, l) && A::dec(piece(b, l, 0)) is Some && B::dec(piece(b, l, 1)) is Some && C::dec(piece(b, l, 2)) is Some && D::dec(piece(b, l, 3)) is Some {
            Some((A::dec(piece(b, l, 0)).unwrap(), B::dec(piece(b, l, 1)).unwrap(), C::dec(piece(b, l, 2)).unwrap(), D::dec(piece(b, l, 3)).unwrap()))
        } else {
            None
        }
    }
    open spec fn rt() -> bool { A::rt() && B::rt() && C::rt() && D::rt() }
    open spec fn strict() -> bool { A::strict() && B::strict() && C::strict() && D::strict() }
    proof fn law_wf(&self) { self.0.law_wf(); self.1.law_wf(); self.2.law_wf(); self.3.law_wf(); }
    proof fn law_len(v: (A::V, B::V, C::V, D::V)) {
        let l = lay4::<A, B, C, D>();
        let ps = parts4::<A, B, C, D>(v);
        lemma_sum4::<A, B, C, D>(v);
        if Self::fixed() { lemma_tl_fixed(ps); lemma_hd_len(ps, fl(ps) as int); }
    }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) {
        let l = lay4::<A, B, C, D>();
        A::law_dec(piece(b, l, 0)); B::law_dec(piece(b, l, 1)); C::law_dec(piece(b, l, 2)); D::law_dec(piece(b, l, 3));
        A::law_flen(); B::law_flen(); C::law_flen(); D::law_flen();
        if Self::fixed() { lemma_next_fixed(b, l, 0); }
    }
    proof fn law_rt(v: (A::V, B::V, C::V, D::V)) {
        let l = lay4::<A, B, C, D>();
        let ps = parts4::<A, B, C, D>(v);
        lemma_sum4::<A, B, C, D>(v);
        lemma_split_of_pack(ps, l);
        lemma_part_len(ps, 0); A::law_rt(v.0); assert(piece(pack(ps), l, 0) == ps[0].1); lemma_part_len(ps, 1); B::law_rt(v.1); assert(piece(pack(ps), l, 1) == ps[1].1); lemma_part_len(ps, 2); C::law_rt(v.2); assert(piece(pack(ps), l, 2) == ps[2].1); lemma_part_len(ps, 3); D::law_rt(v.3); assert(piece(pack(ps), l, 3) == ps[3].1);
    }
    proof fn law_strict(b: Seq<u8>) {
        let l = lay4::<A, B, C, D>();
        A::law_strict(piece(b, l, 0)); A::law_flen(); B::law_strict(piece(b, l, 1)); B::law_flen(); C::law_strict(piece(b, l, 2)); C::law_flen(); D::law_strict(piece(b, l, 3)); D::law_flen();
        assert(parts4::<A, B, C, D>(Self::dec(b).unwrap()) =~= pieces_of(b, l));
        lemma_pack_of_split(b, l);
    }
}

pub proof fn lemma_sum4<A: Ssz, B: Ssz, C: Ssz, D: Ssz>(v: (A::V, B::V, C::V, D::V))
    requires A::ok(), A::valid(v.0), B::ok(), B::valid(v.1), C::ok(), C::valid(v.2), D::ok(), D::valid(v.3)
    ensures
        fits(parts4::<A, B, C, D>(v), lay4::<A, B, C, D>()),
        fl(parts4::<A, B, C, D>(v)) == sum4::<A, B, C, D>(),
        A::enc(v.0).len() <= plen(part::<A>(v.0)), B::enc(v.1).len() <= plen(part::<B>(v.1)), C::enc(v.2).len() <= plen(part::<C>(v.2)), D::enc(v.3).len() <= plen(part::<D>(v.3)),
        A::fixed() ==> plen(part::<A>(v.0)) == A::flen(), B::fixed() ==> plen(part::<B>(v.1)) == B::flen(), C::fixed() ==> plen(part::<C>(v.2)) == C::flen(), D::fixed() ==> plen(part::<D>(v.3)) == D::flen(),
        !A::fixed() ==> plen(part::<A>(v.0)) == 4 + A::enc(v.0).len(), !B::fixed() ==> plen(part::<B>(v.1)) == 4 + B::enc(v.1).len(), !C::fixed() ==> plen(part::<C>(v.2)) == 4 + C::enc(v.2).len(), !D::fixed() ==> plen(part::<D>(v.3)) == 4 + D::enc(v.3).len(),
        fl(parts4::<A, B, C, D>(v)) <= pack(parts4::<A, B, C, D>(v)).len(),
        pack(parts4::<A, B, C, D>(v)).len() == plen(part::<A>(v.0)) + plen(part::<B>(v.1)) + plen(part::<C>(v.2)) + plen(part::<D>(v.3)),
{
    broadcast use lemma_total_push, lemma_pfl_push;
    let ps = parts4::<A, B, C, D>(v);
    lemma_part::<A>(v.0); A::law_flen(); lemma_part::<B>(v.1); B::law_flen(); lemma_part::<C>(v.2); C::law_flen(); lemma_part::<D>(v.3); D::law_flen();
    lemma_total(ps);
    lemma_total_empty();
    let p = Seq::<Part>::empty();
    let l = Seq::<Slot>::empty();
    assert(fits(p, l));
    lemma_fits_push(p, l, part::<A>(v.0), slot::<A>()); let p = p.push(part::<A>(v.0)); let l = l.push(slot::<A>());
    lemma_fits_push(p, l, part::<B>(v.1), slot::<B>()); let p = p.push(part::<B>(v.1)); let l = l.push(slot::<B>());
    lemma_fits_push(p, l, part::<C>(v.2), slot::<C>()); let p = p.push(part::<C>(v.2)); let l = l.push(slot::<C>());
    lemma_fits_push(p, l, part::<D>(v.3), slot::<D>()); let p = p.push(part::<D>(v.3)); let l = l.push(slot::<D>());
}

@@ impl Encode for (A,B,C,D)
@@ fn Encode for (A,B,C,D)::ssz_fixed_len
@props C07
@@ fn Encode for (A,B,C,D)::ssz_bytes_len
@props C07
@start
    proof { self.law_wf(); lemma_sum4::<A, B, C, D>(self.v()); }
@at /^len .=/ 1
    assert(len == plen(part::<A>(self.v().0)));
@at /^len .=/ 2
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)));
@at /^len .=/ 3
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)));
@@ fn Encode for (A,B,C,D)::ssz_append
@props C01 C03 C07 C10
@start
    let ghost b0 = buf@;
    proof {
        let ps = parts4::<A, B, C, D>(self.v());
        self.law_wf();
        lemma_sum4::<A, B, C, D>(self.v());
        lemma_part_len(ps, 0); lemma_takes4::<A, B, C, D>(self.v()); lemma_part_len(ps, 1); lemma_part_len(ps, 2); lemma_part_len(ps, 3);
    }
@@ fn Encode for (A,B,C,D)::as_ssz_bytes
@result v_r
@finish
    proof { assert(v_r@ =~= Self::enc(self.v())); }

@@ impl Decode for (A,B,C,D)
@@ fn Decode for (A,B,C,D)::ssz_fixed_len
@props C07
@@ fn Decode for (A,B,C,D)::from_ssz_bytes
@props C01 C02 C04 C05 C09
@start
    proof {
        let l = lay4::<A, B, C, D>();
        let b = bytes@;
        if split_ok(b, l) {
            assert forall|i: int| 0 <= i < l.len() implies (#[trigger] piece(b, l, i)).len() <= b.len() by { lemma_split_bounds(b, l, i); }
        }
    }

@@ raw
pub proof fn lemma_takes4<A: Ssz, B: Ssz, C: Ssz, D: Ssz>(v: (A::V, B::V, C::V, D::V))
    ensures parts4::<A, B, C, D>(v).take(0) == Seq::<Part>::empty(), parts4::<A, B, C, D>(v).take(1) == Seq::<Part>::empty().push(part::<A>(v.0)), parts4::<A, B, C, D>(v).take(2) == Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)), parts4::<A, B, C, D>(v).take(3) == Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2))
{
    assert(parts4::<A, B, C, D>(v).take(0) =~= Seq::<Part>::empty()); assert(parts4::<A, B, C, D>(v).take(1) =~= Seq::<Part>::empty().push(part::<A>(v.0))); assert(parts4::<A, B, C, D>(v).take(2) =~= Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1))); assert(parts4::<A, B, C, D>(v).take(3) =~= Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)));
}

@@ module tuple5
@@ raw
pub open spec fn lay5<A: Ssz, B: Ssz, C: Ssz, D: Ssz, E: Ssz>() -> Seq<Slot> { Seq::<Slot>::empty().push(slot::<A>()).push(slot::<B>()).push(slot::<C>()).push(slot::<D>()).push(slot::<E>()) }

pub open spec fn parts5<A: Ssz, B: Ssz, C: Ssz, D: Ssz, E: Ssz>(v: (A::V, B::V, C::V, D::V, E::V)) -> Seq<Part> { Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)) }

pub open spec fn sum5<A: Ssz, B: Ssz, C: Ssz, D: Ssz, E: Ssz>() -> nat { A::flen() + B::flen() + C::flen() + D::flen() + E::flen() }

impl<A: Ssz, B: Ssz, C: Ssz, D: Ssz, E: Ssz> Ssz for (A, B, C, D, E) {
    type V = (A::V, B::V, C::V, D::V, E::V);
    open spec fn v(&self) -> (A::V, B::V, C::V, D::V, E::V) { (self.0.v(), self.1.v(), self.2.v(), self.3.v(), self.4.v()) }
    open spec fn wf(&self) -> bool { self.0.wf() && self.1.wf() && self.2.wf() && self.3.wf() && self.4.wf() }
    open spec fn valid(v: (A::V, B::V, C::V, D::V, E::V)) -> bool { A::valid(v.0) && B::valid(v.1) && C::valid(v.2) && D::valid(v.3) && E::valid(v.4) }
    open spec fn ok() -> bool { A::ok() && B::ok() && C::ok() && D::ok() && E::ok() && sum5::<A, B, C, D, E>() <= usize::MAX }
    open spec fn fixed() -> bool { A::fixed() && B::fixed() && C::fixed() && D::fixed() && E::fixed() }
    open spec fn flen() -> nat { if Self::fixed() { sum5::<A, B, C, D, E>() } else { 4 } }
    open spec fn enc(v: (A::V, B::V, C::V, D::V, E::V)) -> Seq<u8> { pack(parts5::<A, B, C, D, E>(v)) }
    open spec fn dec(b: Seq<u8>) -> Option<(A::V, B::V, C::V, D::V, E::V)> {
        let l = lay5::<A, B, C, D, E>();
        if split_ok(b, l) && A::dec(piece(b, l, 0)) is Some && B::dec(piece(b, l, 1)) is Some && C::dec(piece(b, l, 2)) is Some && D::dec(piece(b, l, 3)) is Some && E::dec(piece(b, l, 4)) is Some {
            Some((A::dec(piece(b, l, 0)).unwrap(), B::dec(piece(b, l, 1)).unwrap(), C::dec(piece(b, l, 2)).unwrap(), D::dec(piece(b, l, 3)).unwrap(), E::dec(piece(b, l, 4)).unwrap()))
        } else {
            None
        }
    }
    open spec fn rt() -> bool { A::rt() && B::rt() && C::rt() && D::rt() && E::rt() }
    open spec fn strict() -> bool { A::strict() && B::strict() && C::strict() && D::strict() && E::strict() }
    proof fn law_wf(&self) { self.0.law_wf(); self.1.law_wf(); self.2.law_wf(); self.3.law_wf(); self.4.law_wf(); }
    proof fn law_len(v: (A::V, B::V, C::V, D::V, E::V)) {
        let l = lay5::<A, B, C, D, E>();
        let ps = parts5::<A, B, C, D, E>(v);
        lemma_sum5::<A, B, C, D, E>(v);
        if Self::fixed() { lemma_tl_fixed(ps); lemma_hd_len(ps, fl(ps) as int); }
    }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) {
        let l = lay5::<A, B, C, D, E>();
        A::law_dec(piece(b, l, 0)); B::law_dec(piece(b, l, 1)); C::law_dec(piece(b, l, 2)); D::law_dec(piece(b, l, 3)); E::law_dec(piece(b, l, 4));
        A::law_flen(); B::law_flen(); C::law_flen(); D::law_flen(); E::law_flen();
        if Self::fixed() { lemma_next_fixed(b, l, 0); }
    }
    proof fn law_rt(v: (A::V, B::V, C::V, D::V, E::V)) {
        let l = lay5::<A, B, C, D, E>();
        let ps = parts5::<A, B, C, D, E>(v);
        lemma_sum5::<A, B, C, D, E>(v);
        lemma_split_of_pack(ps, l);
        lemma_part_len(ps, 0); A::law_rt(v.0); assert(piece(pack(ps), l, 0) == ps[0].1); lemma_part_len(ps, 1); B::law_rt(v.1); assert(piece(pack(ps), l, 1) == ps[1].1); lemma_part_len(ps, 2); C::law_rt(v.2); assert(piece(pack(ps), l, 2) == ps[2].1); lemma_part_len(ps, 3); D::law_rt(v.3); assert(piece(pack(ps), l, 3) == ps[3].1); lemma_part_len(ps, 4); E::law_rt(v.4); assert(piece(pack(ps), l, 4) == ps[4].1);
    }
    proof fn law_strict(b: Seq<u8>) {
        let l = lay5::<A, B, C, D, E>();
        A::law_strict(piece(b, l, 0)); A::law_flen(); B::law_strict(piece(b, l, 1)); B::law_flen(); C::law_strict(piece(b, l, 2)); C::law_flen(); D::law_strict(piece(b, l, 3)); D::law_flen(); E::law_strict(piece(b, l, 4)); E::law_flen();
        assert(parts5::<A, B, C, D, E>(Self::dec(b).unwrap()) =~= pieces_of(b, l));
        lemma_pack_of_split(b, l);
    }
}

pub proof fn lemma_sum5<A: Ssz, B: Ssz, C: Ssz, D: Ssz, E: Ssz>(v: (A::V, B::V, C::V, D::V, E::V))
    requires A::ok(), A::valid(v.0), B::ok(), B::valid(v.1), C::ok(), C::valid(v.2), D::ok(), D::valid(v.3), E::ok(), E::valid(v.4)
    ensures
        fits(parts5::<A, B, C, D, E>(v), lay5::<A, B, C, D, E>()),
        fl(parts5::<A, B, C, D, E>(v)) == sum5::<A, B, C, D, E>(),
        A::enc(v.0).len() <= plen(part::<A>(v.0)), B::enc(v.1).len() <= plen(part::<B>(v.1)), C::enc(v.2).len() <= plen(part::<C>(v.2)), D::enc(v.3).len() <= plen(part::<D>(v.3)), E::enc(v.4).len() <= plen(part::<E>(v.4)),
        A::fixed() ==> plen(part::<A>(v.0)) == A::flen(), B::fixed() ==> plen(part::<B>(v.1)) == B::flen(), C::fixed() ==> plen(part::<C>(v.2)) == C::flen(), D::fixed() ==> plen(part::<D>(v.3)) == D::flen(), E::fixed() ==> plen(part::<E>(v.4)) == E::flen(),
        !A::fixed() ==> plen(part::<A>(v.0)) == 4 + A::enc(v.0).len(), !B::fixed() ==> plen(part::<B>(v.1)) == 4 + B::enc(v.1).len(), !C::fixed() ==> plen(part::<C>(v.2)) == 4 + C::enc(v.2).len(), !D::fixed() ==> plen(part::<D>(v.3)) == 4 + D::enc(v.3).len(), !E::fixed() ==> plen(part::<E>(v.4)) == 4 + E::enc(v.4).len(),
        fl(parts5::<A, B, C, D, E>(v)) <= pack(parts5::<A, B, C, D, E>(v)).len(),
        pack(parts5::<A, B, C, D, E>(v)).len() == plen(part::<A>(v.0)) + plen(part::<B>(v.1)) + plen(part::<C>(v.2)) + plen(part::<D>(v.3)) + plen(part::<E>(v.4)),
{
    broadcast use lemma_total_push, lemma_pfl_push;
    let ps = parts5::<A, B, C, D, E>(v);
    lemma_part::<A>(v.0); A::law_flen(); lemma_part::<B>(v.1); B::law_flen(); lemma_part::<C>(v.2); C::law_flen(); lemma_part::<D>(v.3); D::law_flen(); lemma_part::<E>(v.4); E::law_flen();
    lemma_total(ps);
    lemma_total_empty();
    let p = Seq::<Part>::empty();
    let l = Seq::<Slot>::empty();
    assert(fits(p, l));
    lemma_fits_push(p, l, part::<A>(v.0), slot::<A>()); let p = p.push(part::<A>(v.0)); let l = l.push(slot::<A>());
    lemma_fits_push(p, l, part::<B>(v.1), slot::<B>()); let p = p.push(part::<B>(v.1)); let l = l.push(slot::<B>());
    lemma_fits_push(p, l, part::<C>(v.2), slot::<C>()); let p = p.push(part::<C>(v.2)); let l = l.push(slot::<C>());
    lemma_fits_push(p, l, part::<D>(v.3), slot::<D>()); let p = p.push(part::<D>(v.3)); let l = l.push(slot::<D>());
    lemma_fits_push(p, l, part::<E>(v.4), slot::<E>()); let p = p.push(part::<E>(v.4)); let l = l.push(slot::<E>());
}

@@ impl Encode for (A,B,C,D,E)
@@ fn Encode for (A,B,C,D,E)::ssz_fixed_len
@props C07
@@ fn Encode for (A,B,C,D,E)::ssz_bytes_len
@props C07
@start
    proof { self.law_wf(); lemma_sum5::<A, B, C, D, E>(self.v()); }
@at /^len .=/ 1
    assert(len == plen(part::<A>(self.v().0)));
@at /^len .=/ 2
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)));
@at /^len .=/ 3
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)));
@at /^len .=/ 4
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)) + plen(part::<D>(self.v().3)));
@@ fn Encode for (A,B,C,D,E)::ssz_append
@props C01 C03 C07 C10
@start
    let ghost b0 = buf@;
    proof {
        let ps = parts5::<A, B, C, D, E>(self.v());
        self.law_wf();
        lemma_sum5::<A, B, C, D, E>(self.v());
        lemma_part_len(ps, 0); lemma_takes5::<A, B, C, D, E>(self.v()); lemma_part_len(ps, 1); lemma_part_len(ps, 2); lemma_part_len(ps, 3); lemma_part_len(ps, 4);
    }
@@ fn Encode for (A,B,C,D,E)::as_ssz_bytes
@result v_r
@finish
    proof { assert(v_r@ =~= Self::enc(self.v())); }

@@ impl Decode for (A,B,C,D,E)
@@ fn Decode for (A,B,C,D,E)::ssz_fixed_len
@props C07
@@ fn Decode for (A,B,C,D,E)::from_ssz_bytes
@props C01 C02 C04 C05 C09
@start
    proof {
        let l = lay5::<A, B, C, D, E>();
        let b = bytes@;
        if split_ok(b, l) {
            assert forall|i: int| 0 <= i < l.len() implies (#[trigger] piece(b, l, i)).len() <= b.len() by { lemma_split_bounds(b, l, i); }
        }
    }

@@ raw
pub proof fn lemma_takes5<A: Ssz, B: Ssz, C: Ssz, D: Ssz, E: Ssz>(v: (A::V, B::V, C::V, D::V, E::V))
    ensures parts5::<A, B, C, D, E>(v).take(0) == Seq::<Part>::empty(), parts5::<A, B, C, D, E>(v).take(1) == Seq::<Part>::empty().push(part::<A>(v.0)), parts5::<A, B, C, D, E>(v).take(2) == Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)), parts5::<A, B, C, D, E>(v).take(3) == Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)), parts5::<A, B, C, D, E>(v).take(4) == Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3))
{
    assert(parts5::<A, B, C, D, E>(v).take(0) =~= Seq::<Part>::empty()); assert(parts5::<A, B, C, D, E>(v).take(1) =~= Seq::<Part>::empty().push(part::<A>(v.0))); assert(parts5::<A, B, C, D, E>(v).take(2) =~= Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1))); assert(parts5::<A, B, C, D, E>(v).take(3) =~= Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2))); assert(parts5::<A, B, C, D, E>(v).take(4) =~= Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)));
}

@@ module tuple6
@@ raw
pub open spec fn lay6<A: Ssz, B: Ssz, C: Ssz, D: Ssz, E: Ssz, F: Ssz>() -> Seq<Slot> { Seq::<Slot>::empty().push(slot::<A>()).push(slot::<B>()).push(slot::<C>()).push(slot::<D>()).push(slot::<E>()).push(slot::<F>()) }

pub open spec fn parts6<A: Ssz, B: Ssz, C: Ssz, D: Ssz, E: Ssz, F: Ssz>(v: (A::V, B::V, C::V, D::V, E::V, F::V)) -> Seq<Part> { Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)).push(part::<F>(v.5)) }

pub open spec fn sum6<A: Ssz, B: Ssz, C: Ssz, D: Ssz, E: Ssz, F: Ssz>() -> nat { A::flen() + B::flen() + C::flen() + D::flen() + E::flen() + F::flen() }

impl<A: Ssz, B: Ssz, C: Ssz, D: Ssz, E: Ssz, F: Ssz> Ssz for (A, B, C, D, E, F) {
    type V = (A::V, B::V, C::V, D::V, E::V, F::V);
    open spec fn v(&self) -> (A::V, B::V, C::V, D::V, E::V, F::V) { (self.0.v(), self.1.v(), self.2.v(), self.3.v(), self.4.v(), self.5.v()) }
    open spec fn wf(&self) -> bool { self.0.wf() && self.1.wf() && self.2.wf() && self.3.wf() && self.4.wf() && self.5.wf() }
    open spec fn valid(v: (A::V, B::V, C::V, D::V, E::V, F::V)) -> bool { A::valid(v.0) && B::valid(v.1) && C::valid(v.2) && D::valid(v.3) && E::valid(v.4) && F::valid(v.5) }
    open spec fn ok() -> bool { A::ok() && B::ok() && C::ok() && D::ok() && E::ok() && F::ok() && sum6::<A, B, C, D, E, F>() <= usize::MAX }
    open spec fn fixed() -> bool { A::fixed() && B::fixed() && C::fixed() && D::fixed() && E::fixed() && F::fixed() }
    open spec fn flen() -> nat { if Self::fixed() { sum6::<A, B, C, D, E, F>() } else { 4 } }
    open spec fn enc(v: (A::V, B::V, C::V, D::V, E::V, F::V)) -> Seq<u8> { pack(parts6::<A, B, C, D, E, F>(v)) }
    open spec fn dec(b: Seq<u8>) -> Option<(A::V, B::V, C::V, D::V, E::V, F::V)> {
        let l = lay6::<A, B, C, D, E, F>();
        if split_ok(b, l) && A::dec(piece(b, l, 0)) is Some && B::dec(piece(b, l, 1)) is Some && C::dec(piece(b, l, 2)) is Some && D::dec(piece(b, l, 3)) is Some && E::dec(piece(b, l, 4)) is Some && F::dec(piece(b, l, 5)) is Some {
            Some((A::dec(piece(b, l, 0)).unwrap(), B::dec(piece(b, l, 1)).unwrap(), C::dec(piece(b, l, 2)).unwrap(), D::dec(piece(b, l, 3)).unwrap(), E::dec(piece(b, l, 4)).unwrap(), F::dec(piece(b, l, 5)).unwrap()))
        } else {
            None
        }
    }
    open spec fn rt() -> bool { A::rt() && B::rt() && C::rt() && D::rt() && E::rt() && F::rt() }
    open spec fn strict() -> bool { A::strict() && B::strict() && C::strict() && D::strict() && E::strict() && F::strict() }
    proof fn law_wf(&self) { self.0.law_wf(); self.1.law_wf(); self.2.law_wf(); self.3.law_wf(); self.4.law_wf(); self.5.law_wf(); }
    proof fn law_len(v: (A::V, B::V, C::V, D::V, E::V, F::V)) {
        let l = lay6::<A, B, C, D, E, F>();
        let ps = parts6::<A, B, C, D, E, F>(v);
        lemma_sum6::<A, B, C, D, E, F>(v);
        if Self::fixed() { lemma_tl_fixed(ps); lemma_hd_len(ps, fl(ps) as int); }
    }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) {
        let l = lay6::<A, B, C, D, E, F>();
        A::law_dec(piece(b, l, 0)); B::law_dec(piece(b, l, 1)); C::law_dec(piece(b, l, 2)); D::law_dec(piece(b, l, 3)); E::law_dec(piece(b, l, 4)); F::law_dec(piece(b, l, 5));
        A::law_flen(); B::law_flen(); C::law_flen(); D::law_flen(); E::law_flen(); F::law_flen();
        if Self::fixed() { lemma_next_fixed(b, l, 0); }
    }
    proof fn law_rt(v: (A::V, B::V, C::V, D::V, E::V, F::V)) {
        let l = lay6::<A, B, C, D, E, F>();
        let ps = parts6::<A, B, C, D, E, F>(v);
        lemma_sum6::<A, B, C, D, E, F>(v);
        lemma_split_of_pack(ps, l);
        lemma_part_len(ps, 0); A::law_rt(v.0); assert(piece(pack(ps), l, 0) == ps[0].1); lemma_part_len(ps, 1); B::law_rt(v.1); assert(piece(pack(ps), l, 1) == ps[1].1); lemma_part_len(ps, 2); C::law_rt(v.2); assert(piece(pack(ps), l, 2) == ps[2].1); lemma_part_len(ps, 3); D::law_rt(v.3); assert(piece(pack(ps), l, 3) == ps[3].1); lemma_part_len(ps, 4); E::law_rt(v.4); assert(piece(pack(ps), l, 4) == ps[4].1); lemma_part_len(ps, 5); F::law_rt(v.5); assert(piece(pack(ps), l, 5) == ps[5].1);
    }
    proof fn law_strict(b: Seq<u8>) {
        let l = lay6::<A, B, C, D, E, F>();
        A::law_strict(piece(b, l, 0)); A::law_flen(); B::law_strict(piece(b, l, 1)); B::law_flen(); C::law_strict(piece(b, l, 2)); C::law_flen(); D::law_strict(piece(b, l, 3)); D::law_flen(); E::law_strict(piece(b, l, 4)); E::law_flen(); F::law_strict(piece(b, l, 5)); F::law_flen();
        assert(parts6::<A, B, C, D, E, F>(Self::dec(b).unwrap()) =~= pieces_of(b, l));
        lemma_pack_of_split(b, l);
    }
}

pub proof fn lemma_sum6<A: Ssz, B: Ssz, C: Ssz, D: Ssz, E: Ssz, F: Ssz>(v: (A::V, B::V, C::V, D::V, E::V, F::V))
    requires A::ok(), A::valid(v.0), B::ok(), B::valid(v.1), C::ok(), C::valid(v.2), D::ok(), D::valid(v.3), E::ok(), E::valid(v.4), F::ok(), F::valid(v.5)
    ensures
        fits(parts6::<A, B, C, D, E, F>(v), lay6::<A, B, C, D, E, F>()),
        fl(parts6::<A, B, C, D, E, F>(v)) == sum6::<A, B, C, D, E, F>(),
        A::enc(v.0).len() <= plen(part::<A>(v.0)), B::enc(v.1).len() <= plen(part::<B>(v.1)), C::enc(v.2).len() <= plen(part::<C>(v.2)), D::enc(v.3).len() <= plen(part::<D>(v.3)), E::enc(v.4).len() <= plen(part::<E>(v.4)), F::enc(v.5).len() <= plen(part::<F>(v.5)),
        A::fixed() ==> plen(part::<A>(v.0)) == A::flen(), B::fixed() ==> plen(part::<B>(v.1)) == B::flen(), C::fixed() ==> plen(part::<C>(v.2)) == C::flen(), D::fixed() ==> plen(part::<D>(v.3)) == D::flen(), E::fixed() ==> plen(part::<E>(v.4)) == E::flen(), F::fixed() ==> plen(part::<F>(v.5)) == F::flen(),
        !A::fixed() ==> plen(part::<A>(v.0)) == 4 + A::enc(v.0).len(), !B::fixed() ==> plen(part::<B>(v.1)) == 4 + B::enc(v.1).len(), !C::fixed() ==> plen(part::<C>(v.2)) == 4 + C::enc(v.2).len(), !D::fixed() ==> plen(part::<D>(v.3)) == 4 + D::enc(v.3).len(), !E::fixed() ==> plen(part::<E>(v.4)) == 4 + E::enc(v.4).len(), !F::fixed() ==> plen(part::<F>(v.5)) == 4 + F::enc(v.5).len(),
        fl(parts6::<A, B, C, D, E, F>(v)) <= pack(parts6::<A, B, C, D, E, F>(v)).len(),
        pack(parts6::<A, B, C, D, E, F>(v)).len() == plen(part::<A>(v.0)) + plen(part::<B>(v.1)) + plen(part::<C>(v.2)) + plen(part::<D>(v.3)) + plen(part::<E>(v.4)) + plen(part::<F>(v.5)),
{
    broadcast use lemma_total_push, lemma_pfl_push;
    let ps = parts6::<A, B, C, D, E, F>(v);
    lemma_part::<A>(v.0); A::law_flen(); lemma_part::<B>(v.1); B::law_flen(); lemma_part::<C>(v.2); C::law_flen(); lemma_part::<D>(v.3); D::law_flen(); lemma_part::<E>(v.4); E::law_flen(); lemma_part::<F>(v.5); F::law_flen();
    lemma_total(ps);
    lemma_total_empty();
    let p = Seq::<Part>::empty();
    let l = Seq::<Slot>::empty();
    assert(fits(p, l));
    lemma_fits_push(p, l, part::<A>(v.0), slot::<A>()); let p = p.push(part::<A>(v.0)); let l = l.push(slot::<A>());
    lemma_fits_push(p, l, part::<B>(v.1), slot::<B>()); let p = p.push(part::<B>(v.1)); let l = l.push(slot::<B>());
    lemma_fits_push(p, l, part::<C>(v.2), slot::<C>()); let p = p.push(part::<C>(v.2)); let l = l.push(slot::<C>());
    lemma_fits_push(p, l, part::<D>(v.3), slot::<D>()); let p = p.push(part::<D>(v.3)); let l = l.push(slot::<D>());
    lemma_fits_push(p, l, part::<E>(v.4), slot::<E>()); let p = p.push(part::<E>(v.4)); let l = l.push(slot::<E>());
    lemma_fits_push(p, l, part::<F>(v.5), slot::<F>()); let p = p.push(part::<F>(v.5)); let l = l.push(slot::<F>());
}

@@ impl Encode for (A,B,C,D,E,F)
@@ fn Encode for (A,B,C,D,E,F)::ssz_fixed_len
@props C07
@@ fn Encode for (A,B,C,D,E,F)::ssz_bytes_len
@props C07
@start
    proof { self.law_wf(); lemma_sum6::<A, B, C, D, E, F>(self.v()); }
@at /^len .=/ 1
    assert(len == plen(part::<A>(self.v().0)));
@at /^len .=/ 2
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)));
@at /^len .=/ 3
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)));
@at /^len .=/ 4
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)) + plen(part::<D>(self.v().3)));
@at /^len .=/ 5
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)) + plen(part::<D>(self.v().3)) + plen(part::<E>(self.v().4)));
@@ fn Encode for (A,B,C,D,E,F)::ssz_append
@props C01 C03 C07 C10
@start
    let ghost b0 = buf@;
    proof {
        let ps = parts6::<A, B, C, D, E, F>(self.v());
        self.law_wf();
        lemma_sum6::<A, B, C, D, E, F>(self.v());
        lemma_part_len(ps, 0); lemma_takes6::<A, B, C, D, E, F>(self.v()); lemma_part_len(ps, 1); lemma_part_len(ps, 2); lemma_part_len(ps, 3); lemma_part_len(ps, 4); lemma_part_len(ps, 5);
    }
@@ fn Encode for (A,B,C,D,E,F)::as_ssz_bytes
@result v_r
@finish
    proof { assert(v_r@ =~= Self::enc(self.v())); }

@@ impl Decode for (A,B,C,D,E,F)
@@ fn Decode for (A,B,C,D,E,F)::ssz_fixed_len
@props C07
@@ fn Decode for (A,B,C,D,E,F)::from_ssz_bytes
@props C01 C02 C04 C05 C09
@start
    proof {
        let l = lay6::<A, B, C, D, E, F>();
        let b = bytes@;
        if split_ok(b, l) {
            assert forall|i: int| 0 <= i < l.len() implies (#[trigger] piece(b, l, i)).len() <= b.len() by { lemma_split_bounds(b, l, i); }
        }
    }

@@ raw
pub proof fn lemma_takes6<A: Ssz, B: Ssz, C: Ssz, D: Ssz, E: Ssz, F: Ssz>(v: (A::V, B::V, C::V, D::V, E::V, F::V))
    ensures parts6::<A, B, C, D, E, F>(v).take(0) == Seq::<Part>::empty(), parts6::<A, B, C, D, E, F>(v).take(1) == Seq::<Part>::empty().push(part::<A>(v.0)), parts6::<A, B, C, D, E, F>(v).take(2) == Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)), parts6::<A, B, C, D, E, F>(v).take(3) == Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)), parts6::<A, B, C, D, E, F>(v).take(4) == Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)), parts6::<A, B, C, D, E, F>(v).take(5) == Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4))
{
    assert(parts6::<A, B, C, D, E, F>(v).take(0) =~= Seq::<Part>::empty()); assert(parts6::<A, B, C, D, E, F>(v).take(1) =~= Seq::<Part>::empty().push(part::<A>(v.0))); assert(parts6::<A, B, C, D, E, F>(v).take(2) =~= Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1))); assert(parts6::<A, B, C, D, E, F>(v).take(3) =~= Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2))); assert(parts6::<A, B, C, D, E, F>(v).take(4) =~= Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3))); assert(parts6::<A, B, C, D, E, F>(v).take(5) =~= Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)));
}

@@ module tuple7
@@ raw
pub open spec fn lay7<A: Ssz, B: Ssz, C: Ssz, D: Ssz, E: Ssz, F: Ssz, G: Ssz>() -> Seq<Slot> { Seq::<Slot>::empty().push(slot::<A>()).push(slot::<B>()).push(slot::<C>()).push(slot::<D>()).push(slot::<E>()).push(slot::<F>()).push(slot::<G>()) }

pub open spec fn parts7<A: Ssz, B: Ssz, C: Ssz, D: Ssz, E: Ssz, F: Ssz, G: Ssz>(v: (A::V, B::V, C::V, D::V, E::V, F::V, G::V)) -> Seq<Part> { Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)).push(part::<F>(v.5)).push(part::<G>(v.6)) }

pub open spec fn sum7<A: Ssz, B: Ssz, C: Ssz, D: Ssz, E: Ssz, F: Ssz, G: Ssz>() -> nat { A::flen() + B::flen() + C::flen() + D::flen() + E::flen() + F::flen() + G::flen() }

impl<A: Ssz, B: Ssz, C: Ssz, D: Ssz, E: Ssz, F: Ssz, G: Ssz> Ssz for (A, B, C, D, E, F, G) {
    type V = (A::V, B::V, C::V, D::V, E::V, F::V, G::V);
    open spec fn v(&self) -> (A::V, B::V, C::V, D::V, E::V, F::V, G::V) { (self.0.v(), self.1.v(), self.2.v(), self.3.v(), self.4.v(), self.5.v(), self.6.v()) }
    open spec fn wf(&self) -> bool { self.0.wf() && self.1.wf() && self.2.wf() && self.3.wf() && self.4.wf() && self.5.wf() && self.6.wf() }
    open spec fn valid(v: (A::V, B::V, C::V, D::V, E::V, F::V, G::V)) -> bool { A::valid(v.0) && B::valid(v.1) && C::valid(v.2) && D::valid(v.3) && E::valid(v.4) && F::valid(v.5) && G::valid(v.6) }
    open spec fn ok() -> bool { A::ok() && B::ok() && C::ok() && D::ok() && E::ok() && F::ok() && G::ok() && sum7::<A, B, C, D, E, F, G>() <= usize::MAX }
    open spec fn fixed() -> bool { A::fixed() && B::fixed() && C::fixed() && D::fixed() && E::fixed() && F::fixed() && G::fixed() }
    open spec fn flen() -> nat { if Self::fixed() { sum7::<A, B, C, D, E, F, G>() } else { 4 } }
    open spec fn enc(v: (A::V, B::V, C::V, D::V, E::V, F::V, G::V)) -> Seq<u8> { pack(parts7::<A, B, C, D, E, F, G>(v)) }
    open spec fn dec(b: Seq<u8>) -> Option<(A::V, B::V, C::V, D::V, E::V, F::V, G::V)> {
        let l = lay7::<A, B, C, D, E, F, G>();
        if split_ok(b, l) && A::dec(piece(b, l, 0)) is Some && B::dec(piece(b, l, 1)) is Some && C::dec(piece(b, l, 2)) is Some && D::dec(piece(b, l, 3)) is Some && E::dec(piece(b, l, 4)) is Some && F::dec(piece(b, l, 5)) is Some && G::dec(piece(b, l, 6)) is Some {
            Some((A::dec(piece(b, l, 0)).unwrap(), B::dec(piece(b, l, 1)).unwrap(), C::dec(piece(b, l, 2)).unwrap(), D::dec(piece(b, l, 3)).unwrap(), E::dec(piece(b, l, 4)).unwrap(), F::dec(piece(b, l, 5)).unwrap(), G::dec(piece(b, l, 6)).unwrap()))
        } else {
            None
        }
    }
    open spec fn rt() -> bool { A::rt() && B::rt() && C::rt() && D::rt() && E::rt() && F::rt() && G::rt() }
    open spec fn strict() -> bool { A::strict() && B::strict() && C::strict() && D::strict() && E::strict() && F::strict() && G::strict() }
    proof fn law_wf(&self) { self.0.law_wf(); self.1.law_wf(); self.2.law_wf(); self.3.law_wf(); self.4.law_wf(); self.5.law_wf(); self.6.law_wf(); }
    proof fn law_len(v: (A::V, B::V, C::V, D::V, E::V, F::V, G::V)) {
        let l = lay7::<A, B, C, D, E, F, G>();
        let ps = parts7::<A, B, C, D, E, F, G>(v);
        lemma_sum7::<A, B, C, D, E, F, G>(v);
        if Self::fixed() { lemma_tl_fixed(ps); lemma_hd_len(ps, fl(ps) as int); }
    }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) {
        let l = lay7::<A, B, C, D, E, F, G>();
        A::law_dec(piece(b, l, 0)); B::law_dec(piece(b, l, 1)); C::law_dec(piece(b, l, 2)); D::law_dec(piece(b, l, 3)); E::law_dec(piece(b, l, 4)); F::law_dec(piece(b, l, 5)); G::law_dec(piece(b, l, 6));
        A::law_flen(); B::law_flen(); C::law_flen(); D::law_flen(); E::law_flen(); F::law_flen(); G::law_flen();
        if Self::fixed() { lemma_next_fixed(b, l, 0); }
    }
    proof fn law_rt(v: (A::V, B::V, C::V, D::V, E::V, F::V, G::V)) {
        let l = lay7::<A, B, C, D, E, F, G>();
        let ps = parts7::<A, B, C, D, E, F, G>(v);
        lemma_sum7::<A, B, C, D, E, F, G>(v);
        lemma_split_of_pack(ps, l);
        lemma_part_len(ps, 0); A::law_rt(v.0); assert(piece(pack(ps), l, 0) == ps[0].1); lemma_part_len(ps, 1); B::law_rt(v.1); assert(piece(pack(ps), l, 1) == ps[1].1); lemma_part_len(ps, 2); C::law_rt(v.2); assert(piece(pack(ps), l, 2) == ps[2].1); lemma_part_len(ps, 3); D::law_rt(v.3); assert(piece(pack(ps), l, 3) == ps[3].1); lemma_part_len(ps, 4); E::law_rt(v.4); assert(piece(pack(ps), l, 4) == ps[4].1); lemma_part_len(ps, 5); F::law_rt(v.5); assert(piece(pack(ps), l, 5) == ps[5].1); lemma_part_len(ps, 6); G::law_rt(v.6); assert(piece(pack(ps), l, 6) == ps[6].1);
    }
    proof fn law_strict(b: Seq<u8>) {
        let l = lay7::<A, B, C, D, E, F, G>();
        A::law_strict(piece(b, l, 0)); A::law_flen(); B::law_strict(piece(b, l, 1)); B::law_flen(); C::law_strict(piece(b, l, 2)); C::law_flen(); D::law_strict(piece(b, l, 3)); D::law_flen(); E::law_strict(piece(b, l, 4)); E::law_flen(); F::law_strict(piece(b, l, 5)); F::law_flen(); G::law_strict(piece(b, l, 6)); G::law_flen();
        assert(parts7::<A, B, C, D, E, F, G>(Self::dec(b).unwrap()) =~= pieces_of(b, l));
        lemma_pack_of_split(b, l);
    }
}

#[verifier::rlimit(80)]
pub proof fn lemma_sum7<A: Ssz, B: Ssz, C: Ssz, D: Ssz, E: Ssz, F: Ssz, G: Ssz>(v: (A::V, B::V, C::V, D::V, E::V, F::V, G::V))
    requires A::ok(), A::valid(v.0), B::ok(), B::valid(v.1), C::ok(), C::valid(v.2), D::ok(), D::valid(v.3), E::ok(), E::valid(v.4), F::ok(), F::valid(v.5), G::ok(), G::valid(v.6)
    ensures
        fits(parts7::<A, B, C, D, E, F, G>(v), lay7::<A, B, C, D, E, F, G>()),
        fl(parts7::<A, B, C, D, E, F, G>(v)) == sum7::<A, B, C, D, E, F, G>(),
        A::enc(v.0).len() <= plen(part::<A>(v.0)), B::enc(v.1).len() <= plen(part::<B>(v.1)), C::enc(v.2).len() <= plen(part::<C>(v.2)), D::enc(v.3).len() <= plen(part::<D>(v.3)), E::enc(v.4).len() <= plen(part::<E>(v.4)), F::enc(v.5).len() <= plen(part::<F>(v.5)), G::enc(v.6).len() <= plen(part::<G>(v.6)),
        A::fixed() ==> plen(part::<A>(v.0)) == A::flen(), B::fixed() ==> plen(part::<B>(v.1)) == B::flen(), C::fixed() ==> plen(part::<C>(v.2)) == C::flen(), D::fixed() ==> plen(part::<D>(v.3)) == D::flen(), E::fixed() ==> plen(part::<E>(v.4)) == E::flen(), F::fixed() ==> plen(part::<F>(v.5)) == F::flen(), G::fixed() ==> plen(part::<G>(v.6)) == G::flen(),
        !A::fixed() ==> plen(part::<A>(v.0)) == 4 + A::enc(v.0).len(), !B::fixed() ==> plen(part::<B>(v.1)) == 4 + B::enc(v.1).len(), !C::fixed() ==> plen(part::<C>(v.2)) == 4 + C::enc(v.2).len(), !D::fixed() ==> plen(part::<D>(v.3)) == 4 + D::enc(v.3).len(), !E::fixed() ==> plen(part::<E>(v.4)) == 4 + E::enc(v.4).len(), !F::fixed() ==> plen(part::<F>(v.5)) == 4 + F::enc(v.5).len(), !G::fixed() ==> plen(part::<G>(v.6)) == 4 + G::enc(v.6).len(),
        fl(parts7::<A, B, C, D, E, F, G>(v)) <= pack(parts7::<A, B, C, D, E, F, G>(v)).len(),
        pack(parts7::<A, B, C, D, E, F, G>(v)).len() == plen(part::<A>(v.0)) + plen(part::<B>(v.1)) + plen(part::<C>(v.2)) + plen(part::<D>(v.3)) + plen(part::<E>(v.4)) + plen(part::<F>(v.5)) + plen(part::<G>(v.6)),
{
    broadcast use lemma_total_push, lemma_pfl_push;
    let ps = parts7::<A, B, C, D, E, F, G>(v);
    lemma_part::<A>(v.0); A::law_flen(); lemma_part::<B>(v.1); B::law_flen(); lemma_part::<C>(v.2); C::law_flen(); lemma_part::<D>(v.3); D::law_flen(); lemma_part::<E>(v.4); E::law_flen(); lemma_part::<F>(v.5); F::law_flen(); lemma_part::<G>(v.6); G::law_flen();
    lemma_total(ps);
    lemma_total_empty();
    let p = Seq::<Part>::empty();
    let l = Seq::<Slot>::empty();
    assert(fits(p, l));
    lemma_fits_push(p, l, part::<A>(v.0), slot::<A>()); let p = p.push(part::<A>(v.0)); let l = l.push(slot::<A>());
    lemma_fits_push(p, l, part::<B>(v.1), slot::<B>()); let p = p.push(part::<B>(v.1)); let l = l.push(slot::<B>());
    lemma_fits_push(p, l, part::<C>(v.2), slot::<C>()); let p = p.push(part::<C>(v.2)); let l = l.push(slot::<C>());
    lemma_fits_push(p, l, part::<D>(v.3), slot::<D>()); let p = p.push(part::<D>(v.3)); let l = l.push(slot::<D>());
    lemma_fits_push(p, l, part::<E>(v.4), slot::<E>()); let p = p.push(part::<E>(v.4)); let l = l.push(slot::<E>());
    lemma_fits_push(p, l, part::<F>(v.5), slot::<F>()); let p = p.push(part::<F>(v.5)); let l = l.push(slot::<F>());
    lemma_fits_push(p, l, part::<G>(v.6), slot::<G>()); let p = p.push(part::<G>(v.6)); let l = l.push(slot::<G>());
}

@@ impl Encode for (A,B,C,D,E,F,G)
@@ fn Encode for (A,B,C,D,E,F,G)::ssz_fixed_len
@props C07
@@ fn Encode for (A,B,C,D,E,F,G)::ssz_bytes_len
@props C07
@attr #[verifier::rlimit(80)]
@start
    proof { self.law_wf(); lemma_sum7::<A, B, C, D, E, F, G>(self.v()); }
@at /^len .=/ 1
    assert(len == plen(part::<A>(self.v().0)));
@at /^len .=/ 2
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)));
@at /^len .=/ 3
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)));
@at /^len .=/ 4
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)) + plen(part::<D>(self.v().3)));
@at /^len .=/ 5
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)) + plen(part::<D>(self.v().3)) + plen(part::<E>(self.v().4)));
@at /^len .=/ 6
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)) + plen(part::<D>(self.v().3)) + plen(part::<E>(self.v().4)) + plen(part::<F>(self.v().5)));
@@ fn Encode for (A,B,C,D,E,F,G)::ssz_append
@props C01 C03 C07 C10
@attr #[verifier::rlimit(80)]
@start
    let ghost b0 = buf@;
    proof {
        let ps = parts7::<A, B, C, D, E, F, G>(self.v());
        self.law_wf();
        lemma_sum7::<A, B, C, D, E, F, G>(self.v());
        lemma_part_len(ps, 0); lemma_takes7::<A, B, C, D, E, F, G>(self.v()); lemma_part_len(ps, 1); lemma_part_len(ps, 2); lemma_part_len(ps, 3); lemma_part_len(ps, 4); lemma_part_len(ps, 5); lemma_part_len(ps, 6);
    }
@@ fn Encode for (A,B,C,D,E,F,G)::as_ssz_bytes
@result v_r
@finish
    proof { assert(v_r@ =~= Self::enc(self.v())); }

@@ impl Decode for (A,B,C,D,E,F,G)
@@ fn Decode for (A,B,C,D,E,F,G)::ssz_fixed_len
@props C07
@@ fn Decode for (A,B,C,D,E,F,G)::from_ssz_bytes
@props C01 C02 C04 C05 C09
@start
    proof {
        let l = lay7::<A, B, C, D, E, F, G>();
        let b = bytes@;
        if split_ok(b, l) {
            assert forall|i: int| 0 <= i < l.len() implies (#[trigger] piece(b, l, i)).len() <= b.len() by { lemma_split_bounds(b, l, i); }
        }
    }

@@ raw
pub proof fn lemma_takes7<A: Ssz, B: Ssz, C: Ssz, D: Ssz, E: Ssz, F: Ssz, G: Ssz>(v: (A::V, B::V, C::V, D::V, E::V, F::V, G::V))
    ensures parts7::<A, B, C, D, E, F, G>(v).take(0) == Seq::<Part>::empty(), parts7::<A, B, C, D, E, F, G>(v).take(1) == Seq::<Part>::empty().push(part::<A>(v.0)), parts7::<A, B, C, D, E, F, G>(v).take(2) == Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)), parts7::<A, B, C, D, E, F, G>(v).take(3) == Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)), parts7::<A, B, C, D, E, F, G>(v).take(4) == Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)), parts7::<A, B, C, D, E, F, G>(v).take(5) == Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)), parts7::<A, B, C, D, E, F, G>(v).take(6) == Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)).push(part::<F>(v.5))
{
    assert(parts7::<A, B, C, D, E, F, G>(v).take(0) =~= Seq::<Part>::empty()); assert(parts7::<A, B, C, D, E, F, G>(v).take(1) =~= Seq::<Part>::empty().push(part::<A>(v.0))); assert(parts7::<A, B, C, D, E, F, G>(v).take(2) =~= Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1))); assert(parts7::<A, B, C, D, E, F, G>(v).take(3) =~= Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2))); assert(parts7::<A, B, C, D, E, F, G>(v).take(4) =~= Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3))); assert(parts7::<A, B, C, D, E, F, G>(v).take(5) =~= Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4))); assert(parts7::<A, B, C, D, E, F, G>(v).take(6) =~= Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)).push(part::<F>(v.5)));
}

@@ module tuple8
@@ raw
pub open spec fn lay8<A: Ssz, B: Ssz, C: Ssz, D: Ssz, E: Ssz, F: Ssz, G: Ssz, H: Ssz>() -> Seq<Slot> { Seq::<Slot>::empty().push(slot::<A>()).push(slot::<B>()).push(slot::<C>()).push(slot::<D>()).push(slot::<E>()).push(slot::<F>()).push(slot::<G>()).push(slot::<H>()) }

pub open spec fn parts8<A: Ssz, B: Ssz, C: Ssz, D: Ssz, E: Ssz, F: Ssz, G: Ssz, H: Ssz>(v: (A::V, B::V, C::V, D::V, E::V, F::V, G::V, H::V)) -> Seq<Part> { Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)).push(part::<F>(v.5)).push(part::<G>(v.6)).push(part::<H>(v.7)) }

pub open spec fn sum8<A: Ssz, B: Ssz, C: Ssz, D: Ssz, E: Ssz, F: Ssz, G: Ssz, H: Ssz>() -> nat { A::flen() + B::flen() + C::flen() + D::flen() + E::flen() + F::flen() + G::flen() + H::flen() }

impl<A: Ssz, B: Ssz, C: Ssz, D: Ssz, E: Ssz, F: Ssz, G: Ssz, H: Ssz> Ssz for (A, B, C, D, E, F, G, H) {
    type V = (A::V, B::V, C::V, D::V, E::V, F::V, G::V, H::V);
    open spec fn v(&self) -> (A::V, B::V, C::V, D::V, E::V, F::V, G::V, H::V) { (self.0.v(), self.1.v(), self.2.v(), self.3.v(), self.4.v(), self.5.v(), self.6.v(), self.7.v()) }
    open spec fn wf(&self) -> bool { self.0.wf() && self.1.wf() && self.2.wf() && self.3.wf() && self.4.wf() && self.5.wf() && self.6.wf() && self.7.wf() }
    open spec fn valid(v: (A::V, B::V, C::V, D::V, E::V, F::V, G::V, H::V)) -> bool { A::valid(v.0) && B::valid(v.1) && C::valid(v.2) && D::valid(v.3) && E::valid(v.4) && F::valid(v.5) && G::valid(v.6) && H::valid(v.7) }
    open spec fn ok() -> bool { A::ok() && B::ok() && C::ok() && D::ok() && E::ok() && F::ok() && G::ok() && H::ok() && sum8::<A, B, C, D, E, F, G, H>() <= usize::MAX }
    open spec fn fixed() -> bool { A::fixed() && B::fixed() && C::fixed() && D::fixed() && E::fixed() && F::fixed() && G::fixed() && H::fixed() }
    open spec fn flen() -> nat { if Self::fixed() { sum8::<A, B, C, D, E, F, G, H>() } else { 4 } }
    open spec fn enc(v: (A::V, B::V, C::V, D::V, E::V, F::V, G::V, H::V)) -> Seq<u8> { pack(parts8::<A, B, C, D, E, F, G, H>(v)) }
    open spec fn dec(b: Seq<u8>) -> Option<(A::V, B::V, C::V, D::V, E::V, F::V, G::V, H::V)> {
        let l = lay8::<A, B, C, D, E, F, G, H>();
        if split_ok(b, l) && A::dec(piece(b, l, 0)) is Some && B::dec(piece(b, l, 1)) is Some && C::dec(piece(b, l, 2)) is Some && D::dec(piece(b, l, 3)) is Some && E::dec(piece(b, l, 4)) is Some && F::dec(piece(b, l, 5)) is Some && G::dec(piece(b, l, 6)) is Some && H::dec(piece(b, l, 7)) is Some {
            Some((A::dec(piece(b, l, 0)).unwrap(), B::dec(piece(b, l, 1)).unwrap(), C::dec(piece(b, l, 2)).unwrap(), D::dec(piece(b, l, 3)).unwrap(), E::dec(piece(b, l, 4)).unwrap(), F::dec(piece(b, l, 5)).unwrap(), G::dec(piece(b, l, 6)).unwrap(), H::dec(piece(b, l, 7)).unwrap()))
        } else {
            None
        }
    }
    open spec fn rt() -> bool { A::rt() && B::rt() && C::rt() && D::rt() && E::rt() && F::rt() && G::rt() && H::rt() }
    open spec fn strict() -> bool { A::strict() && B::strict() && C::strict() && D::strict() && E::strict() && F::strict() && G::strict() && H::strict() }
    proof fn law_wf(&self) { self.0.law_wf(); self.1.law_wf(); self.2.law_wf(); self.3.law_wf(); self.4.law_wf(); self.5.law_wf(); self.6.law_wf(); self.7.law_wf(); }
    proof fn law_len(v: (A::V, B::V, C::V, D::V, E::V, F::V, G::V, H::V)) {
        let l = lay8::<A, B, C, D, E, F, G, H>();
        let ps = parts8::<A, B, C, D, E, F, G, H>(v);
        lemma_sum8::<A, B, C, D, E, F, G, H>(v);
        if Self::fixed() { lemma_tl_fixed(ps); lemma_hd_len(ps, fl(ps) as int); }
    }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) {
        let l = lay8::<A, B, C, D, E, F, G, H>();
        A::law_dec(piece(b, l, 0)); B::law_dec(piece(b, l, 1)); C::law_dec(piece(b, l, 2)); D::law_dec(piece(b, l, 3)); E::law_dec(piece(b, l, 4)); F::law_dec(piece(b, l, 5)); G::law_dec(piece(b, l, 6)); H::law_dec(piece(b, l, 7));
        A::law_flen(); B::law_flen(); C::law_flen(); D::law_flen(); E::law_flen(); F::law_flen(); G::law_flen(); H::law_flen();
        if Self::fixed() { lemma_next_fixed(b, l, 0); }
    }
    proof fn law_rt(v: (A::V, B::V, C::V, D::V, E::V, F::V, G::V, H::V)) {
        let l = lay8::<A, B, C, D, E, F, G, H>();
        let ps = parts8::<A, B, C, D, E, F, G, H>(v);
        lemma_sum8::<A, B, C, D, E, F, G, H>(v);
        lemma_split_of_pack(ps, l);
        lemma_part_len(ps, 0); A::law_rt(v.0); assert(piece(pack(ps), l, 0) == ps[0].1); lemma_part_len(ps, 1); B::law_rt(v.1); assert(piece(pack(ps), l, 1) == ps[1].1); lemma_part_len(ps, 2); C::law_rt(v.2); assert(piece(pack(ps), l, 2) == ps[2].1); lemma_part_len(ps, 3); D::law_rt(v.3); assert(piece(pack(ps), l, 3) == ps[3].1); lemma_part_len(ps, 4); E::law_rt(v.4); assert(piece(pack(ps), l, 4) == ps[4].1); lemma_part_len(ps, 5); F::law_rt(v.5); assert(piece(pack(ps), l, 5) == ps[5].1); lemma_part_len(ps, 6); G::law_rt(v.6); assert(piece(pack(ps), l, 6) == ps[6].1); lemma_part_len(ps, 7); H::law_rt(v.7); assert(piece(pack(ps), l, 7) == ps[7].1);
    }
    proof fn law_strict(b: Seq<u8>) {
        let l = lay8::<A, B, C, D, E, F, G, H>();
        A::law_strict(piece(b, l, 0)); A::law_flen(); B::law_strict(piece(b, l, 1)); B::law_flen(); C::law_strict(piece(b, l, 2)); C::law_flen(); D::law_strict(piece(b, l, 3)); D::law_flen(); E::law_strict(piece(b, l, 4)); E::law_flen(); F::law_strict(piece(b, l, 5)); F::law_flen(); G::law_strict(piece(b, l, 6)); G::law_flen(); H::law_strict(piece(b, l, 7)); H::law_flen();
        assert(parts8::<A, B, C, D, E, F, G, H>(Self::dec(b).unwrap()) =~= pieces_of(b, l));
        lemma_pack_of_split(b, l);
    }
}

#[verifier::rlimit(80)]
pub proof fn lemma_sum8<A: Ssz, B: Ssz, C: Ssz, D: Ssz, E: Ssz, F: Ssz, G: Ssz, H: Ssz>(v: (A::V, B::V, C::V, D::V, E::V, F::V, G::V, H::V))
    requires A::ok(), A::valid(v.0), B::ok(), B::valid(v.1), C::ok(), C::valid(v.2), D::ok(), D::valid(v.3), E::ok(), E::valid(v.4), F::ok(), F::valid(v.5), G::ok(), G::valid(v.6), H::ok(), H::valid(v.7)
    ensures
        fits(parts8::<A, B, C, D, E, F, G, H>(v), lay8::<A, B, C, D, E, F, G, H>()),
        fl(parts8::<A, B, C, D, E, F, G, H>(v)) == sum8::<A, B, C, D, E, F, G, H>(),
        A::enc(v.0).len() <= plen(part::<A>(v.0)), B::enc(v.1).len() <= plen(part::<B>(v.1)), C::enc(v.2).len() <= plen(part::<C>(v.2)), D::enc(v.3).len() <= plen(part::<D>(v.3)), E::enc(v.4).len() <= plen(part::<E>(v.4)), F::enc(v.5).len() <= plen(part::<F>(v.5)), G::enc(v.6).len() <= plen(part::<G>(v.6)), H::enc(v.7).len() <= plen(part::<H>(v.7)),
        A::fixed() ==> plen(part::<A>(v.0)) == A::flen(), B::fixed() ==> plen(part::<B>(v.1)) == B::flen(), C::fixed() ==> plen(part::<C>(v.2)) == C::flen(), D::fixed() ==> plen(part::<D>(v.3)) == D::flen(), E::fixed() ==> plen(part::<E>(v.4)) == E::flen(), F::fixed() ==> plen(part::<F>(v.5)) == F::flen(), G::fixed() ==> plen(part::<G>(v.6)) == G::flen(), H::fixed() ==> plen(part::<H>(v.7)) == H::flen(),
        !A::fixed() ==> plen(part::<A>(v.0)) == 4 + A::enc(v.0).len(), !B::fixed() ==> plen(part::<B>(v.1)) == 4 + B::enc(v.1).len(), !C::fixed() ==> plen(part::<C>(v.2)) == 4 + C::enc(v.2).len(), !D::fixed() ==> plen(part::<D>(v.3)) == 4 + D::enc(v.3).len(), !E::fixed() ==> plen(part::<E>(v.4)) == 4 + E::enc(v.4).len(), !F::fixed() ==> plen(part::<F>(v.5)) == 4 + F::enc(v.5).len(), !G::fixed() ==> plen(part::<G>(v.6)) == 4 + G::enc(v.6).len(), !H::fixed() ==> plen(part::<H>(v.7)) == 4 + H::enc(v.7).len(),
        fl(parts8::<A, B, C, D, E, F, G, H>(v)) <= pack(parts8::<A, B, C, D, E, F, G, H>(v)).len(),
        pack(parts8::<A, B, C, D, E, F, G, H>(v)).len() == plen(part::<A>(v.0)) + plen(part::<B>(v.1)) + plen(part::<C>(v.2)) + plen(part::<D>(v.3)) + plen(part::<E>(v.4)) + plen(part::<F>(v.5)) + plen(part::<G>(v.6)) + plen(part::<H>(v.7)),
{
    broadcast use lemma_total_push, lemma_pfl_push;
    let ps = parts8::<A, B, C, D, E, F, G, H>(v);
    lemma_part::<A>(v.0); A::law_flen(); lemma_part::<B>(v.1); B::law_flen(); lemma_part::<C>(v.2); C::law_flen(); lemma_part::<D>(v.3); D::law_flen(); lemma_part::<E>(v.4); E::law_flen(); lemma_part::<F>(v.5); F::law_flen(); lemma_part::<G>(v.6); G::law_flen(); lemma_part::<H>(v.7); H::law_flen();
    lemma_total(ps);
    lemma_total_empty();
    let p = Seq::<Part>::empty();
    let l = Seq::<Slot>::empty();
    assert(fits(p, l));
    lemma_fits_push(p, l, part::<A>(v.0), slot::<A>()); let p = p.push(part::<A>(v.0)); let l = l.push(slot::<A>());
    lemma_fits_push(p, l, part::<B>(v.1), slot::<B>()); let p = p.push(part::<B>(v.1)); let l = l.push(slot::<B>());
    lemma_fits_push(p, l, part::<C>(v.2), slot::<C>()); let p = p.push(part::<C>(v.2)); let l = l.push(slot::<C>());
    lemma_fits_push(p, l, part::<D>(v.3), slot::<D>()); let p = p.push(part::<D>(v.3)); let l = l.push(slot::<D>());
    lemma_fits_push(p, l, part::<E>(v.4), slot::<E>()); let p = p.push(part::<E>(v.4)); let l = l.push(slot::<E>());
    lemma_fits_push(p, l, part::<F>(v.5), slot::<F>()); let p = p.push(part::<F>(v.5)); let l = l.push(slot::<F>());
    lemma_fits_push(p, l, part::<G>(v.6), slot::<G>()); let p = p.push(part::<G>(v.6)); let l = l.push(slot::<G>());
    lemma_fits_push(p, l, part::<H>(v.7), slot::<H>()); let p = p.push(part::<H>(v.7)); let l = l.push(slot::<H>());
}

@@ impl Encode for (A,B,C,D,E,F,G,H)
@@ fn Encode for (A,B,C,D,E,F,G,H)::ssz_fixed_len
@props C07
@@ fn Encode for (A,B,C,D,E,F,G,H)::ssz_bytes_len
@props C07
@attr #[verifier::rlimit(80)]
@start
    proof { self.law_wf(); lemma_sum8::<A, B, C, D, E, F, G, H>(self.v()); }
@at /^len .=/ 1
    assert(len == plen(part::<A>(self.v().0)));
@at /^len .=/ 2
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)));
@at /^len .=/ 3
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)));
@at /^len .=/ 4
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)) + plen(part::<D>(self.v().3)));
@at /^len .=/ 5
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)) + plen(part::<D>(self.v().3)) + plen(part::<E>(self.v().4)));
@at /^len .=/ 6
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)) + plen(part::<D>(self.v().3)) + plen(part::<E>(self.v().4)) + plen(part::<F>(self.v().5)));
@at /^len .=/ 7
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)) + plen(part::<D>(self.v().3)) + plen(part::<E>(self.v().4)) + plen(part::<F>(self.v().5)) + plen(part::<G>(self.v().6)));
@@ fn Encode for (A,B,C,D,E,F,G,H)::ssz_append
@props C01 C03 C07 C10
@attr #[verifier::rlimit(80)]
@start
    let ghost b0 = buf@;
    proof {
        let ps = parts8::<A, B, C, D, E, F, G, H>(self.v());
        self.law_wf();
        lemma_sum8::<A, B, C, D, E, F, G, H>(self.v());
        lemma_part_len(ps, 0); lemma_takes8::<A, B, C, D, E, F, G, H>(self.v()); lemma_part_len(ps, 1); lemma_part_len(ps, 2); lemma_part_len(ps, 3); lemma_part_len(ps, 4); lemma_part_len(ps, 5); lemma_part_len(ps, 6); lemma_part_len(ps, 7);
    }
@@ fn Encode for (A,B,C,D,E,F,G,H)::as_ssz_bytes
@result v_r
@finish
    proof { assert(v_r@ =~= Self::enc(self.v())); }

@@ impl Decode for (A,B,C,D,E,F,G,H)
@@ fn Decode for (A,B,C,D,E,F,G,H)::ssz_fixed_len
@props C07
@@ fn Decode for (A,B,C,D,E,F,G,H)::from_ssz_bytes
@props C01 C02 C04 C05 C09
@start
    proof {
        let l = lay8::<A, B, C, D, E, F, G, H>();
        let b = bytes@;
        if split_ok(b, l) {
            assert forall|i: int| 0 <= i < l.len() implies (#[trigger] piece(b, l, i)).len() <= b.len() by { lemma_split_bounds(b, l, i); }
        }
    }

@@ raw
pub proof fn lemma_takes8<A: Ssz, B: Ssz, C: Ssz, D: Ssz, E: Ssz, F: Ssz, G: Ssz, H: Ssz>(v: (A::V, B::V, C::V, D::V, E::V, F::V, G::V, H::V))
    ensures parts8::<A, B, C, D, E, F, G, H>(v).take(0) == Seq::<Part>::empty(), parts8::<A, B, C, D, E, F, G, H>(v).take(1) == Seq::<Part>::empty().push(part::<A>(v.0)), parts8::<A, B, C, D, E, F, G, H>(v).take(2) == Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)), parts8::<A, B, C, D, E, F, G, H>(v).take(3) == Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)), parts8::<A, B, C, D, E, F, G, H>(v).take(4) == Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)), parts8::<A, B, C, D, E, F, G, H>(v).take(5) == Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)), parts8::<A, B, C, D, E, F, G, H>(v).take(6) == Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)).push(part::<F>(v.5)), parts8::<A, B, C, D, E, F, G, H>(v).take(7) == Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)).push(part::<F>(v.5)).push(part::<G>(v.6))
{
    assert(parts8::<A, B, C, D, E, F, G, H>(v).take(0) =~= Seq::<Part>::empty()); assert(parts8::<A, B, C, D, E, F, G, H>(v).take(1) =~= Seq::<Part>::empty().push(part::<A>(v.0))); assert(parts8::<A, B, C, D, E, F, G, H>(v).take(2) =~= Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1))); assert(parts8::<A, B, C, D, E, F, G, H>(v).take(3) =~= Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2))); assert(parts8::<A, B, C, D, E, F, G, H>(v).take(4) =~= Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3))); assert(parts8::<A, B, C, D, E, F, G, H>(v).take(5) =~= Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4))); assert(parts8::<A, B, C, D, E, F, G, H>(v).take(6) =~= Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)).push(part::<F>(v.5))); assert(parts8::<A, B, C, D, E, F, G, H>(v).take(7) =~= Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)).push(part::<F>(v.5)).push(part::<G>(v.6)));
}

@@ module tuple9
@@ raw
pub open spec fn lay9<A: Ssz, B: Ssz, C: Ssz, D: Ssz, E: Ssz, F: Ssz, G: Ssz, H: Ssz, I: Ssz>() -> Seq<Slot> { Seq::<Slot>::empty().push(slot::<A>()).push(slot::<B>()).push(slot::<C>()).push(slot::<D>()).push(slot::<E>()).push(slot::<F>()).push(slot::<G>()).push(slot::<H>()).push(slot::<I>()) }

pub open spec fn parts9<A: Ssz, B: Ssz, C: Ssz, D: Ssz, E: Ssz, F: Ssz, G: Ssz, H: Ssz, I: Ssz>(v: (A::V, B::V, C::V, D::V, E::V, F::V, G::V, H::V, I::V)) -> Seq<Part> { Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)).push(part::<F>(v.5)).push(part::<G>(v.6)).push(part::<H>(v.7)).push(part::<I>(v.8)) }

pub open spec fn sum9<A: Ssz, B: Ssz, C: Ssz, D: Ssz, E: Ssz, F: Ssz, G: Ssz, H: Ssz, I: Ssz>() -> nat { A::flen() + B::flen() + C::flen() + D::flen() + E::flen() + F::flen() + G::flen() + H::flen() + I::flen() }

impl<A: Ssz, B: Ssz, C: Ssz, D: Ssz, E: Ssz, F: Ssz, G: Ssz, H: Ssz, I: Ssz> Ssz for (A, B, C, D, E, F, G, H, I) {
    type V = (A::V, B::V, C::V, D::V, E::V, F::V, G::V, H::V, I::V);
    open spec fn v(&self) -> (A::V, B::V, C::V, D::V, E::V, F::V, G::V, H::V, I::V) { (self.0.v(), self.1.v(), self.2.v(), self.3.v(), self.4.v(), self.5.v(), self.6.v(), self.7.v(), self.8.v()) }
    open spec fn wf(&self) -> bool { self.0.wf() && self.1.wf() && self.2.wf() && self.3.wf() && self.4.wf() && self.5.wf() && self.6.wf() && self.7.wf() && self.8.wf() }
    open spec fn valid(v: (A::V, B::V, C::V, D::V, E::V, F::V, G::V, H::V, I::V)) -> bool { A::valid(v.0) && B::valid(v.1) && C::valid(v.2) && D::valid(v.3) && E::valid(v.4) && F::valid(v.5) && G::valid(v.6) && H::valid(v.7) && I::valid(v.8) }
    open spec fn ok() -> bool { A::ok() && B::ok() && C::ok() && D::ok() && E::ok() && F::ok() && G::ok() && H::ok() && I::ok() && sum9::<A, B, C, D, E, F, G, H, I>() <= usize::MAX }
    open spec fn fixed() -> bool { A::fixed() && B::fixed() && C::fixed() && D::fixed() && E::fixed() && F::fixed() && G::fixed() && H::fixed() && I::fixed() }
    open spec fn flen() -> nat { if Self::fixed() { sum9::<A, B, C, D, E, F, G, H, I>() } else { 4 } }
    open spec fn enc(v: (A::V, B::V, C::V, D::V, E::V, F::V, G::V, H::V, I::V)) -> Seq<u8> { pack(parts9::<A, B, C, D, E, F, G, H, I>(v)) }
    open spec fn dec(b: Seq<u8>) -> Option<(A::V, B::V, C::V, D::V, E::V, F::V, G::V, H::V, I::V)> {
        let l = lay9::<A, B, C, D, E, F, G, H, I>();
        if split_ok(b, l) && A::dec(piece(b, l, 0)) is Some && B::dec(piece(b, l, 1)) is Some && C::dec(piece(b, l, 2)) is Some && D::dec(piece(b, l, 3)) is Some && E::dec(piece(b, l, 4)) is Some && F::dec(piece(b, l, 5)) is Some && G::dec(piece(b, l, 6)) is Some && H::dec(piece(b, l, 7)) is Some && I::dec(piece(b, l, 8)) is Some {
            Some((A::dec(piece(b, l, 0)).unwrap(), B::dec(piece(b, l, 1)).unwrap(), C::dec(piece(b, l, 2)).unwrap(), D::dec(piece(b, l, 3)).unwrap(), E::dec(piece(b, l, 4)).unwrap(), F::dec(piece(b, l, 5)).unwrap(), G::dec(piece(b, l, 6)).unwrap(), H::dec(piece(b, l, 7)).unwrap(), I::dec(piece(b, l, 8)).unwrap()))
        } else {
            None
        }
    }
    open spec fn rt() -> bool { A::rt() && B::rt() && C::rt() && D::rt() && E::rt() && F::rt() && G::rt() && H::rt() && I::rt() }
    open spec fn strict() -> bool { A::strict() && B::strict() && C::strict() && D::strict() && E::strict() && F::strict() && G::strict() && H::strict() && I::strict() }
    proof fn law_wf(&self) { self.0.law_wf(); self.1.law_wf(); self.2.law_wf(); self.3.law_wf(); self.4.law_wf(); self.5.law_wf(); self.6.law_wf(); self.7.law_wf(); self.8.law_wf(); }
    proof fn law_len(v: (A::V, B::V, C::V, D::V, E::V, F::V, G::V, H::V, I::V)) {
        let l = lay9::<A, B, C, D, E, F, G, H, I>();
        let ps = parts9::<A, B, C, D, E, F, G, H, I>(v);
        lemma_sum9::<A, B, C, D, E, F, G, H, I>(v);
        if Self::fixed() { lemma_tl_fixed(ps); lemma_hd_len(ps, fl(ps) as int); }
    }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) {
        let l = lay9::<A, B, C, D, E, F, G, H, I>();
        A::law_dec(piece(b, l, 0)); B::law_dec(piece(b, l, 1)); C::law_dec(piece(b, l, 2)); D::law_dec(piece(b, l, 3)); E::law_dec(piece(b, l, 4)); F::law_dec(piece(b, l, 5)); G::law_dec(piece(b, l, 6)); H::law_dec(piece(b, l, 7)); I::law_dec(piece(b, l, 8));
        A::law_flen(); B::law_flen(); C::law_flen(); D::law_flen(); E::law_flen(); F::law_flen(); G::law_flen(); H::law_flen(); I::law_flen();
        if Self::fixed() { lemma_next_fixed(b, l, 0); }
    }
    proof fn law_rt(v: (A::V, B::V, C::V, D::V, E::V, F::V, G::V, H::V, I::V)) {
        let l = lay9::<A, B, C, D, E, F, G, H, I>();
        let ps = parts9::<A, B, C, D, E, F, G, H, I>(v);
        lemma_sum9::<A, B, C, D, E, F, G, H, I>(v);
        lemma_split_of_pack(ps, l);
        lemma_part_len(ps, 0); A::law_rt(v.0); assert(piece(pack(ps), l, 0) == ps[0].1); lemma_part_len(ps, 1); B::law_rt(v.1); assert(piece(pack(ps), l, 1) == ps[1].1); lemma_part_len(ps, 2); C::law_rt(v.2); assert(piece(pack(ps), l, 2) == ps[2].1); lemma_part_len(ps, 3); D::law_rt(v.3); assert(piece(pack(ps), l, 3) == ps[3].1); lemma_part_len(ps, 4); E::law_rt(v.4); assert(piece(pack(ps), l, 4) == ps[4].1); lemma_part_len(ps, 5); F::law_rt(v.5); assert(piece(pack(ps), l, 5) == ps[5].1); lemma_part_len(ps, 6); G::law_rt(v.6); assert(piece(pack(ps), l, 6) == ps[6].1); lemma_part_len(ps, 7); H::law_rt(v.7); assert(piece(pack(ps), l, 7) == ps[7].1); lemma_part_len(ps, 8); I::law_rt(v.8); assert(piece(pack(ps), l, 8) == ps[8].1);
    }
    proof fn law_strict(b: Seq<u8>) {
        let l = lay9::<A, B, C, D, E, F, G, H, I>();
        A::law_strict(piece(b, l, 0)); A::law_flen(); B::law_strict(piece(b, l, 1)); B::law_flen(); C::law_strict(piece(b, l, 2)); C::law_flen(); D::law_strict(piece(b, l, 3)); D::law_flen(); E::law_strict(piece(b, l, 4)); E::law_flen(); F::law_strict(piece(b, l, 5)); F::law_flen(); G::law_strict(piece(b, l, 6)); G::law_flen(); H::law_strict(piece(b, l, 7)); H::law_flen(); I::law_strict(piece(b, l, 8)); I::law_flen();
        assert(parts9::<A, B, C, D, E, F, G, H, I>(Self::dec(b).unwrap()) =~= pieces_of(b, l));
        lemma_pack_of_split(b, l);
    }
}

#[verifier::rlimit(80)]
pub proof fn lemma_sum9<A: Ssz, B: Ssz, C: Ssz, D: Ssz, E: Ssz, F: Ssz, G: Ssz, H: Ssz, I: Ssz>(v: (A::V, B::V, C::V, D::V, E::V, F::V, G::V, H::V, I::V))
    requires A::ok(), A::valid(v.0), B::ok(), B::valid(v.1), C::ok(), C::valid(v.2), D::ok(), D::valid(v.3), E::ok(), E::valid(v.4), F::ok(), F::valid(v.5), G::ok(), G::valid(v.6), H::ok(), H::valid(v.7), I::ok(), I::valid(v.8)
    ensures
        fits(parts9::<A, B, C, D, E, F, G, H, I>(v), lay9::<A, B, C, D, E, F, G, H, I>()),
        fl(parts9::<A, B, C, D, E, F, G, H, I>(v)) == sum9::<A, B, C, D, E, F, G, H, I>(),
        A::enc(v.0).len() <= plen(part::<A>(v.0)), B::enc(v.1).len() <= plen(part::<B>(v.1)), C::enc(v.2).len() <= plen(part::<C>(v.2)), D::enc(v.3).len() <= plen(part::<D>(v.3)), E::enc(v.4).len() <= plen(part::<E>(v.4)), F::enc(v.5).len() <= plen(part::<F>(v.5)), G::enc(v.6).len() <= plen(part::<G>(v.6)), H::enc(v.7).len() <= plen(part::<H>(v.7)), I::enc(v.8).len() <= plen(part::<I>(v.8)),
        A::fixed() ==> plen(part::<A>(v.0)) == A::flen(), B::fixed() ==> plen(part::<B>(v.1)) == B::flen(), C::fixed() ==> plen(part::<C>(v.2)) == C::flen(), D::fixed() ==> plen(part::<D>(v.3)) == D::flen(), E::fixed() ==> plen(part::<E>(v.4)) == E::flen(), F::fixed() ==> plen(part::<F>(v.5)) == F::flen(), G::fixed() ==> plen(part::<G>(v.6)) == G::flen(), H::fixed() ==> plen(part::<H>(v.7)) == H::flen(), I::fixed() ==> plen(part::<I>(v.8)) == I::flen(),
        !A::fixed() ==> plen(part::<A>(v.0)) == 4 + A::enc(v.0).len(), !B::fixed() ==> plen(part::<B>(v.1)) == 4 + B::enc(v.1).len(), !C::fixed() ==> plen(part::<C>(v.2)) == 4 + C::enc(v.2).len(), !D::fixed() ==> plen(part::<D>(v.3)) == 4 + D::enc(v.3).len(), !E::fixed() ==> plen(part::<E>(v.4)) == 4 + E::enc(v.4).len(), !F::fixed() ==> plen(part::<F>(v.5)) == 4 + F::enc(v.5).len(), !G::fixed() ==> plen(part::<G>(v.6)) == 4 + G::enc(v.6).len(), !H::fixed() ==> plen(part::<H>(v.7)) == 4 + H::enc(v.7).len(), !I::fixed() ==> plen(part::<I>(v.8)) == 4 + I::enc(v.8).len(),
        fl(parts9::<A, B, C, D, E, F, G, H, I>(v)) <= pack(parts9::<A, B, C, D, E, F, G, H, I>(v)).len(),
        pack(parts9::<A, B, C, D, E, F, G, H, I>(v)).len() == plen(part::<A>(v.0)) + plen(part::<B>(v.1)) + plen(part::<C>(v.2)) + plen(part::<D>(v.3)) + plen(part::<E>(v.4)) + plen(part::<F>(v.5)) + plen(part::<G>(v.6)) + plen(part::<H>(v.7)) + plen(part::<I>(v.8)),
{
    broadcast use lemma_total_push, lemma_pfl_push;
    let ps = parts9::<A, B, C, D, E, F, G, H, I>(v);
    lemma_part::<A>(v.0); A::law_flen(); lemma_part::<B>(v.1); B::law_flen(); lemma_part::<C>(v.2); C::law_flen(); lemma_part::<D>(v.3); D::law_flen(); lemma_part::<E>(v.4); E::law_flen(); lemma_part::<F>(v.5); F::law_flen(); lemma_part::<G>(v.6); G::law_flen(); lemma_part::<H>(v.7); H::law_flen(); lemma_part::<I>(v.8); I::law_flen();
    lemma_total(ps);
    lemma_total_empty();
    let p = Seq::<Part>::empty();
    let l = Seq::<Slot>::empty();
    assert(fits(p, l));
    lemma_fits_push(p, l, part::<A>(v.0), slot::<A>()); let p = p.push(part::<A>(v.0)); let l = l.push(slot::<A>());
    lemma_fits_push(p, l, part::<B>(v.1), slot::<B>()); let p = p.push(part::<B>(v.1)); let l = l.push(slot::<B>());
    lemma_fits_push(p, l, part::<C>(v.2), slot::<C>()); let p = p.push(part::<C>(v.2)); let l = l.push(slot::<C>());
    lemma_fits_push(p, l, part::<D>(v.3), slot::<D>()); let p = p.push(part::<D>(v.3)); let l = l.push(slot::<D>());
    lemma_fits_push(p, l, part::<E>(v.4), slot::<E>()); let p = p.push(part::<E>(v.4)); let l = l.push(slot::<E>());
    lemma_fits_push(p, l, part::<F>(v.5), slot::<F>()); let p = p.push(part::<F>(v.5)); let l = l.push(slot::<F>());
    lemma_fits_push(p, l, part::<G>(v.6), slot::<G>()); let p = p.push(part::<G>(v.6)); let l = l.push(slot::<G>());
    lemma_fits_push(p, l, part::<H>(v.7), slot::<H>()); let p = p.push(part::<H>(v.7)); let l = l.push(slot::<H>());
    lemma_fits_push(p, l, part::<I>(v.8), slot::<I>()); let p = p.push(part::<I>(v.8)); let l = l.push(slot::<I>());
}

@@ impl Encode for (A,B,C,D,E,F,G,H,I)
@@ fn Encode for (A,B,C,D,E,F,G,H,I)::ssz_fixed_len
@props C07
@@ fn Encode for (A,B,C,D,E,F,G,H,I)::ssz_bytes_len
@props C07
@attr #[verifier::rlimit(80)]
@start
    proof { self.law_wf(); lemma_sum9::<A, B, C, D, E, F, G, H, I>(self.v()); }
@at /^len .=/ 1
    assert(len == plen(part::<A>(self.v().0)));
@at /^len .=/ 2
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)));
@at /^len .=/ 3
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)));
@at /^len .=/ 4
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)) + plen(part::<D>(self.v().3)));
@at /^len .=/ 5
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)) + plen(part::<D>(self.v().3)) + plen(part::<E>(self.v().4)));
@at /^len .=/ 6
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)) + plen(part::<D>(self.v().3)) + plen(part::<E>(self.v().4)) + plen(part::<F>(self.v().5)));
@at /^len .=/ 7
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)) + plen(part::<D>(self.v().3)) + plen(part::<E>(self.v().4)) + plen(part::<F>(self.v().5)) + plen(part::<G>(self.v().6)));
@at /^len .=/ 8
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)) + plen(part::<D>(self.v().3)) + plen(part::<E>(self.v().4)) + plen(part::<F>(self.v().5)) + plen(part::<G>(self.v().6)) + plen(part::<H>(self.v().7)));
@@ fn Encode for (A,B,C,D,E,F,G,H,I)::ssz_append
@props C01 C03 C07 C10
@attr #[verifier::rlimit(80)]
@start
    let ghost b0 = buf@;
    proof {
        let ps = parts9::<A, B, C, D, E, F, G, H, I>(self.v());
        self.law_wf();
        lemma_sum9::<A, B, C, D, E, F, G, H, I>(self.v());
        lemma_part_len(ps, 0); lemma_takes9::<A, B, C, D, E, F, G, H, I>(self.v()); lemma_part_len(ps, 1); lemma_part_len(ps, 2); lemma_part_len(ps, 3); lemma_part_len(ps, 4); lemma_part_len(ps, 5); lemma_part_len(ps, 6); lemma_part_len(ps, 7); lemma_part_len(ps, 8);
    }
@@ fn Encode for (A,B,C,D,E,F,G,H,I)::as_ssz_bytes
@result v_r
@finish
    proof { assert(v_r@ =~= Self::enc(self.v())); }

@@ impl Decode for (A,B,C,D,E,F,G,H,I)
@@ fn Decode for (A,B,C,D,E,F,G,H,I)::ssz_fixed_len
@props C07
@@ fn Decode for (A,B,C,D,E,F,G,H,I)::from_ssz_bytes
@props C01 C02 C04 C05 C09
@start
    proof {
        let l = lay9::<A, B, C, D, E, F, G, H, I>();
        let b = bytes@;
        if split_ok(b, l) {
            assert forall|i: int| 0 <= i < l.len() implies (#[trigger] piece(b, l, i)).len() <= b.len() by { lemma_split_bounds(b, l, i); }
        }
    }

@@ raw
pub proof fn lemma_takes9<A: Ssz, B: Ssz, C: Ssz, D: Ssz, E: Ssz, F: Ssz, G: Ssz, H: Ssz, I: Ssz>(v: (A::V, B::V, C::V, D::V, E::V, F::V, G::V, H::V, I::V))
    ensures parts9::<A, B, C, D, E, F, G, H, I>(v).take(0) == Seq::<Part>::empty(), parts9::<A, B, C, D, E, F, G, H, I>(v).take(1) == Seq::<Part>::empty().push(part::<A>(v.0)), parts9::<A, B, C, D, E, F, G, H, I>(v).take(2) == Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)), parts9::<A, B, C, D, E, F, G, H, I>(v).take(3) == Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)), parts9::<A, B, C, D, E, F, G, H, I>(v).take(4) == Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)), parts9::<A, B, C, D, E, F, G, H, I>(v).take(5) == Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)), parts9::<A, B, C, D, E, F, G, H, I>(v).take(6) == Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)).push(part::<F>(v.5)), parts9::<A, B, C, D, E, F, G, H, I>(v).take(7) == Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)).push(part::<F>(v.5)).push(part::<G>(v.6)), parts9::<A, B, C, D, E, F, G, H, I>(v).take(8) == Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)).push(part::<F>(v.5)).push(part::<G>(v.6)).push(part::<H>(v.7))
{
    assert(parts9::<A, B, C, D, E, F, G, H, I>(v).take(0) =~= Seq::<Part>::empty()); assert(parts9::<A, B, C, D, E, F, G, H, I>(v).take(1) =~= Seq::<Part>::empty().push(part::<A>(v.0))); assert(parts9::<A, B, C, D, E, F, G, H, I>(v).take(2) =~= Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1))); assert(parts9::<A, B, C, D, E, F, G, H, I>(v).take(3) =~= Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2))); assert(parts9::<A, B, C, D, E, F, G, H, I>(v).take(4) =~= Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3))); assert(parts9::<A, B, C, D, E, F, G, H, I>(v).take(5) =~= Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4))); assert(parts9::<A, B, C, D, E, F, G, H, I>(v).take(6) =~= Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)).push(part::<F>(v.5))); assert(parts9::<A, B, C, D, E, F, G, H, I>(v).take(7) =~= Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)).push(part::<F>(v.5)).push(part::<G>(v.6))); assert(parts9::<A, B, C, D, E, F, G, H, I>(v).take(8) =~= Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)).push(part::<F>(v.5)).push(part::<G>(v.6)).push(part::<H>(v.7)));
}

@@ module tuple10
@@ raw
pub open spec fn lay10<A: Ssz, B: Ssz, C: Ssz, D: Ssz, E: Ssz, F: Ssz, G: Ssz, H: Ssz, I: Ssz, J: Ssz>() -> Seq<Slot> { Seq::<Slot>::empty().push(slot::<A>()).push(slot::<B>()).push(slot::<C>()).push(slot::<D>()).push(slot::<E>()).push(slot::<F>()).push(slot::<G>()).push(slot::<H>()).push(slot::<I>()).push(slot::<J>()) }

pub open spec fn parts10<A: Ssz, B: Ssz, C: Ssz, D: Ssz, E: Ssz, F: Ssz, G: Ssz, H: Ssz, I: Ssz, J: Ssz>(v: (A::V, B::V, C::V, D::V, E::V, F::V, G::V, H::V, I::V, J::V)) -> Seq<Part> { Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)).push(part::<F>(v.5)).push(part::<G>(v.6)).push(part::<H>(v.7)).push(part::<I>(v.8)).push(part::<J>(v.9)) }

pub open spec fn sum10<A: Ssz, B: Ssz, C: Ssz, D: Ssz, E: Ssz, F: Ssz, G: Ssz, H: Ssz, I: Ssz, J: Ssz>() -> nat { A::flen() + B::flen() + C::flen() + D::flen() + E::flen() + F::flen() + G::flen() + H::flen() + I::flen() + J::flen() }

impl<A: Ssz, B: Ssz, C: Ssz, D: Ssz, E: Ssz, F: Ssz, G: Ssz, H: Ssz, I: Ssz, J: Ssz> Ssz for (A, B, C, D, E, F, G, H, I, J) {
    type V = (A::V, B::V, C::V, D::V, E::V, F::V, G::V, H::V, I::V, J::V);
    open spec fn v(&self) -> (A::V, B::V, C::V, D::V, E::V, F::V, G::V, H::V, I::V, J::V) { (self.0.v(), self.1.v(), self.2.v(), self.3.v(), self.4.v(), self.5.v(), self.6.v(), self.7.v(), self.8.v(), self.9.v()) }
    open spec fn wf(&self) -> bool { self.0.wf() && self.1.wf() && self.2.wf() && self.3.wf() && self.4.wf() && self.5.wf() && self.6.wf() && self.7.wf() && self.8.wf() && self.9.wf() }
    open spec fn valid(v: (A::V, B::V, C::V, D::V, E::V, F::V, G::V, H::V, I::V, J::V)) -> bool { A::valid(v.0) && B::valid(v.1) && C::valid(v.2) && D::valid(v.3) && E::valid(v.4) && F::valid(v.5) && G::valid(v.6) && H::valid(v.7) && I::valid(v.8) && J::valid(v.9) }
    open spec fn ok() -> bool { A::ok() && B::ok() && C::ok() && D::ok() && E::ok() && F::ok() && G::ok() && H::ok() && I::ok() && J::ok() && sum10::<A, B, C, D, E, F, G, H, I, J>() <= usize::MAX }
    open spec fn fixed() -> bool { A::fixed() && B::fixed() && C::fixed() && D::fixed() && E::fixed() && F::fixed() && G::fixed() && H::fixed() && I::fixed() && J::fixed() }
    open spec fn flen() -> nat { if Self::fixed() { sum10::<A, B, C, D, E, F, G, H, I, J>() } else { 4 } }
    open spec fn enc(v: (A::V, B::V, C::V, D::V, E::V, F::V, G::V, H::V, I::V, J::V)) -> Seq<u8> { pack(parts10::<A, B, C, D, E, F, G, H, I, J>(v)) }
    open spec fn dec(b: Seq<u8>) -> Option<(A::V, B::V, C::V, D::V, E::V, F::V, G::V, H::V, I::V, J::V)> {
        let l = lay10::<A, B, C, D, E, F, G, H, I, J>();
        if split_ok(b, l) && A::dec(piece(b, l, 0)) is Some && B::dec(piece(b, l, 1)) is Some && C::dec(piece(b, l, 2)) is Some && D::dec(piece(b, l, 3)) is Some && E::dec(piece(b, l, 4)) is Some && F::dec(piece(b, l, 5)) is Some && G::dec(piece(b, l, 6)) is Some && H::dec(piece(b, l, 7)) is Some && I::dec(piece(b, l, 8)) is Some && J::dec(piece(b, l, 9)) is Some {
            Some((A::dec(piece(b, l, 0)).unwrap(), B::dec(piece(b, l, 1)).unwrap(), C::dec(piece(b, l, 2)).unwrap(), D::dec(piece(b, l, 3)).unwrap(), E::dec(piece(b, l, 4)).unwrap(), F::dec(piece(b, l, 5)).unwrap(), G::dec(piece(b, l, 6)).unwrap(), H::dec(piece(b, l, 7)).unwrap(), I::dec(piece(b, l, 8)).unwrap(), J::dec(piece(b, l, 9)).unwrap()))
        } else {
            None
        }
    }
    open spec fn rt() -> bool { A::rt() && B::rt() && C::rt() && D::rt() && E::rt() && F::rt() && G::rt() && H::rt() && I::rt() && J::rt() }
    open spec fn strict() -> bool { A::strict() && B::strict() && C::strict() && D::strict() && E::strict() && F::strict() && G::strict() && H::strict() && I::strict() && J::strict() }
    proof fn law_wf(&self) { self.0.law_wf(); self.1.law_wf(); self.2.law_wf(); self.3.law_wf(); self.4.law_wf(); self.5.law_wf(); self.6.law_wf(); self.7.law_wf(); self.8.law_wf(); self.9.law_wf(); }
    proof fn law_len(v: (A::V, B::V, C::V, D::V, E::V, F::V, G::V, H::V, I::V, J::V)) {
        let l = lay10::<A, B, C, D, E, F, G, H, I, J>();
        let ps = parts10::<A, B, C, D, E, F, G, H, I, J>(v);
        lemma_sum10::<A, B, C, D, E, F, G, H, I, J>(v);
        if Self::fixed() { lemma_tl_fixed(ps); lemma_hd_len(ps, fl(ps) as int); }
    }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) {
        let l = lay10::<A, B, C, D, E, F, G, H, I, J>();
        A::law_dec(piece(b, l, 0)); B::law_dec(piece(b, l, 1)); C::law_dec(piece(b, l, 2)); D::law_dec(piece(b, l, 3)); E::law_dec(piece(b, l, 4)); F::law_dec(piece(b, l, 5)); G::law_dec(piece(b, l, 6)); H::law_dec(piece(b, l, 7)); I::law_dec(piece(b, l, 8)); J::law_dec(piece(b, l, 9));
        A::law_flen(); B::law_flen(); C::law_flen(); D::law_flen(); E::law_flen(); F::law_flen(); G::law_flen(); H::law_flen(); I::law_flen(); J::law_flen();
        if Self::fixed() { lemma_next_fixed(b, l, 0); }
    }
    proof fn law_rt(v: (A::V, B::V, C::V, D::V, E::V, F::V, G::V, H::V, I::V, J::V)) {
        let l = lay10::<A, B, C, D, E, F, G, H, I, J>();
        let ps = parts10::<A, B, C, D, E, F, G, H, I, J>(v);
        lemma_sum10::<A, B, C, D, E, F, G, H, I, J>(v);
        lemma_split_of_pack(ps, l);
        lemma_part_len(ps, 0); A::law_rt(v.0); assert(piece(pack(ps), l, 0) == ps[0].1); lemma_part_len(ps, 1); B::law_rt(v.1); assert(piece(pack(ps), l, 1) == ps[1].1); lemma_part_len(ps, 2); C::law_rt(v.2); assert(piece(pack(ps), l, 2) == ps[2].1); lemma_part_len(ps, 3); D::law_rt(v.3); assert(piece(pack(ps), l, 3) == ps[3].1); lemma_part_len(ps, 4); E::law_rt(v.4); assert(piece(pack(ps), l, 4) == ps[4].1); lemma_part_len(ps, 5); F::law_rt(v.5); assert(piece(pack(ps), l, 5) == ps[5].1); lemma_part_len(ps, 6); G::law_rt(v.6); assert(piece(pack(ps), l, 6) == ps[6].1); lemma_part_len(ps, 7); H::law_rt(v.7); assert(piece(pack(ps), l, 7) == ps[7].1); lemma_part_len(ps, 8); I::law_rt(v.8); assert(piece(pack(ps), l, 8) == ps[8].1); lemma_part_len(ps, 9); J::law_rt(v.9); assert(piece(pack(ps), l, 9) == ps[9].1);
    }
    proof fn law_strict(b: Seq<u8>) {
        let l = lay10::<A, B, C, D, E, F, G, H, I, J>();
        A::law_strict(piece(b, l, 0)); A::law_flen(); B::law_strict(piece(b, l, 1)); B::law_flen(); C::law_strict(piece(b, l, 2)); C::law_flen(); D::law_strict(piece(b, l, 3)); D::law_flen(); E::law_strict(piece(b, l, 4)); E::law_flen(); F::law_strict(piece(b, l, 5)); F::law_flen(); G::law_strict(piece(b, l, 6)); G::law_flen(); H::law_strict(piece(b, l, 7)); H::law_flen(); I::law_strict(piece(b, l, 8)); I::law_flen(); J::law_strict(piece(b, l, 9)); J::law_flen();
        assert(parts10::<A, B, C, D, E, F, G, H, I, J>(Self::dec(b).unwrap()) =~= pieces_of(b, l));
        lemma_pack_of_split(b, l);
    }
}

#[verifier::rlimit(80)]
pub proof fn lemma_sum10<A: Ssz, B: Ssz, C: Ssz, D: Ssz, E: Ssz, F: Ssz, G: Ssz, H: Ssz, I: Ssz, J: Ssz>(v: (A::V, B::V, C::V, D::V, E::V, F::V, G::V, H::V, I::V, J::V))
    requires A::ok(), A::valid(v.0), B::ok(), B::valid(v.1), C::ok(), C::valid(v.2), D::ok(), D::valid(v.3), E::ok(), E::valid(v.4), F::ok(), F::valid(v.5), G::ok(), G::valid(v.6), H::ok(), H::valid(v.7), I::ok(), I::valid(v.8), J::ok(), J::valid(v.9)
    ensures
        fits(parts10::<A, B, C, D, E, F, G, H, I, J>(v), lay10::<A, B, C, D, E, F, G, H, I, J>()),
        fl(parts10::<A, B, C, D, E, F, G, H, I, J>(v)) == sum10::<A, B, C, D, E, F, G, H, I, J>(),
        A::enc(v.0).len() <= plen(part::<A>(v.0)), B::enc(v.1).len() <= plen(part::<B>(v.1)), C::enc(v.2).len() <= plen(part::<C>(v.2)), D::enc(v.3).len() <= plen(part::<D>(v.3)), E::enc(v.4).len() <= plen(part::<E>(v.4)), F::enc(v.5).len() <= plen(part::<F>(v.5)), G::enc(v.6).len() <= plen(part::<G>(v.6)), H::enc(v.7).len() <= plen(part::<H>(v.7)), I::enc(v.8).len() <= plen(part::<I>(v.8)), J::enc(v.9).len() <= plen(part::<J>(v.9)),
        A::fixed() ==> plen(part::<A>(v.0)) == A::flen(), B::fixed() ==> plen(part::<B>(v.1)) == B::flen(), C::fixed() ==> plen(part::<C>(v.2)) == C::flen(), D::fixed() ==> plen(part::<D>(v.3)) == D::flen(), E::fixed() ==> plen(part::<E>(v.4)) == E::flen(), F::fixed() ==> plen(part::<F>(v.5)) == F::flen(), G::fixed() ==> plen(part::<G>(v.6)) == G::flen(), H::fixed() ==> plen(part::<H>(v.7)) == H::flen(), I::fixed() ==> plen(part::<I>(v.8)) == I::flen(), J::fixed() ==> plen(part::<J>(v.9)) == J::flen(),
        !A::fixed() ==> plen(part::<A>(v.0)) == 4 + A::enc(v.0).len(), !B::fixed() ==> plen(part::<B>(v.1)) == 4 + B::enc(v.1).len(), !C::fixed() ==> plen(part::<C>(v.2)) == 4 + C::enc(v.2).len(), !D::fixed() ==> plen(part::<D>(v.3)) == 4 + D::enc(v.3).len(), !E::fixed() ==> plen(part::<E>(v.4)) == 4 + E::enc(v.4).len(), !F::fixed() ==> plen(part::<F>(v.5)) == 4 + F::enc(v.5).len(), !G::fixed() ==> plen(part::<G>(v.6)) == 4 + G::enc(v.6).len(), !H::fixed() ==> plen(part::<H>(v.7)) == 4 + H::enc(v.7).len(), !I::fixed() ==> plen(part::<I>(v.8)) == 4 + I::enc(v.8).len(), !J::fixed() ==> plen(part::<J>(v.9)) == 4 + J::enc(v.9).len(),
        fl(parts10::<A, B, C, D, E, F, G, H, I, J>(v)) <= pack(parts10::<A, B, C, D, E, F, G, H, I, J>(v)).len(),
        pack(parts10::<A, B, C, D, E, F, G, H, I, J>(v)).len() == plen(part::<A>(v.0)) + plen(part::<B>(v.1)) + plen(part::<C>(v.2)) + plen(part::<D>(v.3)) + plen(part::<E>(v.4)) + plen(part::<F>(v.5)) + plen(part::<G>(v.6)) + plen(part::<H>(v.7)) + plen(part::<I>(v.8)) + plen(part::<J>(v.9)),
{
    broadcast use lemma_total_push, lemma_pfl_push;
    let ps = parts10::<A, B, C, D, E, F, G, H, I, J>(v);
    lemma_part::<A>(v.0); A::law_flen(); lemma_part::<B>(v.1); B::law_flen(); lemma_part::<C>(v.2); C::law_flen(); lemma_part::<D>(v.3); D::law_flen(); lemma_part::<E>(v.4); E::law_flen(); lemma_part::<F>(v.5); F::law_flen(); lemma_part::<G>(v.6); G::law_flen(); lemma_part::<H>(v.7); H::law_flen(); lemma_part::<I>(v.8); I::law_flen(); lemma_part::<J>(v.9); J::law_flen();
    lemma_total(ps);
    lemma_total_empty();
    let p = Seq::<Part>::empty();
    let l = Seq::<Slot>::empty();
    assert(fits(p, l));
    lemma_fits_push(p, l, part::<A>(v.0), slot::<A>()); let p = p.push(part::<A>(v.0)); let l = l.push(slot::<A>());
    lemma_fits_push(p, l, part::<B>(v.1), slot::<B>()); let p = p.push(part::<B>(v.1)); let l = l.push(slot::<B>());
    lemma_fits_push(p, l, part::<C>(v.2), slot::<C>()); let p = p.push(part::<C>(v.2)); let l = l.push(slot::<C>());
    lemma_fits_push(p, l, part::<D>(v.3), slot::<D>()); let p = p.push(part::<D>(v.3)); let l = l.push(slot::<D>());
    lemma_fits_push(p, l, part::<E>(v.4), slot::<E>()); let p = p.push(part::<E>(v.4)); let l = l.push(slot::<E>());
    lemma_fits_push(p, l, part::<F>(v.5), slot::<F>()); let p = p.push(part::<F>(v.5)); let l = l.push(slot::<F>());
    lemma_fits_push(p, l, part::<G>(v.6), slot::<G>()); let p = p.push(part::<G>(v.6)); let l = l.push(slot::<G>());
    lemma_fits_push(p, l, part::<H>(v.7), slot::<H>()); let p = p.push(part::<H>(v.7)); let l = l.push(slot::<H>());
    lemma_fits_push(p, l, part::<I>(v.8), slot::<I>()); let p = p.push(part::<I>(v.8)); let l = l.push(slot::<I>());
    lemma_fits_push(p, l, part::<J>(v.9), slot::<J>()); let p = p.push(part::<J>(v.9)); let l = l.push(slot::<J>());
}

@@ impl Encode for (A,B,C,D,E,F,G,H,I,J)
@@ fn Encode for (A,B,C,D,E,F,G,H,I,J)::ssz_fixed_len
@props C07
@@ fn Encode for (A,B,C,D,E,F,G,H,I,J)::ssz_bytes_len
@props C07
@attr #[verifier::rlimit(80)]
@start
    proof { self.law_wf(); lemma_sum10::<A, B, C, D, E, F, G, H, I, J>(self.v()); }
@at /^len .=/ 1
    assert(len == plen(part::<A>(self.v().0)));
@at /^len .=/ 2
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)));
@at /^len .=/ 3
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)));
@at /^len .=/ 4
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)) + plen(part::<D>(self.v().3)));
@at /^len .=/ 5
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)) + plen(part::<D>(self.v().3)) + plen(part::<E>(self.v().4)));
@at /^len .=/ 6
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)) + plen(part::<D>(self.v().3)) + plen(part::<E>(self.v().4)) + plen(part::<F>(self.v().5)));
@at /^len .=/ 7
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)) + plen(part::<D>(self.v().3)) + plen(part::<E>(self.v().4)) + plen(part::<F>(self.v().5)) + plen(part::<G>(self.v().6)));
@at /^len .=/ 8
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)) + plen(part::<D>(self.v().3)) + plen(part::<E>(self.v().4)) + plen(part::<F>(self.v().5)) + plen(part::<G>(self.v().6)) + plen(part::<H>(self.v().7)));
@at /^len .=/ 9
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)) + plen(part::<D>(self.v().3)) + plen(part::<E>(self.v().4)) + plen(part::<F>(self.v().5)) + plen(part::<G>(self.v().6)) + plen(part::<H>(self.v().7)) + plen(part::<I>(self.v().8)));
@@ fn Encode for (A,B,C,D,E,F,G,H,I,J)::ssz_append
@props C01 C03 C07 C10
@attr #[verifier::rlimit(80)]
@start
    let ghost b0 = buf@;
    proof {
        let ps = parts10::<A, B, C, D, E, F, G, H, I, J>(self.v());
        self.law_wf();
        lemma_sum10::<A, B, C, D, E, F, G, H, I, J>(self.v());
        lemma_part_len(ps, 0); lemma_takes10::<A, B, C, D, E, F, G, H, I, J>(self.v()); lemma_part_len(ps, 1); lemma_part_len(ps, 2); lemma_part_len(ps, 3); lemma_part_len(ps, 4); lemma_part_len(ps, 5); lemma_part_len(ps, 6); lemma_part_len(ps, 7); lemma_part_len(ps, 8); lemma_part_len(ps, 9);
    }
@@ fn Encode for (A,B,C,D,E,F,G,H,I,J)::as_ssz_bytes
@result v_r
@finish
    proof { assert(v_r@ =~= Self::enc(self.v())); }

@@ impl Decode for (A,B,C,D,E,F,G,H,I,J)
@@ fn Decode for (A,B,C,D,E,F,G,H,I,J)::ssz_fixed_len
@props C07
@@ fn Decode for (A,B,C,D,E,F,G,H,I,J)::from_ssz_bytes
@props C01 C02 C04 C05 C09
@start
    proof {
        let l = lay10::<A, B, C, D, E, F, G, H, I, J>();
        let b = bytes@;
        if split_ok(b, l) {
            assert forall|i: int| 0 <= i < l.len() implies (#[trigger] piece(b, l, i)).len() <= b.len() by { lemma_split_bounds(b, l, i); }
        }
    }

@@ raw
pub proof fn lemma_takes10<A: Ssz, B: Ssz, C: Ssz, D: Ssz, E: Ssz, F: Ssz, G: Ssz, H: Ssz, I: Ssz, J: Ssz>(v: (A::V, B::V, C::V, D::V, E::V, F::V, G::V, H::V, I::V, J::V))
    ensures parts10::<A, B, C, D, E, F, G, H, I, J>(v).take(0) == Seq::<Part>::empty(), parts10::<A, B, C, D, E, F, G, H, I, J>(v).take(1) == Seq::<Part>::empty().push(part::<A>(v.0)), parts10::<A, B, C, D, E, F, G, H, I, J>(v).take(2) == Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)), parts10::<A, B, C, D, E, F, G, H, I, J>(v).take(3) == Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)), parts10::<A, B, C, D, E, F, G, H, I, J>(v).take(4) == Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)), parts10::<A, B, C, D, E, F, G, H, I, J>(v).take(5) == Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)), parts10::<A, B, C, D, E, F, G, H, I, J>(v).take(6) == Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)).push(part::<F>(v.5)), parts10::<A, B, C, D, E, F, G, H, I, J>(v).take(7) == Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)).push(part::<F>(v.5)).push(part::<G>(v.6)), parts10::<A, B, C, D, E, F, G, H, I, J>(v).take(8) == Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)).push(part::<F>(v.5)).push(part::<G>(v.6)).push(part::<H>(v.7)), parts10::<A, B, C, D, E, F, G, H, I, J>(v).take(9) == Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)).push(part::<F>(v.5)).push(part::<G>(v.6)).push(part::<H>(v.7)).push(part::<I>(v.8))
{
    assert(parts10::<A, B, C, D, E, F, G, H, I, J>(v).take(0) =~= Seq::<Part>::empty()); assert(parts10::<A, B, C, D, E, F, G, H, I, J>(v).take(1) =~= Seq::<Part>::empty().push(part::<A>(v.0))); assert(parts10::<A, B, C, D, E, F, G, H, I, J>(v).take(2) =~= Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1))); assert(parts10::<A, B, C, D, E, F, G, H, I, J>(v).take(3) =~= Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2))); assert(parts10::<A, B, C, D, E, F, G, H, I, J>(v).take(4) =~= Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3))); assert(parts10::<A, B, C, D, E, F, G, H, I, J>(v).take(5) =~= Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4))); assert(parts10::<A, B, C, D, E, F, G, H, I, J>(v).take(6) =~= Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)).push(part::<F>(v.5))); assert(parts10::<A, B, C, D, E, F, G, H, I, J>(v).take(7) =~= Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)).push(part::<F>(v.5)).push(part::<G>(v.6))); assert(parts10::<A, B, C, D, E, F, G, H, I, J>(v).take(8) =~= Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)).push(part::<F>(v.5)).push(part::<G>(v.6)).push(part::<H>(v.7))); assert(parts10::<A, B, C, D, E, F, G, H, I, J>(v).take(9) =~= Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)).push(part::<F>(v.5)).push(part::<G>(v.6)).push(part::<H>(v.7)).push(part::<I>(v.8)));
}

@@ module tuple11
@@ raw
pub open spec fn lay11<A: Ssz, B: Ssz, C: Ssz, D: Ssz, E: Ssz, F: Ssz, G: Ssz, H: Ssz, I: Ssz, J: Ssz, K: Ssz>() -> Seq<Slot> { Seq::<Slot>::empty().push(slot::<A>()).push(slot::<B>()).push(slot::<C>()).push(slot::<D>()).push(slot::<E>()).push(slot::<F>()).push(slot::<G>()).push(slot::<H>()).push(slot::<I>()).push(slot::<J>()).push(slot::<K>()) }

pub open spec fn parts11<A: Ssz, B: Ssz, C: Ssz, D: Ssz, E: Ssz, F: Ssz, G: Ssz, H: Ssz, I: Ssz, J: Ssz, K: Ssz>(v: (A::V, B::V, C::V, D::V, E::V, F::V, G::V, H::V, I::V, J::V, K::V)) -> Seq<Part> { Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)).push(part::<F>(v.5)).push(part::<G>(v.6)).push(part::<H>(v.7)).push(part::<I>(v.8)).push(part::<J>(v.9)).push(part::<K>(v.10)) }

pub open spec fn sum11<A: Ssz, B: Ssz, C: Ssz, D: Ssz, E: Ssz, F: Ssz, G: Ssz, H: Ssz, I: Ssz, J: Ssz, K: Ssz>() -> nat { A::flen() + B::flen() + C::flen() + D::flen() + E::flen() + F::flen() + G::flen() + H::flen() + I::flen() + J::flen() + K::flen() }

impl<A: Ssz, B: Ssz, C: Ssz, D: Ssz, E: Ssz, F: Ssz, G: Ssz, H: Ssz, I: Ssz, J: Ssz, K: Ssz> Ssz for (A, B, C, D, E, F, G, H, I, J, K) {
    type V = (A::V, B::V, C::V, D::V, E::V, F::V, G::V, H::V, I::V, J::V, K::V);
    open spec fn v(&self) -> (A::V, B::V, C::V, D::V, E::V, F::V, G::V, H::V, I::V, J::V, K::V) { (self.0.v(), self.1.v(), self.2.v(), self.3.v(), self.4.v(), self.5.v(), self.6.v(), self.7.v(), self.8.v(), self.9.v(), self.10.v()) }
    open spec fn wf(&self) -> bool { self.0.wf() && self.1.wf() && self.2.wf() && self.3.wf() && self.4.wf() && self.5.wf() && self.6.wf() && self.7.wf() && self.8.wf() && self.9.wf() && self.10.wf() }
    open spec fn valid(v: (A::V, B::V, C::V, D::V, E::V, F::V, G::V, H::V, I::V, J::V, K::V)) -> bool { A::valid(v.0) && B::valid(v.1) && C::valid(v.2) && D::valid(v.3) && E::valid(v.4) && F::valid(v.5) && G::valid(v.6) && H::valid(v.7) && I::valid(v.8) && J::valid(v.9) && K::valid(v.10) }
    open spec fn ok() -> bool { A::ok() && B::ok() && C::ok() && D::ok() && E::ok() && F::ok() && G::ok() && H::ok() && I::ok() && J::ok() && K::ok() && sum11::<A, B, C, D, E, F, G, H, I, J, K>() <= usize::MAX }
    open spec fn fixed() -> bool { A::fixed() && B::fixed() && C::fixed() && D::fixed() && E::fixed() && F::fixed() && G::fixed() && H::fixed() && I::fixed() && J::fixed() && K::fixed() }
    open spec fn flen() -> nat { if Self::fixed() { sum11::<A, B, C, D, E, F, G, H, I, J, K>() } else { 4 } }
    open spec fn enc(v: (A::V, B::V, C::V, D::V, E::V, F::V, G::V, H::V, I::V, J::V, K::V)) -> Seq<u8> { pack(parts11::<A, B, C, D, E, F, G, H, I, J, K>(v)) }
    open spec fn dec(b: Seq<u8>) -> Option<(A::V, B::V, C::V, D::V, E::V, F::V, G::V, H::V, I::V, J::V, K::V)> {
        let l = lay11::<A, B, C, D, E, F, G, H, I, J, K>();
        if split_ok(b, l) && A::dec(piece(b, l, 0)) is Some && B::dec(piece(b, l, 1)) is Some && C::dec(piece(b, l, 2)) is Some && D::dec(piece(b, l, 3)) is Some && E::dec(piece(b, l, 4)) is Some && F::dec(piece(b, l, 5)) is Some && G::dec(piece(b, l, 6)) is Some && H::dec(piece(b, l, 7)) is Some && I::dec(piece(b, l, 8)) is Some && J::dec(piece(b, l, 9)) is Some && K::dec(piece(b, l, 10)) is Some {
            Some((A::dec(piece(b, l, 0)).unwrap(), B::dec(piece(b, l, 1)).unwrap(), C::dec(piece(b, l, 2)).unwrap(), D::dec(piece(b, l, 3)).unwrap(), E::dec(piece(b, l, 4)).unwrap(), F::dec(piece(b, l, 5)).unwrap(), G::dec(piece(b, l, 6)).unwrap(), H::dec(piece(b, l, 7)).unwrap(), I::dec(piece(b, l, 8)).unwrap(), J::dec(piece(b, l, 9)).unwrap(), K::dec(piece(b, l, 10)).unwrap()))
        } else {
            None
        }
    }
    open spec fn rt() -> bool { A::rt() && B::rt() && C::rt() && D::rt() && E::rt() && F::rt() && G::rt() && H::rt() && I::rt() && J::rt() && K::rt() }
    open spec fn strict() -> bool { A::strict() && B::strict() && C::strict() && D::strict() && E::strict() && F::strict() && G::strict() && H::strict() && I::strict() && J::strict() && K::strict() }
    proof fn law_wf(&self) { self.0.law_wf(); self.1.law_wf(); self.2.law_wf(); self.3.law_wf(); self.4.law_wf(); self.5.law_wf(); self.6.law_wf(); self.7.law_wf(); self.8.law_wf(); self.9.law_wf(); self.10.law_wf(); }
    proof fn law_len(v: (A::V, B::V, C::V, D::V, E::V, F::V, G::V, H::V, I::V, J::V, K::V)) {
        let l = lay11::<A, B, C, D, E, F, G, H, I, J, K>();
        let ps = parts11::<A, B, C, D, E, F, G, H, I, J, K>(v);
        lemma_sum11::<A, B, C, D, E, F, G, H, I, J, K>(v);
        if Self::fixed() { lemma_tl_fixed(ps); lemma_hd_len(ps, fl(ps) as int); }
    }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) {
        let l = lay11::<A, B, C, D, E, F, G, H, I, J, K>();
        A::law_dec(piece(b, l, 0)); B::law_dec(piece(b, l, 1)); C::law_dec(piece(b, l, 2)); D::law_dec(piece(b, l, 3)); E::law_dec(piece(b, l, 4)); F::law_dec(piece(b, l, 5)); G::law_dec(piece(b, l, 6)); H::law_dec(piece(b, l, 7)); I::law_dec(piece(b, l, 8)); J::law_dec(piece(b, l, 9)); K::law_dec(piece(b, l, 10));
        A::law_flen(); B::law_flen(); C::law_flen(); D::law_flen(); E::law_flen(); F::law_flen(); G::law_flen(); H::law_flen(); I::law_flen(); J::law_flen(); K::law_flen();
        if Self::fixed() { lemma_next_fixed(b, l, 0); }
    }
    proof fn law_rt(v: (A::V, B::V, C::V, D::V, E::V, F::V, G::V, H::V, I::V, J::V, K::V)) {
        let l = lay11::<A, B, C, D, E, F, G, H, I, J, K>();
        let ps = parts11::<A, B, C, D, E, F, G, H, I, J, K>(v);
        lemma_sum11::<A, B, C, D, E, F, G, H, I, J, K>(v);
        lemma_split_of_pack(ps, l);
        lemma_part_len(ps, 0); A::law_rt(v.0); assert(piece(pack(ps), l, 0) == ps[0].1); lemma_part_len(ps, 1); B::law_rt(v.1); assert(piece(pack(ps), l, 1) == ps[1].1); lemma_part_len(ps, 2); C::law_rt(v.2); assert(piece(pack(ps), l, 2) == ps[2].1); lemma_part_len(ps, 3); D::law_rt(v.3); assert(piece(pack(ps), l, 3) == ps[3].1); lemma_part_len(ps, 4); E::law_rt(v.4); assert(piece(pack(ps), l, 4) == ps[4].1); lemma_part_len(ps, 5); F::law_rt(v.5); assert(piece(pack(ps), l, 5) == ps[5].1); lemma_part_len(ps, 6); G::law_rt(v.6); assert(piece(pack(ps), l, 6) == ps[6].1); lemma_part_len(ps, 7); H::law_rt(v.7); assert(piece(pack(ps), l, 7) == ps[7].1); lemma_part_len(ps, 8); I::law_rt(v.8); assert(piece(pack(ps), l, 8) == ps[8].1); lemma_part_len(ps, 9); J::law_rt(v.9); assert(piece(pack(ps), l, 9) == ps[9].1); lemma_part_len(ps, 10); K::law_rt(v.10); assert(piece(pack(ps), l, 10) == ps[10].1);
    }
    proof fn law_strict(b: Seq<u8>) {
        let l = lay11::<A, B, C, D, E, F, G, H, I, J, K>();
        A::law_strict(piece(b, l, 0)); A::law_flen(); B::law_strict(piece(b, l, 1)); B::law_flen(); C::law_strict(piece(b, l, 2)); C::law_flen(); D::law_strict(piece(b, l, 3)); D::law_flen(); E::law_strict(piece(b, l, 4)); E::law_flen(); F::law_strict(piece(b, l, 5)); F::law_flen(); G::law_strict(piece(b, l, 6)); G::law_flen(); H::law_strict(piece(b, l, 7)); H::law_flen(); I::law_strict(piece(b, l, 8)); I::law_flen(); J::law_strict(piece(b, l, 9)); J::law_flen(); K::law_strict(piece(b, l, 10)); K::law_flen();
        assert(parts11::<A, B, C, D, E, F, G, H, I, J, K>(Self::dec(b).unwrap()) =~= pieces_of(b, l));
        lemma_pack_of_split(b, l);
    }
}

#[verifier::rlimit(80)]
pub proof fn lemma_sum11<A: Ssz, B: Ssz, C: Ssz, D: Ssz, E: Ssz, F: Ssz, G: Ssz, H: Ssz, I: Ssz, J: Ssz, K: Ssz>(v: (A::V, B::V, C::V, D::V, E::V, F::V, G::V, H::V, I::V, J::V, K::V))
    requires A::ok(), A::valid(v.0), B::ok(), B::valid(v.1), C::ok(), C::valid(v.2), D::ok(), D::valid(v.3), E::ok(), E::valid(v.4), F::ok(), F::valid(v.5), G::ok(), G::valid(v.6), H::ok(), H::valid(v.7), I::ok(), I::valid(v.8), J::ok(), J::valid(v.9), K::ok(), K::valid(v.10)
    ensures
        fits(parts11::<A, B, C, D, E, F, G, H, I, J, K>(v), lay11::<A, B, C, D, E, F, G, H, I, J, K>()),
        fl(parts11::<A, B, C, D, E, F, G, H, I, J, K>(v)) == sum11::<A, B, C, D, E, F, G, H, I, J, K>(),
        A::enc(v.0).len() <= plen(part::<A>(v.0)), B::enc(v.1).len() <= plen(part::<B>(v.1)), C::enc(v.2).len() <= plen(part::<C>(v.2)), D::enc(v.3).len() <= plen(part::<D>(v.3)), E::enc(v.4).len() <= plen(part::<E>(v.4)), F::enc(v.5).len() <= plen(part::<F>(v.5)), G::enc(v.6).len() <= plen(part::<G>(v.6)), H::enc(v.7).len() <= plen(part::<H>(v.7)), I::enc(v.8).len() <= plen(part::<I>(v.8)), J::enc(v.9).len() <= plen(part::<J>(v.9)), K::enc(v.10).len() <= plen(part::<K>(v.10)),
        A::fixed() ==> plen(part::<A>(v.0)) == A::flen(), B::fixed() ==> plen(part::<B>(v.1)) == B::flen(), C::fixed() ==> plen(part::<C>(v.2)) == C::flen(), D::fixed() ==> plen(part::<D>(v.3)) == D::flen(), E::fixed() ==> plen(part::<E>(v.4)) == E::flen(), F::fixed() ==> plen(part::<F>(v.5)) == F::flen(), G::fixed() ==> plen(part::<G>(v.6)) == G::flen(), H::fixed() ==> plen(part::<H>(v.7)) == H::flen(), I::fixed() ==> plen(part::<I>(v.8)) == I::flen(), J::fixed() ==> plen(part::<J>(v.9)) == J::flen(), K::fixed() ==> plen(part::<K>(v.10)) == K::flen(),
        !A::fixed() ==> plen(part::<A>(v.0)) == 4 + A::enc(v.0).len(), !B::fixed() ==> plen(part::<B>(v.1)) == 4 + B::enc(v.1).len(), !C::fixed() ==> plen(part::<C>(v.2)) == 4 + C::enc(v.2).len(), !D::fixed() ==> plen(part::<D>(v.3)) == 4 + D::enc(v.3).len(), !E::fixed() ==> plen(part::<E>(v.4)) == 4 + E::enc(v.4).len(), !F::fixed() ==> plen(part::<F>(v.5)) == 4 + F::enc(v.5).len(), !G::fixed() ==> plen(part::<G>(v.6)) == 4 + G::enc(v.6).len(), !H::fixed() ==> plen(part::<H>(v.7)) == 4 + H::enc(v.7).len(), !I::fixed() ==> plen(part::<I>(v.8)) == 4 + I::enc(v.8).len(), !J::fixed() ==> plen(part::<J>(v.9)) == 4 + J::enc(v.9).len(), !K::fixed() ==> plen(part::<K>(v.10)) == 4 + K::enc(v.10).len(),
        fl(parts11::<A, B, C, D, E, F, G, H, I, J, K>(v)) <= pack(parts11::<A, B, C, D, E, F, G, H, I, J, K>(v)).len(),
        pack(parts11::<A, B, C, D, E, F, G, H, I, J, K>(v)).len() == plen(part::<A>(v.0)) + plen(part::<B>(v.1)) + plen(part::<C>(v.2)) + plen(part::<D>(v.3)) + plen(part::<E>(v.4)) + plen(part::<F>(v.5)) + plen(part::<G>(v.6)) + plen(part::<H>(v.7)) + plen(part::<I>(v.8)) + plen(part::<J>(v.9)) + plen(part::<K>(v.10)),
{
    broadcast use lemma_total_push, lemma_pfl_push;
    let ps = parts11::<A, B, C, D, E, F, G, H, I, J, K>(v);
    lemma_part::<A>(v.0); A::law_flen(); lemma_part::<B>(v.1); B::law_flen(); lemma_part::<C>(v.2); C::law_flen(); lemma_part::<D>(v.3); D::law_flen(); lemma_part::<E>(v.4); E::law_flen(); lemma_part::<F>(v.5); F::law_flen(); lemma_part::<G>(v.6); G::law_flen(); lemma_part::<H>(v.7); H::law_flen(); lemma_part::<I>(v.8); I::law_flen(); lemma_part::<J>(v.9); J::law_flen(); lemma_part::<K>(v.10); K::law_flen();
    lemma_total(ps);
    lemma_total_empty();
    let p = Seq::<Part>::empty();
    let l = Seq::<Slot>::empty();
    assert(fits(p, l));
    lemma_fits_push(p, l, part::<A>(v.0), slot::<A>()); let p = p.push(part::<A>(v.0)); let l = l.push(slot::<A>());
    lemma_fits_push(p, l, part::<B>(v.1), slot::<B>()); let p = p.push(part::<B>(v.1)); let l = l.push(slot::<B>());
    lemma_fits_push(p, l, part::<C>(v.2), slot::<C>()); let p = p.push(part::<C>(v.2)); let l = l.push(slot::<C>());
    lemma_fits_push(p, l, part::<D>(v.3), slot::<D>()); let p = p.push(part::<D>(v.3)); let l = l.push(slot::<D>());
    lemma_fits_push(p, l, part::<E>(v.4), slot::<E>()); let p = p.push(part::<E>(v.4)); let l = l.push(slot::<E>());
    lemma_fits_push(p, l, part::<F>(v.5), slot::<F>()); let p = p.push(part::<F>(v.5)); let l = l.push(slot::<F>());
    lemma_fits_push(p, l, part::<G>(v.6), slot::<G>()); let p = p.push(part::<G>(v.6)); let l = l.push(slot::<G>());
    lemma_fits_push(p, l, part::<H>(v.7), slot::<H>()); let p = p.push(part::<H>(v.7)); let l = l.push(slot::<H>());
    lemma_fits_push(p, l, part::<I>(v.8), slot::<I>()); let p = p.push(part::<I>(v.8)); let l = l.push(slot::<I>());
    lemma_fits_push(p, l, part::<J>(v.9), slot::<J>()); let p = p.push(part::<J>(v.9)); let l = l.push(slot::<J>());
    lemma_fits_push(p, l, part::<K>(v.10), slot::<K>()); let p = p.push(part::<K>(v.10)); let l = l.push(slot::<K>());
}

@@ impl Encode for (A,B,C,D,E,F,G,H,I,J,K)
@@ fn Encode for (A,B,C,D,E,F,G,H,I,J,K)::ssz_fixed_len
@props C07
@@ fn Encode for (A,B,C,D,E,F,G,H,I,J,K)::ssz_bytes_len
@props C07
@attr #[verifier::rlimit(80)]
@start
    proof { self.law_wf(); lemma_sum11::<A, B, C, D, E, F, G, H, I, J, K>(self.v()); }
@at /^len .=/ 1
    assert(len == plen(part::<A>(self.v().0)));
@at /^len .=/ 2
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)));
@at /^len .=/ 3
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)));
@at /^len .=/ 4
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)) + plen(part::<D>(self.v().3)));
@at /^len .=/ 5
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)) + plen(part::<D>(self.v().3)) + plen(part::<E>(self.v().4)));
@at /^len .=/ 6
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)) + plen(part::<D>(self.v().3)) + plen(part::<E>(self.v().4)) + plen(part::<F>(self.v().5)));
@at /^len .=/ 7
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)) + plen(part::<D>(self.v().3)) + plen(part::<E>(self.v().4)) + plen(part::<F>(self.v().5)) + plen(part::<G>(self.v().6)));
@at /^len .=/ 8
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)) + plen(part::<D>(self.v().3)) + plen(part::<E>(self.v().4)) + plen(part::<F>(self.v().5)) + plen(part::<G>(self.v().6)) + plen(part::<H>(self.v().7)));
@at /^len .=/ 9
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)) + plen(part::<D>(self.v().3)) + plen(part::<E>(self.v().4)) + plen(part::<F>(self.v().5)) + plen(part::<G>(self.v().6)) + plen(part::<H>(self.v().7)) + plen(part::<I>(self.v().8)));
@at /^len .=/ 10
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)) + plen(part::<D>(self.v().3)) + plen(part::<E>(self.v().4)) + plen(part::<F>(self.v().5)) + plen(part::<G>(self.v().6)) + plen(part::<H>(self.v().7)) + plen(part::<I>(self.v().8)) + plen(part::<J>(self.v().9)));
@@ fn Encode for (A,B,C,D,E,F,G,H,I,J,K)::ssz_append
@props C01 C03 C07 C10
@attr #[verifier::rlimit(80)]
@start
    let ghost b0 = buf@;
    proof {
        let ps = parts11::<A, B, C, D, E, F, G, H, I, J, K>(self.v());
        self.law_wf();
        lemma_sum11::<A, B, C, D, E, F, G, H, I, J, K>(self.v());
        lemma_part_len(ps, 0); lemma_takes11::<A, B, C, D, E, F, G, H, I, J, K>(self.v()); lemma_part_len(ps, 1); lemma_part_len(ps, 2); lemma_part_len(ps, 3); lemma_part_len(ps, 4); lemma_part_len(ps, 5); lemma_part_len(ps, 6); lemma_part_len(ps, 7); lemma_part_len(ps, 8); lemma_part_len(ps, 9); lemma_part_len(ps, 10);
    }
@@ fn Encode for (A,B,C,D,E,F,G,H,I,J,K)::as_ssz_bytes
@result v_r
@finish
    proof { assert(v_r@ =~= Self::enc(self.v())); }

@@ impl Decode for (A,B,C,D,E,F,G,H,I,J,K)
@@ fn Decode for (A,B,C,D,E,F,G,H,I,J,K)::ssz_fixed_len
@props C07
@@ fn Decode for (A,B,C,D,E,F,G,H,I,J,K)::from_ssz_bytes
@props C01 C02 C04 C05 C09
@start
    proof {
        let l = lay11::<A, B, C, D, E, F, G, H, I, J, K>();
        let b = bytes@;
        if split_ok(b, l) {
            assert forall|i: int| 0 <= i < l.len() implies (#[trigger] piece(b, l, i)).len() <= b.len() by { lemma_split_bounds(b, l, i); }
        }
    }

@@ raw
pub proof fn lemma_takes11<A: Ssz, B: Ssz, C: Ssz, D: Ssz, E: Ssz, F: Ssz, G: Ssz, H: Ssz, I: Ssz, J: Ssz, K: Ssz>(v: (A::V, B::V, C::V, D::V, E::V, F::V, G::V, H::V, I::V, J::V, K::V))
    ensures parts11::<A, B, C, D, E, F, G, H, I, J, K>(v).take(0) == Seq::<Part>::empty(), parts11::<A, B, C, D, E, F, G, H, I, J, K>(v).take(1) == Seq::<Part>::empty().push(part::<A>(v.0)), parts11::<A, B, C, D, E, F, G, H, I, J, K>(v).take(2) == Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)), parts11::<A, B, C, D, E, F, G, H, I, J, K>(v).take(3) == Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)), parts11::<A, B, C, D, E, F, G, H, I, J, K>(v).take(4) == Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)), parts11::<A, B, C, D, E, F, G, H, I, J, K>(v).take(5) == Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)), parts11::<A, B, C, D, E, F, G, H, I, J, K>(v).take(6) == Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)).push(part::<F>(v.5)), parts11::<A, B, C, D, E, F, G, H, I, J, K>(v).take(7) == Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)).push(part::<F>(v.5)).push(part::<G>(v.6)), parts11::<A, B, C, D, E, F, G, H, I, J, K>(v).take(8) == Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)).push(part::<F>(v.5)).push(part::<G>(v.6)).push(part::<H>(v.7)), parts11::<A, B, C, D, E, F, G, H, I, J, K>(v).take(9) == Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)).push(part::<F>(v.5)).push(part::<G>(v.6)).push(part::<H>(v.7)).push(part::<I>(v.8)), parts11::<A, B, C, D, E, F, G, H, I, J, K>(v).take(10) == Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)).push(part::<F>(v.5)).push(part::<G>(v.6)).push(part::<H>(v.7)).push(part::<I>(v.8)).push(part::<J>(v.9))
{
    assert(parts11::<A, B, C, D, E, F, G, H, I, J, K>(v).take(0) =~= Seq::<Part>::empty()); assert(parts11::<A, B, C, D, E, F, G, H, I, J, K>(v).take(1) =~= Seq::<Part>::empty().push(part::<A>(v.0))); assert(parts11::<A, B, C, D, E, F, G, H, I, J, K>(v).take(2) =~= Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1))); assert(parts11::<A, B, C, D, E, F, G, H, I, J, K>(v).take(3) =~= Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2))); assert(parts11::<A, B, C, D, E, F, G, H, I, J, K>(v).take(4) =~= Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3))); assert(parts11::<A, B, C, D, E, F, G, H, I, J, K>(v).take(5) =~= Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4))); assert(parts11::<A, B, C, D, E, F, G, H, I, J, K>(v).take(6) =~= Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)).push(part::<F>(v.5))); assert(parts11::<A, B, C, D, E, F, G, H, I, J, K>(v).take(7) =~= Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)).push(part::<F>(v.5)).push(part::<G>(v.6))); assert(parts11::<A, B, C, D, E, F, G, H, I, J, K>(v).take(8) =~= Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)).push(part::<F>(v.5)).push(part::<G>(v.6)).push(part::<H>(v.7))); assert(parts11::<A, B, C, D, E, F, G, H, I, J, K>(v).take(9) =~= Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)).push(part::<F>(v.5)).push(part::<G>(v.6)).push(part::<H>(v.7)).push(part::<I>(v.8))); assert(parts11::<A, B, C, D, E, F, G, H, I, J, K>(v).take(10) =~= Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)).push(part::<F>(v.5)).push(part::<G>(v.6)).push(part::<H>(v.7)).push(part::<I>(v.8)).push(part::<J>(v.9)));
}

@@ module tuple12
@@ raw
pub open spec fn lay12<A: Ssz, B: Ssz, C: Ssz, D: Ssz, E: Ssz, F: Ssz, G: Ssz, H: Ssz, I: Ssz, J: Ssz, K: Ssz, L: Ssz>() -> Seq<Slot> { Seq::<Slot>::empty().push(slot::<A>()).push(slot::<B>()).push(slot::<C>()).push(slot::<D>()).push(slot::<E>()).push(slot::<F>()).push(slot::<G>()).push(slot::<H>()).push(slot::<I>()).push(slot::<J>()).push(slot::<K>()).push(slot::<L>()) }

pub open spec fn parts12<A: Ssz, B: Ssz, C: Ssz, D: Ssz, E: Ssz, F: Ssz, G: Ssz, H: Ssz, I: Ssz, J: Ssz, K: Ssz, L: Ssz>(v: (A::V, B::V, C::V, D::V, E::V, F::V, G::V, H::V, I::V, J::V, K::V, L::V)) -> Seq<Part> { Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)).push(part::<F>(v.5)).push(part::<G>(v.6)).push(part::<H>(v.7)).push(part::<I>(v.8)).push(part::<J>(v.9)).push(part::<K>(v.10)).push(part::<L>(v.11)) }

pub open spec fn sum12<A: Ssz, B: Ssz, C: Ssz, D: Ssz, E: Ssz, F: Ssz, G: Ssz, H: Ssz, I: Ssz, J: Ssz, K: Ssz, L: Ssz>() -> nat { A::flen() + B::flen() + C::flen() + D::flen() + E::flen() + F::flen() + G::flen() + H::flen() + I::flen() + J::flen() + K::flen() + L::flen() }

impl<A: Ssz, B: Ssz, C: Ssz, D: Ssz, E: Ssz, F: Ssz, G: Ssz, H: Ssz, I: Ssz, J: Ssz, K: Ssz, L: Ssz> Ssz for (A, B, C, D, E, F, G, H, I, J, K, L) {
    type V = (A::V, B::V, C::V, D::V, E::V, F::V, G::V, H::V, I::V, J::V, K::V, L::V);
    open spec fn v(&self) -> (A::V, B::V, C::V, D::V, E::V, F::V, G::V, H::V, I::V, J::V, K::V, L::V) { (self.0.v(), self.1.v(), self.2.v(), self.3.v(), self.4.v(), self.5.v(), self.6.v(), self.7.v(), self.8.v(), self.9.v(), self.10.v(), self.11.v()) }
    open spec fn wf(&self) -> bool { self.0.wf() && self.1.wf() && self.2.wf() && self.3.wf() && self.4.wf() && self.5.wf() && self.6.wf() && self.7.wf() && self.8.wf() && self.9.wf() && self.10.wf() && self.11.wf() }
    open spec fn valid(v: (A::V, B::V, C::V, D::V, E::V, F::V, G::V, H::V, I::V, J::V, K::V, L::V)) -> bool { A::valid(v.0) && B::valid(v.1) && C::valid(v.2) && D::valid(v.3) && E::valid(v.4) && F::valid(v.5) && G::valid(v.6) && H::valid(v.7) && I::valid(v.8) && J::valid(v.9) && K::valid(v.10) && L::valid(v.11) }
    open spec fn ok() -> bool { A::ok() && B::ok() && C::ok() && D::ok() && E::ok() && F::ok() && G::ok() && H::ok() && I::ok() && J::ok() && K::ok() && L::ok() && sum12::<A, B, C, D, E, F, G, H, I, J, K, L>() <= usize::MAX }
    open spec fn fixed() -> bool { A::fixed() && B::fixed() && C::fixed() && D::fixed() && E::fixed() && F::fixed() && G::fixed() && H::fixed() && I::fixed() && J::fixed() && K::fixed() && L::fixed() }
    open spec fn flen() -> nat { if Self::fixed() { sum12::<A, B, C, D, E, F, G, H, I, J, K, L>() } else { 4 } }
    open spec fn enc(v: (A::V, B::V, C::V, D::V, E::V, F::V, G::V, H::V, I::V, J::V, K::V, L::V)) -> Seq<u8> { pack(parts12::<A, B, C, D, E, F, G, H, I, J, K, L>(v)) }
    open spec fn dec(b: Seq<u8>) -> Option<(A::V, B::V, C::V, D::V, E::V, F::V, G::V, H::V, I::V, J::V, K::V, L::V)> {
        let l = lay12::<A, B, C, D, E, F, G, H, I, J, K, L>();
        if split_ok(b, l) && A::dec(piece(b, l, 0)) is Some && B::dec(piece(b, l, 1)) is Some && C::dec(piece(b, l, 2)) is Some && D::dec(piece(b, l, 3)) is Some && E::dec(piece(b, l, 4)) is Some && F::dec(piece(b, l, 5)) is Some && G::dec(piece(b, l, 6)) is Some && H::dec(piece(b, l, 7)) is Some && I::dec(piece(b, l, 8)) is Some && J::dec(piece(b, l, 9)) is Some && K::dec(piece(b, l, 10)) is Some && L::dec(piece(b, l, 11)) is Some {
            Some((A::dec(piece(b, l, 0)).unwrap(), B::dec(piece(b, l, 1)).unwrap(), C::dec(piece(b, l, 2)).unwrap(), D::dec(piece(b, l, 3)).unwrap(), E::dec(piece(b, l, 4)).unwrap(), F::dec(piece(b, l, 5)).unwrap(), G::dec(piece(b, l, 6)).unwrap(), H::dec(piece(b, l, 7)).unwrap(), I::dec(piece(b, l, 8)).unwrap(), J::dec(piece(b, l, 9)).unwrap(), K::dec(piece(b, l, 10)).unwrap(), L::dec(piece(b, l, 11)).unwrap()))
        } else {
            None
        }
    }
    open spec fn rt() -> bool { A::rt() && B::rt() && C::rt() && D::rt() && E::rt() && F::rt() && G::rt() && H::rt() && I::rt() && J::rt() && K::rt() && L::rt() }
    open spec fn strict() -> bool { A::strict() && B::strict() && C::strict() && D::strict() && E::strict() && F::strict() && G::strict() && H::strict() && I::strict() && J::strict() && K::strict() && L::strict() }
    proof fn law_wf(&self) { self.0.law_wf(); self.1.law_wf(); self.2.law_wf(); self.3.law_wf(); self.4.law_wf(); self.5.law_wf(); self.6.law_wf(); self.7.law_wf(); self.8.law_wf(); self.9.law_wf(); self.10.law_wf(); self.11.law_wf(); }
    proof fn law_len(v: (A::V, B::V, C::V, D::V, E::V, F::V, G::V, H::V, I::V, J::V, K::V, L::V)) {
        let l = lay12::<A, B, C, D, E, F, G, H, I, J, K, L>();
        let ps = parts12::<A, B, C, D, E, F, G, H, I, J, K, L>(v);
        lemma_sum12::<A, B, C, D, E, F, G, H, I, J, K, L>(v);
        if Self::fixed() { lemma_tl_fixed(ps); lemma_hd_len(ps, fl(ps) as int); }
    }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) {
        let l = lay12::<A, B, C, D, E, F, G, H, I, J, K, L>();
        A::law_dec(piece(b, l, 0)); B::law_dec(piece(b, l, 1)); C::law_dec(piece(b, l, 2)); D::law_dec(piece(b, l, 3)); E::law_dec(piece(b, l, 4)); F::law_dec(piece(b, l, 5)); G::law_dec(piece(b, l, 6)); H::law_dec(piece(b, l, 7)); I::law_dec(piece(b, l, 8)); J::law_dec(piece(b, l, 9)); K::law_dec(piece(b, l, 10)); L::law_dec(piece(b, l, 11));
        A::law_flen(); B::law_flen(); C::law_flen(); D::law_flen(); E::law_flen(); F::law_flen(); G::law_flen(); H::law_flen(); I::law_flen(); J::law_flen(); K::law_flen(); L::law_flen();
        if Self::fixed() { lemma_next_fixed(b, l, 0); }
    }
    proof fn law_rt(v: (A::V, B::V, C::V, D::V, E::V, F::V, G::V, H::V, I::V, J::V, K::V, L::V)) {
        let l = lay12::<A, B, C, D, E, F, G, H, I, J, K, L>();
        let ps = parts12::<A, B, C, D, E, F, G, H, I, J, K, L>(v);
        lemma_sum12::<A, B, C, D, E, F, G, H, I, J, K, L>(v);
        lemma_split_of_pack(ps, l);
        lemma_part_len(ps, 0); A::law_rt(v.0); assert(piece(pack(ps), l, 0) == ps[0].1); lemma_part_len(ps, 1); B::law_rt(v.1); assert(piece(pack(ps), l, 1) == ps[1].1); lemma_part_len(ps, 2); C::law_rt(v.2); assert(piece(pack(ps), l, 2) == ps[2].1); lemma_part_len(ps, 3); D::law_rt(v.3); assert(piece(pack(ps), l, 3) == ps[3].1); lemma_part_len(ps, 4); E::law_rt(v.4); assert(piece(pack(ps), l, 4) == ps[4].1); lemma_part_len(ps, 5); F::law_rt(v.5); assert(piece(pack(ps), l, 5) == ps[5].1); lemma_part_len(ps, 6); G::law_rt(v.6); assert(piece(pack(ps), l, 6) == ps[6].1); lemma_part_len(ps, 7); H::law_rt(v.7); assert(piece(pack(ps), l, 7) == ps[7].1); lemma_part_len(ps, 8); I::law_rt(v.8); assert(piece(pack(ps), l, 8) == ps[8].1); lemma_part_len(ps, 9); J::law_rt(v.9); assert(piece(pack(ps), l, 9) == ps[9].1); lemma_part_len(ps, 10); K::law_rt(v.10); assert(piece(pack(ps), l, 10) == ps[10].1); lemma_part_len(ps, 11); L::law_rt(v.11); assert(piece(pack(ps), l, 11) == ps[11].1);
    }
    proof fn law_strict(b: Seq<u8>) {
        let l = lay12::<A, B, C, D, E, F, G, H, I, J, K, L>();
        A::law_strict(piece(b, l, 0)); A::law_flen(); B::law_strict(piece(b, l, 1)); B::law_flen(); C::law_strict(piece(b, l, 2)); C::law_flen(); D::law_strict(piece(b, l, 3)); D::law_flen(); E::law_strict(piece(b, l, 4)); E::law_flen(); F::law_strict(piece(b, l, 5)); F::law_flen(); G::law_strict(piece(b, l, 6)); G::law_flen(); H::law_strict(piece(b, l, 7)); H::law_flen(); I::law_strict(piece(b, l, 8)); I::law_flen(); J::law_strict(piece(b, l, 9)); J::law_flen(); K::law_strict(piece(b, l, 10)); K::law_flen(); L::law_strict(piece(b, l, 11)); L::law_flen();
        assert(parts12::<A, B, C, D, E, F, G, H, I, J, K, L>(Self::dec(b).unwrap()) =~= pieces_of(b, l));
        lemma_pack_of_split(b, l);
    }
}

#[verifier::rlimit(80)]
pub proof fn lemma_sum12<A: Ssz, B: Ssz, C: Ssz, D: Ssz, E: Ssz, F: Ssz, G: Ssz, H: Ssz, I: Ssz, J: Ssz, K: Ssz, L: Ssz>(v: (A::V, B::V, C::V, D::V, E::V, F::V, G::V, H::V, I::V, J::V, K::V, L::V))
    requires A::ok(), A::valid(v.0), B::ok(), B::valid(v.1), C::ok(), C::valid(v.2), D::ok(), D::valid(v.3), E::ok(), E::valid(v.4), F::ok(), F::valid(v.5), G::ok(), G::valid(v.6), H::ok(), H::valid(v.7), I::ok(), I::valid(v.8), J::ok(), J::valid(v.9), K::ok(), K::valid(v.10), L::ok(), L::valid(v.11)
    ensures
        fits(parts12::<A, B, C, D, E, F, G, H, I, J, K, L>(v), lay12::<A, B, C, D, E, F, G, H, I, J, K, L>()),
        fl(parts12::<A, B, C, D, E, F, G, H, I, J, K, L>(v)) == sum12::<A, B, C, D, E, F, G, H, I, J, K, L>(),
        A::enc(v.0).len() <= plen(part::<A>(v.0)), B::enc(v.1).len() <= plen(part::<B>(v.1)), C::enc(v.2).len() <= plen(part::<C>(v.2)), D::enc(v.3).len() <= plen(part::<D>(v.3)), E::enc(v.4).len() <= plen(part::<E>(v.4)), F::enc(v.5).len() <= plen(part::<F>(v.5)), G::enc(v.6).len() <= plen(part::<G>(v.6)), H::enc(v.7).len() <= plen(part::<H>(v.7)), I::enc(v.8).len() <= plen(part::<I>(v.8)), J::enc(v.9).len() <= plen(part::<J>(v.9)), K::enc(v.10).len() <= plen(part::<K>(v.10)), L::enc(v.11).len() <= plen(part::<L>(v.11)),
        A::fixed() ==> plen(part::<A>(v.0)) == A::flen(), B::fixed() ==> plen(part::<B>(v.1)) == B::flen(), C::fixed() ==> plen(part::<C>(v.2)) == C::flen(), D::fixed() ==> plen(part::<D>(v.3)) == D::flen(), E::fixed() ==> plen(part::<E>(v.4)) == E::flen(), F::fixed() ==> plen(part::<F>(v.5)) == F::flen(), G::fixed() ==> plen(part::<G>(v.6)) == G::flen(), H::fixed() ==> plen(part::<H>(v.7)) == H::flen(), I::fixed() ==> plen(part::<I>(v.8)) == I::flen(), J::fixed() ==> plen(part::<J>(v.9)) == J::flen(), K::fixed() ==> plen(part::<K>(v.10)) == K::flen(), L::fixed() ==> plen(part::<L>(v.11)) == L::flen(),
        !A::fixed() ==> plen(part::<A>(v.0)) == 4 + A::enc(v.0).len(), !B::fixed() ==> plen(part::<B>(v.1)) == 4 + B::enc(v.1).len(), !C::fixed() ==> plen(part::<C>(v.2)) == 4 + C::enc(v.2).len(), !D::fixed() ==> plen(part::<D>(v.3)) == 4 + D::enc(v.3).len(), !E::fixed() ==> plen(part::<E>(v.4)) == 4 + E::enc(v.4).len(), !F::fixed() ==> plen(part::<F>(v.5)) == 4 + F::enc(v.5).len(), !G::fixed() ==> plen(part::<G>(v.6)) == 4 + G::enc(v.6).len(), !H::fixed() ==> plen(part::<H>(v.7)) == 4 + H::enc(v.7).len(), !I::fixed() ==> plen(part::<I>(v.8)) == 4 + I::enc(v.8).len(), !J::fixed() ==> plen(part::<J>(v.9)) == 4 + J::enc(v.9).len(), !K::fixed() ==> plen(part::<K>(v.10)) == 4 + K::enc(v.10).len(), !L::fixed() ==> plen(part::<L>(v.11)) == 4 + L::enc(v.11).len(),
        fl(parts12::<A, B, C, D, E, F, G, H, I, J, K, L>(v)) <= pack(parts12::<A, B, C, D, E, F, G, H, I, J, K, L>(v)).len(),
        pack(parts12::<A, B, C, D, E, F, G, H, I, J, K, L>(v)).len() == plen(part::<A>(v.0)) + plen(part::<B>(v.1)) + plen(part::<C>(v.2)) + plen(part::<D>(v.3)) + plen(part::<E>(v.4)) + plen(part::<F>(v.5)) + plen(part::<G>(v.6)) + plen(part::<H>(v.7)) + plen(part::<I>(v.8)) + plen(part::<J>(v.9)) + plen(part::<K>(v.10)) + plen(part::<L>(v.11)),
{
    broadcast use lemma_total_push, lemma_pfl_push;
    let ps = parts12::<A, B, C, D, E, F, G, H, I, J, K, L>(v);
    lemma_part::<A>(v.0); A::law_flen(); lemma_part::<B>(v.1); B::law_flen(); lemma_part::<C>(v.2); C::law_flen(); lemma_part::<D>(v.3); D::law_flen(); lemma_part::<E>(v.4); E::law_flen(); lemma_part::<F>(v.5); F::law_flen(); lemma_part::<G>(v.6); G::law_flen(); lemma_part::<H>(v.7); H::law_flen(); lemma_part::<I>(v.8); I::law_flen(); lemma_part::<J>(v.9); J::law_flen(); lemma_part::<K>(v.10); K::law_flen(); lemma_part::<L>(v.11); L::law_flen();
    lemma_total(ps);
    lemma_total_empty();
    let p = Seq::<Part>::empty();
    let l = Seq::<Slot>::empty();
    assert(fits(p, l));
    lemma_fits_push(p, l, part::<A>(v.0), slot::<A>()); let p = p.push(part::<A>(v.0)); let l = l.push(slot::<A>());
    lemma_fits_push(p, l, part::<B>(v.1), slot::<B>()); let p = p.push(part::<B>(v.1)); let l = l.push(slot::<B>());
    lemma_fits_push(p, l, part::<C>(v.2), slot::<C>()); let p = p.push(part::<C>(v.2)); let l = l.push(slot::<C>());
    lemma_fits_push(p, l, part::<D>(v.3), slot::<D>()); let p = p.push(part::<D>(v.3)); let l = l.push(slot::<D>());
    lemma_fits_push(p, l, part::<E>(v.4), slot::<E>()); let p = p.push(part::<E>(v.4)); let l = l.push(slot::<E>());
    lemma_fits_push(p, l, part::<F>(v.5), slot::<F>()); let p = p.push(part::<F>(v.5)); let l = l.push(slot::<F>());
    lemma_fits_push(p, l, part::<G>(v.6), slot::<G>()); let p = p.push(part::<G>(v.6)); let l = l.push(slot::<G>());
    lemma_fits_push(p, l, part::<H>(v.7), slot::<H>()); let p = p.push(part::<H>(v.7)); let l = l.push(slot::<H>());
    lemma_fits_push(p, l, part::<I>(v.8), slot::<I>()); let p = p.push(part::<I>(v.8)); let l = l.push(slot::<I>());
    lemma_fits_push(p, l, part::<J>(v.9), slot::<J>()); let p = p.push(part::<J>(v.9)); let l = l.push(slot::<J>());
    lemma_fits_push(p, l, part::<K>(v.10), slot::<K>()); let p = p.push(part::<K>(v.10)); let l = l.push(slot::<K>());
    lemma_fits_push(p, l, part::<L>(v.11), slot::<L>()); let p = p.push(part::<L>(v.11)); let l = l.push(slot::<L>());
}

@@ impl Encode for (A,B,C,D,E,F,G,H,I,J,K,L)
@@ fn Encode for (A,B,C,D,E,F,G,H,I,J,K,L)::ssz_fixed_len
@props C07
@@ fn Encode for (A,B,C,D,E,F,G,H,I,J,K,L)::ssz_bytes_len
@props C07
@attr #[verifier::rlimit(80)]
@start
    proof { self.law_wf(); lemma_sum12::<A, B, C, D, E, F, G, H, I, J, K, L>(self.v()); }
@at /^len .=/ 1
    assert(len == plen(part::<A>(self.v().0)));
@at /^len .=/ 2
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)));
@at /^len .=/ 3
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)));
@at /^len .=/ 4
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)) + plen(part::<D>(self.v().3)));
@at /^len .=/ 5
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)) + plen(part::<D>(self.v().3)) + plen(part::<E>(self.v().4)));
@at /^len .=/ 6
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)) + plen(part::<D>(self.v().3)) + plen(part::<E>(self.v().4)) + plen(part::<F>(self.v().5)));
@at /^len .=/ 7
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)) + plen(part::<D>(self.v().3)) + plen(part::<E>(self.v().4)) + plen(part::<F>(self.v().5)) + plen(part::<G>(self.v().6)));
@at /^len .=/ 8
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)) + plen(part::<D>(self.v().3)) + plen(part::<E>(self.v().4)) + plen(part::<F>(self.v().5)) + plen(part::<G>(self.v().6)) + plen(part::<H>(self.v().7)));
@at /^len .=/ 9
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)) + plen(part::<D>(self.v().3)) + plen(part::<E>(self.v().4)) + plen(part::<F>(self.v().5)) + plen(part::<G>(self.v().6)) + plen(part::<H>(self.v().7)) + plen(part::<I>(self.v().8)));
@at /^len .=/ 10
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)) + plen(part::<D>(self.v().3)) + plen(part::<E>(self.v().4)) + plen(part::<F>(self.v().5)) + plen(part::<G>(self.v().6)) + plen(part::<H>(self.v().7)) + plen(part::<I>(self.v().8)) + plen(part::<J>(self.v().9)));
@at /^len .=/ 11
    assert(len == plen(part::<A>(self.v().0)) + plen(part::<B>(self.v().1)) + plen(part::<C>(self.v().2)) + plen(part::<D>(self.v().3)) + plen(part::<E>(self.v().4)) + plen(part::<F>(self.v().5)) + plen(part::<G>(self.v().6)) + plen(part::<H>(self.v().7)) + plen(part::<I>(self.v().8)) + plen(part::<J>(self.v().9)) + plen(part::<K>(self.v().10)));
@@ fn Encode for (A,B,C,D,E,F,G,H,I,J,K,L)::ssz_append
@props C01 C03 C07 C10
@attr #[verifier::rlimit(80)]
@start
    let ghost b0 = buf@;
    proof {
        let ps = parts12::<A, B, C, D, E, F, G, H, I, J, K, L>(self.v());
        self.law_wf();
        lemma_sum12::<A, B, C, D, E, F, G, H, I, J, K, L>(self.v());
        lemma_part_len(ps, 0); lemma_takes12::<A, B, C, D, E, F, G, H, I, J, K, L>(self.v()); lemma_part_len(ps, 1); lemma_part_len(ps, 2); lemma_part_len(ps, 3); lemma_part_len(ps, 4); lemma_part_len(ps, 5); lemma_part_len(ps, 6); lemma_part_len(ps, 7); lemma_part_len(ps, 8); lemma_part_len(ps, 9); lemma_part_len(ps, 10); lemma_part_len(ps, 11);
    }
@@ fn Encode for (A,B,C,D,E,F,G,H,I,J,K,L)::as_ssz_bytes
@result v_r
@finish
    proof { assert(v_r@ =~= Self::enc(self.v())); }

@@ impl Decode for (A,B,C,D,E,F,G,H,I,J,K,L)
@@ fn Decode for (A,B,C,D,E,F,G,H,I,J,K,L)::ssz_fixed_len
@props C07
@@ fn Decode for (A,B,C,D,E,F,G,H,I,J,K,L)::from_ssz_bytes
@props C01 C02 C04 C05 C09
@start
    proof {
        let l = lay12::<A, B, C, D, E, F, G, H, I, J, K, L>();
        let b = bytes@;
        if split_ok(b, l) {
            assert forall|i: int| 0 <= i < l.len() implies (#[trigger] piece(b, l, i)).len() <= b.len() by { lemma_split_bounds(b, l, i); }
        }
    }

@@ raw
pub proof fn lemma_takes12<A: Ssz, B: Ssz, C: Ssz, D: Ssz, E: Ssz, F: Ssz, G: Ssz, H: Ssz, I: Ssz, J: Ssz, K: Ssz, L: Ssz>(v: (A::V, B::V, C::V, D::V, E::V, F::V, G::V, H::V, I::V, J::V, K::V, L::V))
    ensures parts12::<A, B, C, D, E, F, G, H, I, J, K, L>(v).take(0) == Seq::<Part>::empty(), parts12::<A, B, C, D, E, F, G, H, I, J, K, L>(v).take(1) == Seq::<Part>::empty().push(part::<A>(v.0)), parts12::<A, B, C, D, E, F, G, H, I, J, K, L>(v).take(2) == Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)), parts12::<A, B, C, D, E, F, G, H, I, J, K, L>(v).take(3) == Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)), parts12::<A, B, C, D, E, F, G, H, I, J, K, L>(v).take(4) == Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)), parts12::<A, B, C, D, E, F, G, H, I, J, K, L>(v).take(5) == Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)), parts12::<A, B, C, D, E, F, G, H, I, J, K, L>(v).take(6) == Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)).push(part::<F>(v.5)), parts12::<A, B, C, D, E, F, G, H, I, J, K, L>(v).take(7) == Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)).push(part::<F>(v.5)).push(part::<G>(v.6)), parts12::<A, B, C, D, E, F, G, H, I, J, K, L>(v).take(8) == Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)).push(part::<F>(v.5)).push(part::<G>(v.6)).push(part::<H>(v.7)), parts12::<A, B, C, D, E, F, G, H, I, J, K, L>(v).take(9) == Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)).push(part::<F>(v.5)).push(part::<G>(v.6)).push(part::<H>(v.7)).push(part::<I>(v.8)), parts12::<A, B, C, D, E, F, G, H, I, J, K, L>(v).take(10) == Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)).push(part::<F>(v.5)).push(part::<G>(v.6)).push(part::<H>(v.7)).push(part::<I>(v.8)).push(part::<J>(v.9)), parts12::<A, B, C, D, E, F, G, H, I, J, K, L>(v).take(11) == Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)).push(part::<F>(v.5)).push(part::<G>(v.6)).push(part::<H>(v.7)).push(part::<I>(v.8)).push(part::<J>(v.9)).push(part::<K>(v.10))
{
    assert(parts12::<A, B, C, D, E, F, G, H, I, J, K, L>(v).take(0) =~= Seq::<Part>::empty()); assert(parts12::<A, B, C, D, E, F, G, H, I, J, K, L>(v).take(1) =~= Seq::<Part>::empty().push(part::<A>(v.0))); assert(parts12::<A, B, C, D, E, F, G, H, I, J, K, L>(v).take(2) =~= Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1))); assert(parts12::<A, B, C, D, E, F, G, H, I, J, K, L>(v).take(3) =~= Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2))); assert(parts12::<A, B, C, D, E, F, G, H, I, J, K, L>(v).take(4) =~= Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3))); assert(parts12::<A, B, C, D, E, F, G, H, I, J, K, L>(v).take(5) =~= Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4))); assert(parts12::<A, B, C, D, E, F, G, H, I, J, K, L>(v).take(6) =~= Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)).push(part::<F>(v.5))); assert(parts12::<A, B, C, D, E, F, G, H, I, J, K, L>(v).take(7) =~= Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)).push(part::<F>(v.5)).push(part::<G>(v.6))); assert(parts12::<A, B, C, D, E, F, G, H, I, J, K, L>(v).take(8) =~= Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)).push(part::<F>(v.5)).push(part::<G>(v.6)).push(part::<H>(v.7))); assert(parts12::<A, B, C, D, E, F, G, H, I, J, K, L>(v).take(9) =~= Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)).push(part::<F>(v.5)).push(part::<G>(v.6)).push(part::<H>(v.7)).push(part::<I>(v.8))); assert(parts12::<A, B, C, D, E, F, G, H, I, J, K, L>(v).take(10) =~= Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)).push(part::<F>(v.5)).push(part::<G>(v.6)).push(part::<H>(v.7)).push(part::<I>(v.8)).push(part::<J>(v.9))); assert(parts12::<A, B, C, D, E, F, G, H, I, J, K, L>(v).take(11) =~= Seq::<Part>::empty().push(part::<A>(v.0)).push(part::<B>(v.1)).push(part::<C>(v.2)).push(part::<D>(v.3)).push(part::<E>(v.4)).push(part::<F>(v.5)).push(part::<G>(v.6)).push(part::<H>(v.7)).push(part::<I>(v.8)).push(part::<J>(v.9)).push(part::<K>(v.10)));
}

// ---------------------------------------------------------------------------------------------------------------
// Lists: the items one after the other when they are fixed-size, a container of them when they are not
// ---------------------------------------------------------------------------------------------------------------
pub open spec fn parts_of<T: Ssz>(vs: Seq<T::V>) -> Seq<Part> { Seq::new(vs.len(), |i: int| part::<T>(vs[i])) }

pub open spec fn vals<T: Ssz>(s: Seq<T>) -> Seq<T::V> { Seq::new(s.len(), |i: int| s[i].v()) }

pub open spec fn list_enc<T: Ssz>(vs: Seq<T::V>) -> Seq<u8> { pack(parts_of::<T>(vs)) }

pub open spec fn slots(s: Slot, n: nat) -> Seq<Slot> { Seq::new(n, |i: int| s) }

/// the layout a list announces: by its length, or by its first offset word
pub open spec fn list_lay(fixed: bool, flen: nat, b: Seq<u8>) -> Option<Seq<Slot>> {
    if b.len() == 0 {
        Some(Seq::empty())
    } else if fixed {
        if flen != 0 && b.len() % flen == 0 { Some(slots((true, flen), b.len() / flen)) } else { None }
    } else if b.len() < 4 {
        None
    } else {
        let o = off_at(b, 0);
        if o > 0 && o % 4 == 0 && o <= b.len() && split_ok(b, slots((false, 4), (o / 4) as nat)) { Some(slots((false, 4), (o / 4) as nat)) } else { None }
    }
}

/// every item decodes
pub open spec fn items_ok<T: Ssz>(b: Seq<u8>, l: Seq<Slot>) -> bool { forall|i: int| 0 <= i < l.len() ==> T::dec(#[trigger] piece(b, l, i)) is Some }

pub open spec fn items_of<T: Ssz>(b: Seq<u8>, l: Seq<Slot>) -> Seq<T::V> { Seq::new(l.len(), |i: int| T::dec(piece(b, l, i)).unwrap()) }

pub open spec fn list_dec<T: Ssz>(b: Seq<u8>) -> Option<Seq<T::V>> {
    match list_lay(T::fixed(), T::flen(), b) {
        Some(l) => if items_ok::<T>(b, l) { Some(items_of::<T>(b, l)) } else { None },
        None => None,
    }
}

/// a list of zero-length items does not tell how many it has
pub open spec fn list_rt<T: Ssz>() -> bool { T::rt() && !(T::fixed() && T::flen() == 0) }

pub open spec fn list_valid<T: Ssz>(vs: Seq<T::V>) -> bool { forall|i: int| 0 <= i < vs.len() ==> T::valid(#[trigger] vs[i]) }

pub open spec fn list_wf<T: Ssz>(s: Seq<T>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).wf() }

pub proof fn lemma_list_wf<T: Ssz>(s: Seq<T>)
    requires list_wf(s), T::ok()
    ensures list_valid::<T>(vals(s))
{
    assert forall|i: int| 0 <= i < vals(s).len() implies T::valid(#[trigger] vals(s)[i]) by { s[i].law_wf(); }
}

pub proof fn lemma_lay_slots(s: Slot, n: nat)
    ensures lay_len(slots(s, n)) == n * s.1, s.0 || s.1 == 4 ==> lay_ok(slots(s, n)), s.0 ==> forall|i: int| 0 <= i < n ==> (#[trigger] slots(s, n)[i]).0
    decreases n
{
    if n > 0 {
        lemma_lay_slots(s, (n - 1) as nat);
        assert(slots(s, n) =~= slots(s, (n - 1) as nat).push(s));
        lemma_lay_push(slots(s, (n - 1) as nat), s);
        assert(n * s.1 == (n - 1) * s.1 + s.1) by (nonlinear_arith) requires n > 0;
    } else {
        assert(slots(s, n) =~= Seq::empty());
        assert(n * s.1 == 0) by (nonlinear_arith) requires n == 0;
    }
}

pub proof fn lemma_start_slots(s: Slot, n: nat, i: int)
    requires 0 <= i <= n
    ensures start(slots(s, n), i) == i * s.1
    decreases i
{
    if i > 0 {
        lemma_start_slots(s, n, i - 1);
        lemma_start(slots(s, n), i - 1);
        assert(i * s.1 == (i - 1) * s.1 + s.1) by (nonlinear_arith) requires i > 0;
    } else {
        if n > 0 { lemma_start(slots(s, n), 0); } else { lemma_lay_slots(s, n); lemma_start_mono(slots(s, n), 0, 0); }
        assert(i * s.1 == 0) by (nonlinear_arith) requires i == 0;
    }
}

pub proof fn lemma_next_fixed(b: Seq<u8>, l: Seq<Slot>, i: int)
    requires forall|k: int| 0 <= k < l.len() ==> (#[trigger] l[k]).0, 0 <= i <= l.len()
    ensures next_off(b, l, i) == b.len()
    decreases l.len() - i
{
    lemma_next_step(b, l, i);
    if i < l.len() { lemma_next_fixed(b, l, i + 1); }
}

/// a whole number of fixed-size items
pub proof fn lemma_split_fixed(b: Seq<u8>, k: nat)
    requires k > 0, b.len() % k == 0
    ensures split_ok(b, slots((true, k), b.len() / k))
{
    let n = b.len() / k;
    let l = slots((true, k), n);
    lemma_lay_slots((true, k), n);
    lemma_next_fixed(b, l, 0);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(b.len() as int, k as int);
    assert(n * k == b.len()) by (nonlinear_arith) requires b.len() == k * n + 0;
}

pub proof fn lemma_list_lay(fixed: bool, flen: nat, b: Seq<u8>)
    requires list_lay(fixed, flen, b) is Some, !fixed ==> flen == 4
    ensures ({
        let l = list_lay(fixed, flen, b).unwrap();
        &&& split_ok(b, l)
        &&& lay_ok(l)
        &&& forall|i: int| 0 <= i < l.len() ==> #[trigger] l[i] == (fixed, flen)
    })
{
    if b.len() == 0 {
        let l = Seq::<Slot>::empty();
        assert(lay_len(l) == 0);
        lemma_next_step(b, l, 0);
    } else if fixed {
        lemma_split_fixed(b, flen);
        lemma_lay_slots((true, flen), b.len() / flen);
    } else {
        lemma_lay_slots((false, 4), (off_at(b, 0) / 4) as nat);
    }
}

pub proof fn lemma_list_dec<T: Ssz>(b: Seq<u8>)
    requires list_dec::<T>(b) is Some, T::ok()
    ensures list_valid::<T>(list_dec::<T>(b).unwrap())
{
    T::law_flen();
    let l = list_lay(T::fixed(), T::flen(), b).unwrap();
    let vs = list_dec::<T>(b).unwrap();
    assert forall|i: int| 0 <= i < vs.len() implies T::valid(#[trigger] vs[i]) by {
        assert(T::dec(piece(b, l, i)) is Some);
        T::law_dec(piece(b, l, i));
    }
}

pub proof fn lemma_fits_parts<T: Ssz>(vs: Seq<T::V>)
    requires list_valid::<T>(vs), T::ok()
    ensures fits(parts_of::<T>(vs), slots((T::fixed(), T::flen()), vs.len()))
{
    T::law_flen();
    let ps = parts_of::<T>(vs);
    let l = slots((T::fixed(), T::flen()), vs.len());
    lemma_lay_slots((T::fixed(), T::flen()), vs.len());
    assert forall|i: int| 0 <= i < l.len() implies (#[trigger] ps[i]).0 == l[i].0 && (l[i].0 ==> ps[i].1.len() == l[i].1) by {
        assert(T::valid(vs[i]));
        T::law_len(vs[i]);
    }
}

/// length of the fixed part of a list
pub proof fn lemma_list_fl<T: Ssz>(vs: Seq<T::V>)
    requires list_valid::<T>(vs), T::ok()
    ensures
        fl(parts_of::<T>(vs)) == vs.len() * T::flen(),
        T::fixed() ==> list_enc::<T>(vs).len() == vs.len() * T::flen(),
        T::fixed() ==> list_enc::<T>(vs) == hd(parts_of::<T>(vs), fl(parts_of::<T>(vs)) as int),
        fl(parts_of::<T>(vs)) <= list_enc::<T>(vs).len(),
        list_enc::<T>(vs).len() == fl(parts_of::<T>(vs)) + tl(parts_of::<T>(vs)).len(),
{
    let ps = parts_of::<T>(vs);
    let s = (T::fixed(), T::flen());
    let n = vs.len() as int;
    lemma_fits_parts::<T>(vs);
    lemma_fits_len(ps, slots(s, vs.len()), n);
    lemma_lay_slots(s, vs.len());
    lemma_take_all(ps);
    lemma_start_slots(s, vs.len(), n);
    lemma_hd_len(ps, fl(ps) as int);
    if T::fixed() {
        lemma_tl_fixed(ps);
        assert(pack(ps) =~= hd(ps, fl(ps) as int));
    }
}

pub proof fn lemma_tl_fixed(ps: Seq<Part>)
    requires forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).0
    ensures tl(ps) == Seq::<u8>::empty()
    decreases ps.len()
{
    if ps.len() > 0 {
        assert forall|i: int| 0 <= i < ps.drop_last().len() implies (#[trigger] ps.drop_last()[i]).0 by { assert(ps[i].0); }
        lemma_tl_fixed(ps.drop_last());
        assert(ps.last().0) by { assert(ps[ps.len() - 1].0); }
        assert(tl(ps) =~= Seq::<u8>::empty());
    }
}

pub proof fn lemma_list_rt<T: Ssz>(vs: Seq<T::V>)
    requires list_rt::<T>(), list_valid::<T>(vs), T::ok(), list_enc::<T>(vs).len() < pow32()
    ensures list_dec::<T>(list_enc::<T>(vs)) == Some(vs)
{
    T::law_flen();
    let ps = parts_of::<T>(vs);
    let n = vs.len();
    let s = (T::fixed(), T::flen());
    let l = slots(s, n);
    let b = pack(ps);
    let k = T::flen();
    lemma_fits_parts::<T>(vs);
    lemma_list_fl::<T>(vs);
    lemma_split_of_pack(ps, l);
    assert forall|i: int| 0 <= i < n implies #[trigger] T::dec(piece(b, l, i)) == Some(vs[i]) by {
        assert(piece(b, l, i) == ps[i].1);
        assert(T::valid(vs[i]));
        lemma_part_len(ps, i);
        T::law_rt(vs[i]);
    }
    if n == 0 {
        assert(b.len() == 0) by { assert(ps =~= Seq::empty()); assert(pack(ps).len() == 0) by { lemma_empty_parts(fl(ps) as int); } }
        assert(l =~= Seq::empty());
    } else if T::fixed() {
        assert(b.len() == n * k);
        assert(b.len() > 0 && b.len() % k == 0 && b.len() / k == n) by {
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(b.len() as int, k as int, n as int, 0);
            assert(n * k > 0) by (nonlinear_arith) requires n > 0, k > 0;
        }
    } else {
        lemma_start_slots(s, n, 0);
        assert(!l[0].0);
        lemma_next_step(b, l, 0);
        assert(next_off(b, l, 0) == word(b, l, 0));
        lemma_lay_slots(s, n);
        lemma_list_first(b, l);
    }
    let got = list_lay(T::fixed(), T::flen(), b).unwrap();
    assert(got =~= l);
    assert(items_of::<T>(b, l) =~= vs);
}

pub proof fn lemma_list_first(b: Seq<u8>, l: Seq<Slot>)
    requires l.len() > 0, !l[0].0
    ensures word(b, l, 0) == off_at(b, 0)
{
    lemma_start(l, 0);
}

pub proof fn lemma_list_strict<T: Ssz>(b: Seq<u8>)
    requires T::strict(), T::ok(), list_dec::<T>(b) is Some
    ensures list_enc::<T>(list_dec::<T>(b).unwrap()) == b
{
    T::law_flen();
    let l = list_lay(T::fixed(), T::flen(), b).unwrap();
    let vs = items_of::<T>(b, l);
    lemma_list_lay(T::fixed(), T::flen(), b);
    assert forall|i: int| 0 <= i < l.len() implies parts_of::<T>(vs)[i] == #[trigger] pieces_of(b, l)[i] by {
        assert(T::dec(piece(b, l, i)) is Some);
        T::law_strict(piece(b, l, i));
        assert(l[i] == (T::fixed(), T::flen()));
    }
    assert(parts_of::<T>(vs) =~= pieces_of(b, l));
    lemma_pack_of_split(b, l);
}

// --- references: encoded as what they refer to ---------------------------------------------------------------------
impl<'a, T: Ssz> Ssz for &'a T {
    type V = T::V;
    open spec fn v(&self) -> T::V { (**self).v() }
    open spec fn wf(&self) -> bool { (**self).wf() }
    open spec fn valid(v: T::V) -> bool { T::valid(v) }
    open spec fn ok() -> bool { T::ok() }
    open spec fn fixed() -> bool { T::fixed() }
    open spec fn flen() -> nat { T::flen() }
    open spec fn enc(v: T::V) -> Seq<u8> { T::enc(v) }
    open spec fn dec(b: Seq<u8>) -> Option<T::V> { T::dec(b) }
    open spec fn rt() -> bool { T::rt() }
    open spec fn strict() -> bool { T::strict() }
    proof fn law_wf(&self) { (**self).law_wf(); }
    proof fn law_len(v: T::V) { T::law_len(v); }
    proof fn law_flen() { T::law_flen(); }
    proof fn law_dec(b: Seq<u8>) { T::law_dec(b); }
    proof fn law_rt(v: T::V) { T::law_rt(v); }
    proof fn law_strict(b: Seq<u8>) { T::law_strict(b); }
}

/// `chunks` of a list of fixed-size items
pub proof fn lemma_chunks(b: Seq<u8>, k: int)
    requires k > 0, b.len() > 0
    ensures ({
        let n = (b.len() + k - 1) / k;
        let l = slots((true, k as nat), b.len() / k as nat);
        &&& n > 0
        &&& b.len() as int % k == 0 ==> n == b.len() / k as nat && split_ok(b, l) && forall|i: int| 0 <= i < n ==> #[trigger] piece(b, l, i) == chunk(b, k, i)
        &&& b.len() as int % k != 0 ==> chunk(b, k, n - 1).len() < k
        &&& b.len() as int % k == b.len() % k as nat
        &&& forall|i: int| 0 <= i < n ==> (#[trigger] chunk(b, k, i)).len() <= b.len()
    })
{
    let len = b.len() as int;
    let n = (len + k - 1) / k;
    let q = len / k;
    let r = len % k;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(len, k);
    assert(0 <= r < k) by (nonlinear_arith) requires r == len % k, k > 0;
    assert(len == q * k + r) by (nonlinear_arith) requires len == k * q + r;
    assert(len <= n * k && (n - 1) * k < len) by {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(len + k - 1, k);
        assert(0 <= (len + k - 1) % k < k) by (nonlinear_arith) requires k > 0;
        assert(n * k == k * n && (n - 1) * k == n * k - k) by (nonlinear_arith);
    }
    assert forall|i: int| 0 <= i < n implies (#[trigger] chunk(b, k, i)).len() <= b.len() by {
        assert(0 <= i * k <= (n - 1) * k) by (nonlinear_arith) requires 0 <= i <= n - 1, k > 0;
        assert((i + 1) * k == i * k + k) by (nonlinear_arith);
    }
    if r == 0 {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(len + k - 1, k, q, k - 1);
        assert(n == q);
        assert(q > 0) by (nonlinear_arith) requires len == q * k, len > 0, k > 0;
        let l = slots((true, k as nat), q as nat);
        lemma_split_fixed(b, k as nat);
        assert forall|i: int| 0 <= i < n implies #[trigger] piece(b, l, i) == chunk(b, k, i) by {
            lemma_start_slots((true, k as nat), q as nat, i);
            assert(i * k + k == (i + 1) * k) by (nonlinear_arith);
            assert((i + 1) * k <= len) by (nonlinear_arith) requires i + 1 <= q, len == q * k, k > 0;
        }
    } else {
        assert(len + k - 1 == (q + 1) * k + (r - 1)) by (nonlinear_arith) requires len == q * k + r;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(len + k - 1, k, q + 1, r - 1);
        assert(n == q + 1);
        assert(q >= 0) by (nonlinear_arith) requires len == q * k + r, r < k, len > 0, k > 0;
        assert((n - 1) * k == q * k);
        assert((n - 1 + 1) * k > len) by (nonlinear_arith) requires n == q + 1, len == q * k + r, r < k;
        assert((n - 1) * k >= 0) by (nonlinear_arith) requires n == q + 1, q >= 0, k > 0;
    }
}

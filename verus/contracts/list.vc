# lists

@@ raw
broadcast use { lemma_empty_parts, axiom_mem_limit, lemma_lay_push };

@@ impl Encode for &T

@@ raw
/// items `i..` of `all` are still to be written
pub open spec fn seq_parts<T: Ssz>(all: Seq<T>) -> Seq<Part> { parts_of::<T>(vals(all)) }

pub proof fn lemma_seq_take<T: Ssz>(all: Seq<T>, i: int)
    requires 0 <= i < all.len()
    ensures seq_parts(all).take(i + 1) == seq_parts(all).take(i).push(part::<T>(all[i].v())), seq_parts(all)[i] == part::<T>(all[i].v())
{
    assert(seq_parts(all).take(i + 1) =~= seq_parts(all).take(i).push(part::<T>(all[i].v())));
}

@@ fn sequence_ssz_append
@props C01 C03 C10 C19 C07
@generics <T: Encode>
@params iter: VIter<T>, buf: &mut Vec<u8>
@where
@spec
    requires T::ok(), iter.fresh(), list_wf(iter.all()), small(list_enc::<T>(vals(iter.all())).len())
    ensures final(buf)@ == old(buf)@ + list_enc::<T>(vals(iter.all()))
@start
    let ghost all = iter.all();
    let ghost ps = seq_parts(all);
    let ghost b0 = buf@;
    let ghost base = fl(ps) as int;
    proof {
        T::law_flen();
        lemma_max_length();
        lemma_list_wf(all);
        lemma_list_fl::<T>(vals(all));
        lemma_take_all(ps);
        assert(ps.take(0) =~= Seq::empty());
        lemma_empty_parts(base);
        assert(b0 + hd(ps.take(0), base) =~= b0);
        assert(T::flen() * all.len() == all.len() * T::flen()) by (nonlinear_arith);
    }
@loop 0
    invariant
        T::ok(), T::fixed(), list_wf(all), small(list_enc::<T>(vals(all)).len()), ps == seq_parts(all),
        v_it0.all() == all, v_it0.pos() <= all.len(),
        buf@ == b0 + hd(ps.take(v_it0.pos() as int), base),
    ensures v_it0.pos() == all.len()
    decreases all.len() - v_it0.pos()
@body 0
    proof {
        let k = v_it0.pos() as int;
        if k < all.len() {
            assert(all[k].wf());
            lemma_seq_take(all, k);
            lemma_part_len(ps, k);
            lemma_state_push(b0, ps.take(k), ps[k], base);
        }
    }
@before 1
    let ghost first = encoder;
@loop 1
    invariant
        T::ok(), !T::fixed(), list_wf(all), small(list_enc::<T>(vals(all)).len()), ps == seq_parts(all), base == fl(ps),
        v_it1.all() == all, v_it1.pos() <= all.len(),
        encoder.state(b0, ps.take(v_it1.pos() as int), base),
        encoder.same(&first),
    ensures v_it1.pos() == all.len()
    decreases all.len() - v_it1.pos()
@body 1
    proof {
        let k = v_it1.pos() as int;
        if k < all.len() {
            assert(all[k].wf());
            lemma_seq_take(all, k);
            lemma_part_len(ps, k);
        }
    }

@@ fn sequence_ssz_bytes_len
@props C07
@generics <T: Encode>
@params iter: VIter<T>
@where
@spec
    requires T::ok(), iter.fresh(), list_wf(iter.all()), small(list_enc::<T>(vals(iter.all())).len())
    ensures r == list_enc::<T>(vals(iter.all())).len()
@start
    let ghost all = iter.all();
    let ghost ps = seq_parts(all);
    proof {
        T::law_flen();
        lemma_max_length();
        lemma_list_wf(all);
        lemma_list_fl::<T>(vals(all));
        assert(T::flen() * all.len() == all.len() * T::flen()) by (nonlinear_arith);
        if !T::fixed() {
            assert forall|s: Seq<usize>| s.len() == all.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == T::enc(all[i].v()).len()) implies #[trigger] seq_sum(s) == tl(ps).len() by {
                lemma_sum_lens(all, s);
            }
        }
        assert forall|i: int| 0 <= i < all.len() implies (#[trigger] all[i]).wf() && small(T::enc(all[i].v()).len()) by {
            lemma_part_len(ps, i);
            assert(ps[i] == part::<T>(all[i].v()));
        }
    }
@closure 0
    |$0: T| -> (q: usize)
        requires T::ok(), $0.wf(), small(T::enc($0.v()).len())
        ensures q == T::enc($0.v()).len()

@@ raw
pub proof fn lemma_sum_lens<T: Ssz>(all: Seq<T>, s: Seq<usize>)
    requires !T::fixed(), s.len() == all.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == T::enc(all[i].v()).len()
    ensures seq_sum(s) == tl(seq_parts(all)).len()
    decreases all.len()
{
    let ps = seq_parts(all);
    if all.len() > 0 {
        lemma_sum_lens(all.drop_last(), s.drop_last());
        assert(seq_parts(all.drop_last()) =~= ps.drop_last());
        assert(ps.last() == part::<T>(all.last().v()));
        assert(s.last() == T::enc(all.last().v()).len());
    }
}

# ---------------------------------------------------------------------------------------------------------------
# collections a list is decoded into

@@ raw
use ::std::fmt::Debug;
#[derive(Debug)]
pub struct Infallible;

@@ trait TryFromIter
@super Sized
@items
    /// the collection takes these items
    spec fn accepts(items: Seq<T>) -> bool;
    /// this is what it makes of them
    spec fn holds(&self, items: Seq<T>) -> bool;
@@ fn TryFromIter::try_from_iter
@generics
@params iter: VIter<T>
@where
@spec
    requires iter.fresh(), iter.hint() matches Some(n) ==> n <= mem_limit()
    ensures r is Ok <==> Self::accepts(iter.all()), r is Ok ==> r->Ok_0.holds(iter.all())

@@ impl TryFromIter<T> for Vec<T>
@items
    open spec fn accepts(items: Seq<T>) -> bool { true }
    open spec fn holds(&self, items: Seq<T>) -> bool { self@ == items }
@@ fn TryFromIter<T> for Vec<T>::try_from_iter
@props C16 C06 C01 C02 C04 C19
@generics
@params values: VIter<T>
@where
@result v_r
@finish
    proof { assert(vec@ =~= values.all()); }

@@ raw
impl<T> VIter<T> {
    /// `TryCollect::try_collect`, which the code defines as exactly this call
    pub fn try_collect<C: TryFromIter<T>>(self) -> (r: Result<C, C::Error>)
        requires self.fresh(), self.hint() matches Some(n) ==> n <= mem_limit()
        ensures r is Ok <==> C::accepts(self.all()), r is Ok ==> r->Ok_0.holds(self.all())
    {
        C::try_from_iter(self)
    }
}

/// the input announces more items than the limit
pub open spec fn exceeds(b: Seq<u8>, max_len: Option<usize>) -> bool {
    b.len() >= 4 && (max_len matches Some(m) ==> off_at(b, 0) / 4 > m) && max_len is Some
}

/// `items` are the values of the list `b` serializes
pub open spec fn read<T: Ssz>(items: Seq<T>, b: Seq<u8>) -> bool {
    list_dec::<T>(b) == Some(vals(items)) && list_wf(items)
}

@@ raw
/// the first n items are decoded
pub open spec fn so_far<T: Ssz>(items: Seq<T>, b: Seq<u8>, l: Seq<Slot>, n: int) -> bool {
    items.len() == n && forall|i: int| 0 <= i < n ==> T::dec(#[trigger] piece(b, l, i)) == Some(items[i].v()) && items[i].wf()
}

@@ fn decode_list_of_variable_length_items
@props C02 C04 C05 C06 C09 C16 C19 C01
@generics <T: Decode, Container: TryFromIter<T>>
@spec
    requires
        bytes@.len() <= mem_limit(),
        !T::fixed(),
        // over the limit nothing may be decoded, so nothing is known of the item type then
        exceeds(bytes@, max_len) || T::ok()
    ensures
        exceeds(bytes@, max_len) ==> r is Err,
        r is Ok ==> exists|items: Seq<T>| read(items, bytes@) && #[trigger] Container::accepts(items) && r->Ok_0.holds(items),
        r is Err ==> exceeds(bytes@, max_len) || list_dec::<T>(bytes@) is None || exists|items: Seq<T>| read(items, bytes@) && !#[trigger] Container::accepts(items)
@start
    let ghost b = bytes@;
    let ghost gn = (off_at(b, 0) / 4) as nat;
    let ghost l = slots((false, 4), gn);
    proof {
        lemma_max_length();
        if b.len() >= 4 { lemma_un4(b.subrange(0, 4)); }
        lemma_lay_slots((false, 4), gn);
        if b.len() == 0 {
            assert(list_lay(T::fixed(), T::flen(), b) == Some(Seq::<Slot>::empty()));
            assert(items_of::<T>(b, Seq::<Slot>::empty()) =~= Seq::<T::V>::empty());
            assert(vals(Seq::<T>::empty()) =~= Seq::<T::V>::empty());
            assert(read(Seq::<T>::empty(), b));
        }
        if gn > 0 { assert(!l[0].0); lemma_list_first(b, l); lemma_next_step(b, l, 0); }
        if list_lay(false, 4, b) is Some && b.len() > 0 { assert(split_ok(b, l)); }
        if !exceeds(b, max_len) { T::law_flen(); }
    }
@loop 0
    invariant
        bytes@ == b, b.len() <= mem_limit(), b.len() >= 4, T::ok(), !T::fixed(), T::flen() == 4,
        gn == off_at(b, 0) / 4, off_at(b, 0) == 4 * gn, l == slots((false, 4), gn),
        num_items == gn, gn > 0, 4 * gn <= b.len(), first_offset == 4 * gn,
        v_it0.all().len() == gn, v_it0.pos() <= gn,
        forall|i: int| 0 <= i < gn ==> #[trigger] v_it0.all()[i] == 1 + i,
        BYTES_PER_LENGTH_OFFSET == 4,
        lay_len(l) == 4 * gn, l.len() == gn, !exceeds(b, max_len),
        forall|i: int| 0 <= i < gn ==> (#[trigger] l[i]) == (false, 4nat),
        so_far::<T>(v_items@, b, l, v_it0.pos() as int),
        forall|i: int| 0 <= i < v_it0.pos() ==> word(b, l, i) <= next_off(b, l, i + 1) || i + 1 == gn,
        v_it0.pos() < gn ==> offset == word(b, l, v_it0.pos() as int),
        v_it0.pos() == gn ==> word(b, l, gn - 1) <= b.len(),
    ensures v_it0.pos() == gn
    decreases gn - v_it0.pos()
@body 0
    let ghost k = v_it0.pos() as int;
    let ghost prev = v_items@;
    proof {
        if k < gn {
            lemma_start_slots((false, 4), gn, k);
            assert(l[k] == (false, 4nat));
            T::law_flen();
            if k + 1 < gn {
                lemma_start_slots((false, 4), gn, k + 1);
                lemma_un4(b.subrange(4 * (k + 1), 4 * (k + 1) + 4));
                assert(b.subrange(4 * (k + 1), b.len() as int).subrange(0, 4) =~= b.subrange(4 * (k + 1), 4 * (k + 1) + 4));
                assert(l[k + 1] == (false, 4nat));
            }
            lemma_next_step(b, l, k + 1);
            if split_ok(b, l) {
                lemma_split_bounds(b, l, k);
                lemma_split_mono(b, l, 0, k);
                if k + 1 < gn { lemma_split_bounds(b, l, k + 1); }
            }
            if list_dec::<T>(b) is Some {
                assert(list_lay(false, 4, b) == Some(l));
                assert(T::dec(piece(b, l, k)) is Some);
            }
        }
    }
@after 0
    proof {
        lemma_next_step(b, l, gn as int);
        assert(split_ok(b, l)) by {
            assert forall|i: int| 0 <= i < l.len() && !(#[trigger] l[i]).0 implies word(b, l, i) <= next_off(b, l, i + 1) by { }
        }
        assert(list_lay(false, 4, b) == Some(l));
        assert(items_of::<T>(b, l) =~= vals(v_items@));
        assert forall|i: int| 0 <= i < v_items@.len() implies (#[trigger] v_items@[i]).wf() by { assert(T::dec(piece(b, l, i)) == Some(v_items@[i].v())); }
        assert(list_dec::<T>(b) == Some(vals(v_items@)));
        assert(read(v_items@, b));
    }

@@ raw
/// lists of fixed-size items: decoding the chunks decodes the list
pub proof fn lemma_chunks_read<T: Ssz>(b: Seq<u8>)
    requires b.len() > 0, T::fixed(), T::ok()
    ensures
        T::flen() == 0 ==> list_dec::<T>(b) is None,
        T::flen() > 0 ==> {
            let n = (b.len() + T::flen() - 1) / T::flen() as int;
            &&& n > 0
            &&& forall|items: Seq<T>| items.len() == n && list_wf(items) && (forall|i: int| 0 <= i < n ==> T::dec(chunk(b, T::flen() as int, i)) == Some((#[trigger] items[i]).v())) ==> #[trigger] vals(items) == vals(items) && list_dec::<T>(b) == Some(vals(items))
            &&& forall|i: int| 0 <= i < n ==> (#[trigger] chunk(b, T::flen() as int, i)).len() <= b.len()
            &&& (exists|i: int| 0 <= i < n && T::dec(#[trigger] chunk(b, T::flen() as int, i)) is None) ==> list_dec::<T>(b) is None
        },
{
    T::law_flen();
    let k = T::flen() as int;
    if k > 0 {
        lemma_chunks(b, k);
        let n = (b.len() + k - 1) / k;
        let l = slots((true, k as nat), b.len() / k as nat);
        assert forall|items: Seq<T>| items.len() == n && list_wf(items) && (forall|i: int| 0 <= i < n ==> T::dec(chunk(b, k, i)) == Some((#[trigger] items[i]).v())) implies #[trigger] vals(items) == vals(items) && list_dec::<T>(b) == Some(vals(items)) by {
            assert(T::dec(chunk(b, k, n - 1)) == Some(items[n - 1].v()));
            T::law_dec(chunk(b, k, n - 1));
            assert forall|i: int| 0 <= i < l.len() implies T::dec(#[trigger] piece(b, l, i)) == Some(items[i].v()) by { assert(T::dec(chunk(b, k, i)) == Some(items[i].v())); }
            assert(items_of::<T>(b, l) =~= vals(items));
        }
        if exists|i: int| 0 <= i < n && T::dec(#[trigger] chunk(b, k, i)) is None {
            let i = choose|i: int| 0 <= i < n && T::dec(#[trigger] chunk(b, k, i)) is None;
            if list_dec::<T>(b) is Some {
                assert(T::dec(piece(b, l, i)) is Some);
            }
        }
    }
}

impl<T: Ssz> Ssz for Vec<T> {
    type V = Seq<T::V>;
    open spec fn v(&self) -> Seq<T::V> { vals(self@) }
    open spec fn wf(&self) -> bool { list_wf(self@) }
    open spec fn valid(v: Seq<T::V>) -> bool { list_valid::<T>(v) }
    open spec fn ok() -> bool { T::ok() }
    open spec fn fixed() -> bool { false }
    open spec fn flen() -> nat { 4 }
    open spec fn enc(v: Seq<T::V>) -> Seq<u8> { list_enc::<T>(v) }
    open spec fn dec(b: Seq<u8>) -> Option<Seq<T::V>> { list_dec::<T>(b) }
    open spec fn rt() -> bool { list_rt::<T>() }
    open spec fn strict() -> bool { T::strict() }
    proof fn law_wf(&self) { lemma_list_wf(self@); }
    proof fn law_len(v: Seq<T::V>) { }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) { lemma_list_dec::<T>(b); }
    proof fn law_rt(v: Seq<T::V>) { lemma_list_rt::<T>(v); }
    proof fn law_strict(b: Seq<u8>) { lemma_list_strict::<T>(b); }
}

pub proof fn lemma_iter_vals<T: Ssz>(s: Seq<T>)
    ensures vals(Seq::new(s.len(), |i: int| &s[i])) == vals(s), list_wf(s) ==> list_wf(Seq::new(s.len(), |i: int| &s[i])), list_enc::<&T>(vals(s)) == list_enc::<T>(vals(s))
{
    assert(vals(Seq::new(s.len(), |i: int| &s[i])) =~= vals(s));
    assert(parts_of::<&T>(vals(s)) =~= parts_of::<T>(vals(s)));
}

pub proof fn lemma_empty_list<T: Ssz>()
    ensures list_dec::<T>(Seq::<u8>::empty()) == Some(Seq::<T::V>::empty()), vals(Seq::<T>::empty()) == Seq::<T::V>::empty(), list_wf(Seq::<T>::empty())
{
    let b = Seq::<u8>::empty();
    assert(items_of::<T>(b, Seq::<Slot>::empty()) =~= Seq::<T::V>::empty());
    assert(vals(Seq::<T>::empty()) =~= Seq::<T::V>::empty());
}

@@ impl Encode for Vec<T>
@@ fn Encode for Vec<T>::ssz_append
@props C01 C03 C10
@start
    proof { lemma_iter_vals(self@); }
@@ fn Encode for Vec<T>::ssz_bytes_len
@props C07
@start
    proof { lemma_iter_vals(self@); }
@@ fn Encode for Vec<T>::as_ssz_bytes
@result v_r
@finish
    proof { assert(v_r@ =~= Self::enc(self.v())); }

@@ impl Decode for Vec<T>
@@ fn Decode for Vec<T>::from_ssz_bytes
@props C01 C02 C04 C05 C06
@start
    proof {
        T::law_flen();
        assert(bytes@.len() == 0 ==> bytes@ =~= Seq::<u8>::empty());
        lemma_empty_list::<T>();
        if bytes@.len() > 0 && T::fixed() { lemma_chunks_read::<T>(bytes@); }
    }
@closure 0
    |$0: &[u8]| -> (q: Result<T, DecodeError>)
        requires T::ok(), $0@.len() <= mem_limit()
        ensures q is Ok ==> T::dec($0@) == Some(q->Ok_0.v()) && q->Ok_0.wf(), q is Err ==> T::dec($0@) is None

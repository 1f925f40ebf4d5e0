# the generic decoder: SszDecoderBuilder registers a layout, SszDecoder hands out the pieces

@@ raw
broadcast use { lemma_lay_push, axiom_mem_limit };

impl<'a> SszDecoderBuilder<'a> {
    /// item k has an offset word
    pub open spec fn var(&self, k: int) -> bool { exists|j: int| 0 <= j < self.offsets@.len() && (#[trigger] self.offsets@[j]).position == k }

    /// the layout registered so far
    pub open spec fn lay(&self) -> Seq<Slot> {
        Seq::new(self.items@.len(), |k: int| if self.var(k) { (false, 4nat) } else { (true, self.items@[k]@.len()) })
    }

    pub open spec fn wf(&self) -> bool {
        let l = self.lay();
        let b = self.bytes@;
        &&& self.items_index == lay_len(l)
        &&& b.len() <= mem_limit()
        &&& prefix_ok(b, l)
        &&& self.offsets@.len() == rank(l, l.len() as int)
        &&& forall|j: int| 0 <= j < self.offsets@.len() ==> self.entry(l, j)
        &&& forall|k: int| 0 <= k < l.len() && !(#[trigger] l[k]).0 ==> self.offsets@[rank(l, k) as int].position == k
        &&& forall|k: int| 0 <= k < l.len() && (#[trigger] l[k]).0 ==> self.items@[k]@ == piece(b, l, k)
    }

    /// offset entry j
    pub open spec fn entry(&self, l: Seq<Slot>, j: int) -> bool {
        let o = self.offsets@[j];
        o.position < l.len() && !l[o.position as int].0 && rank(l, o.position as int) == j && o.offset == word(self.bytes@, l, o.position as int)
    }
}

/// one more item
pub proof fn lemma_lay_step(b: Seq<u8>, l: Seq<Slot>, s: Slot)
    requires prefix_ok(b, l), lay_ok(l)
    ensures
        s.0 ==> (prefix_ok(b, l.push(s)) <==> lay_len(l) + s.1 <= b.len()),
        !s.0 && s.1 == 4 && lay_len(l) + 4 <= b.len() ==> (prefix_ok(b, l.push(s)) <==> {
            let w = off_at(b, lay_len(l) as int);
            w <= b.len() && forall|i: int| 0 <= i < l.len() && !(#[trigger] l[i]).0 ==> word(b, l, i) <= w
        }),
        !s.0 && s.1 == 4 && lay_len(l) + 4 > b.len() ==> !prefix_ok(b, l.push(s)),
        lay_len(l.push(s)) == lay_len(l) + s.1,
        lay_ok(l.push(s)) <==> s.0 || s.1 == 4,
        start(l.push(s), l.len() as int) == lay_len(l),
{
    let m = l.push(s);
    let n = l.len() as int;
    lemma_lay_push(l, s);
    assert forall|i: int| 0 <= i < n implies start(m, i) == start(l, i) && m[i] == l[i] by { lemma_start_push(l, s, i); }
    lemma_start_last(l, s);
    assert(m[n] == s);
    if lay_ok(m) { assert(m[n].0 || m[n].1 == 4); }
    if s.0 {
        if lay_len(l) + s.1 <= b.len() {
            assert forall|i: int| 0 <= i < m.len() && !(#[trigger] m[i]).0 implies word(b, m, i) <= b.len() by { assert(!l[i].0); }
            assert forall|i: int, j: int| 0 <= i < j < m.len() && !(#[trigger] m[i]).0 && !(#[trigger] m[j]).0 implies word(b, m, i) <= word(b, m, j) by { assert(!l[i].0 && !l[j].0); }
        }
    } else if s.1 == 4 && lay_len(l) + 4 <= b.len() {
        let w = off_at(b, lay_len(l) as int);
        assert(word(b, m, n) == w);
        if prefix_ok(b, m) {
            assert(!m[n].0);
            assert forall|i: int| 0 <= i < l.len() && !(#[trigger] l[i]).0 implies word(b, l, i) <= w by { assert(!m[i].0); }
        }
        if w <= b.len() && forall|i: int| 0 <= i < l.len() && !(#[trigger] l[i]).0 ==> word(b, l, i) <= w {
            assert forall|i: int| 0 <= i < m.len() && !(#[trigger] m[i]).0 implies word(b, m, i) <= b.len() by { if i < n { assert(!l[i].0); } }
            assert forall|i: int, j: int| 0 <= i < j < m.len() && !(#[trigger] m[i]).0 && !(#[trigger] m[j]).0 implies word(b, m, i) <= word(b, m, j) by { assert(!l[i].0); if j < n { assert(!l[j].0); } }
        }
    }
}

/// the last offset bounds them all
pub proof fn lemma_last(bd: &SszDecoderBuilder, w: int)
    requires bd.wf()
    ensures
        bd.offsets@.len() > 0 ==> ((forall|i: int| 0 <= i < bd.lay().len() && !(#[trigger] bd.lay()[i]).0 ==> word(bd.bytes@, bd.lay(), i) <= w) <==> bd.offsets@.last().offset <= w),
        bd.offsets@.len() == 0 ==> forall|i: int| 0 <= i < bd.lay().len() ==> (#[trigger] bd.lay()[i]).0,
        lay_ok(bd.lay()),
{
    let l = bd.lay();
    let b = bd.bytes@;
    let n = bd.offsets@.len() as int;
    if n > 0 {
        let o = bd.offsets@[n - 1];
        let p = o.position as int;
        assert(bd.entry(l, n - 1));
        assert(!l[p].0);
        assert forall|i: int| 0 <= i < l.len() && !(#[trigger] l[i]).0 && o.offset <= w implies word(b, l, i) <= w by {
            if i < p { } else if i > p {
                lemma_rank_mono(l, p, i);
                lemma_rank_mono(l, i, l.len() as int);
            }
        }
    } else {
        assert forall|i: int| 0 <= i < l.len() implies (#[trigger] l[i]).0 by { lemma_rank_mono(l, i, l.len() as int); }
    }
}

@@ fn SszDecoderBuilder<>::new
@props C05 C06 C09
@spec
    requires bytes@.len() <= mem_limit()
    ensures r.bytes@ == bytes@, r.wf(), r.lay() == Seq::<Slot>::empty()
@result v_r
@finish
    proof { assert(v_r.lay() =~= Seq::<Slot>::empty()); lemma_rank(v_r.lay(), 0); }

@@ fn SszDecoderBuilder<>::register_type
@props C02 C04 C05 C06 C08 C09 C01 C17
@spec
    requires T::ok(), old(self).wf()
    ensures
        final(self).bytes@ == old(self).bytes@,
        r is Ok ==> final(self).wf() && final(self).lay() == old(self).lay().push(slot::<T>()),
        r is Err ==> !prefix_ok(old(self).bytes@, old(self).lay().push(slot::<T>()))
@start
    proof { T::law_flen(); }

@@ raw
/// the fields of `o` and `n` agree with one more item of kind `s` registered
pub open spec fn stepped(o: &SszDecoderBuilder, n: &SszDecoderBuilder, s: Slot) -> bool {
    let l = o.lay();
    let b = o.bytes@;
    let k = l.len() as int;
    &&& n.bytes@ == b
    &&& n.items_index == lay_len(l) + s.1
    &&& n.items@.len() == k + 1
    &&& n.items@.take(k) == o.items@
    &&& s.0 ==> lay_len(l) + s.1 <= b.len() && n.offsets@ == o.offsets@ && n.items@[k]@ == b.subrange(lay_len(l) as int, lay_len(l) + s.1 as int)
    &&& !s.0 ==> s.1 == 4 && n.offsets@.len() == o.offsets@.len() + 1 && n.offsets@.take(o.offsets@.len() as int) == o.offsets@
        && n.offsets@.last().position == k && n.offsets@.last().offset == off_at(b, lay_len(l) as int)
}

pub proof fn lemma_stepped_lay(o: &SszDecoderBuilder, n: &SszDecoderBuilder, s: Slot)
    requires o.wf(), stepped(o, n, s)
    ensures n.lay() == o.lay().push(s)
{
    hide(prefix_ok);
    hide(off_at);
    let l = o.lay();
    let k = l.len() as int;
    assert forall|j: int| 0 <= j < o.offsets@.len() implies n.offsets@[j] == o.offsets@[j] by {
        assert(n.offsets@.take(o.offsets@.len() as int)[j] == n.offsets@[j]);
    }
    assert forall|i: int| 0 <= i < k implies n.var(i) == o.var(i) && n.items@[i] == o.items@[i] by {
        assert(n.items@.take(k)[i] == n.items@[i]);
        if o.var(i) {
            let j = choose|j: int| 0 <= j < o.offsets@.len() && (#[trigger] o.offsets@[j]).position == i;
            assert(n.offsets@[j].position == i);
        }
        if n.var(i) {
            let j = choose|j: int| 0 <= j < n.offsets@.len() && (#[trigger] n.offsets@[j]).position == i;
            assert(o.offsets@[j].position == i);
        }
    }
    if s.0 {
        if n.var(k) {
            let j = choose|j: int| 0 <= j < n.offsets@.len() && (#[trigger] n.offsets@[j]).position == k;
            assert(o.entry(l, j));
        }
    } else {
        assert(n.offsets@[n.offsets@.len() - 1].position == k);
        assert(n.var(k));
    }
    assert(n.lay() =~= l.push(s));
}

pub proof fn lemma_stepped(o: &SszDecoderBuilder, n: &SszDecoderBuilder, s: Slot)
    requires o.wf(), stepped(o, n, s), prefix_ok(o.bytes@, o.lay().push(s))
    ensures n.wf(), n.lay() == o.lay().push(s)
{
    hide(prefix_ok);
    hide(off_at);
    hide(SszDecoderBuilder::lay);
    let l = o.lay();
    let b = o.bytes@;
    let k = l.len() as int;
    let m = l.push(s);
    lemma_stepped_lay(o, n, s);
    lemma_lay_push(l, s);
    lemma_start_last(l, s);
    assert forall|i: int| 0 <= i <= k implies rank(m, i) == rank(l, i) && start(m, i) == start(l, i) by {
        lemma_rank_push(l, s, i);
        lemma_start_push(l, s, i);
    }
    lemma_rank(m, k);
    assert forall|j: int| 0 <= j < o.offsets@.len() implies n.offsets@[j] == o.offsets@[j] by {
        assert(n.offsets@.take(o.offsets@.len() as int)[j] == n.offsets@[j]);
    }
    assert forall|j: int| 0 <= j < n.offsets@.len() implies n.entry(m, j) by {
        if j < o.offsets@.len() { assert(o.entry(l, j)); } else { assert(n.offsets@.last() == n.offsets@[j]); }
    }
    assert forall|i: int| 0 <= i < m.len() && !(#[trigger] m[i]).0 implies n.offsets@[rank(m, i) as int].position == i by {
        if i < k {
            assert(!l[i].0);
            lemma_rank_mono(l, i, k);
        }
    }
    assert forall|i: int| 0 <= i < m.len() && (#[trigger] m[i]).0 implies n.items@[i]@ == piece(b, m, i) by {
        if i < k {
            assert(l[i].0);
            assert(n.items@.take(k)[i] == n.items@[i]);
        }
    }
}

@@ fn SszDecoderBuilder<>::register_type_parameterized
@props C02 C04 C05 C06 C08 C09 C01 C17
@spec
    requires old(self).wf()
    ensures
        final(self).bytes@ == old(self).bytes@,
        r is Ok ==> final(self).wf() && final(self).lay() == old(self).lay().push(if is_ssz_fixed_len { (true, ssz_fixed_len as nat) } else { (false, 4nat) }),
        r is Err ==> !prefix_ok(old(self).bytes@, old(self).lay().push(if is_ssz_fixed_len { (true, ssz_fixed_len as nat) } else { (false, 4nat) }))
@start
    let ghost gb = self.bytes@;
    let ghost gl = self.lay();
    let ghost gs: Slot = if is_ssz_fixed_len { (true, ssz_fixed_len as nat) } else { (false, 4nat) };
    proof {
        lemma_last(self, 0);
        lemma_lay_step(gb, gl, gs);
        lemma_max_length();
        if self.items_index + 4 <= gb.len() {
            lemma_un4(gb.subrange(self.items_index as int, self.items_index + 4));
            lemma_last(self, off_at(gb, self.items_index as int));
            assert(gb.subrange(self.items_index as int, gb.len() as int).subrange(0, 4) =~= gb.subrange(self.items_index as int, self.items_index + 4));
        }
    }
@result v_r
@finish
    proof {
        if v_r is Ok {
            assert(self.items@.take(gl.len() as int) =~= old(self).items@);
            assert(self.offsets@.take(old(self).offsets@.len() as int) =~= old(self).offsets@);
            assert(stepped(old(self), self, gs));
            lemma_stepped(old(self), self, gs);
        }
    }

@@ raw
/// the decoder's items are the pieces of the input
pub open spec fn pieces(items: Seq<&[u8]>, b: Seq<u8>, l: Seq<Slot>) -> bool {
    items.len() == l.len() && forall|k: int| 0 <= k < l.len() ==> (#[trigger] items[k])@ == piece(b, l, k)
}

/// where the next variable part starts, in terms of the recorded offsets
pub proof fn lemma_next(bd: &SszDecoderBuilder, i: int)
    requires bd.wf(), 0 <= i <= bd.lay().len()
    ensures
        next_off(bd.bytes@, bd.lay(), i) == (if rank(bd.lay(), i) < bd.offsets@.len() { bd.offsets@[rank(bd.lay(), i) as int].offset as int } else { bd.bytes@.len() as int }),
    decreases bd.lay().len() - i
{
    let l = bd.lay();
    lemma_next_step(bd.bytes@, l, i);
    lemma_rank_mono(l, i, l.len() as int);
    if i < l.len() {
        lemma_next(bd, i + 1);
        lemma_rank(l, i);
        if !l[i].0 {
            lemma_rank_mono(l, i, l.len() as int);
            assert(bd.entry(l, rank(l, i) as int));
        }
    }
}

pub proof fn lemma_finalize(bd: &SszDecoderBuilder)
    requires bd.wf()
    ensures
        bd.offsets@.len() > 0 ==> (split_ok(bd.bytes@, bd.lay()) <==> bd.offsets@[0].offset == bd.items_index),
        bd.offsets@.len() == 0 ==> (split_ok(bd.bytes@, bd.lay()) <==> bd.bytes@.len() == bd.items_index),
{
    let l = bd.lay();
    let b = bd.bytes@;
    lemma_next(bd, 0);
    lemma_rank(l, 0);
    assert forall|i: int| 0 <= i < l.len() && !(#[trigger] l[i]).0 implies word(b, l, i) <= next_off(b, l, i + 1) by {
        lemma_next(bd, i + 1);
        lemma_rank(l, i);
        lemma_rank_mono(l, i, l.len() as int);
        let j = rank(l, i) as int;
        if j + 1 < bd.offsets@.len() {
            assert(bd.entry(l, j + 1));
            let p = bd.offsets@[j + 1].position as int;
            assert(!l[p].0);
            if p <= i { lemma_rank_mono(l, p, i); }
        }
    }
}

/// offset entry j delimits the piece of its item
pub proof fn lemma_entry(bd: &SszDecoderBuilder, j: int)
    requires bd.wf(), split_ok(bd.bytes@, bd.lay()), 0 <= j < bd.offsets@.len()
    ensures ({
        let o = bd.offsets@[j];
        let e = if j + 1 < bd.offsets@.len() { bd.offsets@[j + 1].offset as int } else { bd.bytes@.len() as int };
        &&& o.position < bd.lay().len()
        &&& o.offset <= e <= bd.bytes@.len()
        &&& piece(bd.bytes@, bd.lay(), o.position as int) == bd.bytes@.subrange(o.offset as int, e)
        &&& forall|k: int| 0 <= k < bd.lay().len() && !(#[trigger] bd.lay()[k]).0 && rank(bd.lay(), k) == j ==> k == o.position
        &&& !bd.lay()[o.position as int].0
    })
{
    let l = bd.lay();
    let b = bd.bytes@;
    let o = bd.offsets@[j];
    let p = o.position as int;
    assert(bd.entry(l, j));
    lemma_next(bd, p + 1);
    lemma_rank(l, p);
    lemma_split_mono(b, l, p + 1, l.len() as int);
    assert(word(b, l, p) <= next_off(b, l, p + 1));
}

@@ fn SszDecoderBuilder<>::finalize
@props C02 C04 C05 C06 C08 C09 C01 C17
@spec
    requires old(self).wf()
    ensures
        final(self).bytes@ == old(self).bytes@,
        r is Ok <==> split_ok(old(self).bytes@, old(self).lay()),
        r is Ok ==> pieces(final(self).items@, old(self).bytes@, old(self).lay())
@start
    let ghost gb = self.bytes@;
    let ghost gl = self.lay();
    let ghost gn = gl.len() as int;
    let ghost offs = self.offsets@;
    proof {
        lemma_finalize(self);
        if offs.len() > 0 && split_ok(gb, gl) { lemma_entry(self, offs.len() - 1); }
        if offs.len() == 0 { lemma_last(self, 0); }
    }
@loop 0
    invariant
        old(self).wf(), gb == old(self).bytes@, gl == old(self).lay(), gn == gl.len(), offs == old(self).offsets@,
        self.offsets@ == offs, self.bytes@ == gb,
        offs.len() > 0, split_ok(gb, gl),
        self.items@.len() == gn,
        v_it0.pos() <= v_it0.all().len(),
        v_it0.all().len() == offs.len() - 1,
        forall|i: int| 0 <= i < v_it0.all().len() ==> (#[trigger] v_it0.all()[i])@ == offs.subrange(i, i + 2),
        forall|k: int| 0 <= k < gn && ((#[trigger] gl[k]).0 || rank(gl, k) < v_it0.pos()) ==> self.items@[k]@ == piece(gb, gl, k),
    ensures v_it0.pos() == offs.len() - 1
    decreases v_it0.all().len() - v_it0.pos()
@body 0
    let ghost its = self.items@;
    let ghost gj = v_it0.pos() as int;
    proof {
        if gj < offs.len() - 1 { lemma_entry(&*old(self), gj); assert(v_it0.all()[gj]@[0] == offs[gj] && v_it0.all()[gj]@[1] == offs[gj + 1]); }
    }
@finish tail
    proof {
        assert forall|k: int| 0 <= k < gn implies (#[trigger] self.items@[k])@ == piece(gb, gl, k) by {
            if !gl[k].0 { lemma_rank_mono(gl, k, gn); } else { assert(gl[k].0); }
        }
    }

@@ raw
/// the rest of the items, from item k on, are still to be decoded
impl<'a> SszDecoder<'a> {
    pub open spec fn at(&self, b: Seq<u8>, l: Seq<Slot>, k: int) -> bool {
        &&& 0 <= k <= l.len()
        &&& self.items@.len() == l.len() - k
        &&& forall|i: int| 0 <= i < l.len() - k ==> (#[trigger] self.items@[i])@ == piece(b, l, k + i)
    }
}

@@ fn SszDecoderBuilder<>::build
@props C02 C04 C05 C06 C08 C09 C01 C17
@spec
    requires self.wf()
    ensures
        r is Ok <==> split_ok(self.bytes@, self.lay()),
        r is Ok ==> pieces(r->Ok_0.items@, self.bytes@, self.lay()) && r->Ok_0.at(self.bytes@, self.lay(), 0)

@@ fn SszDecoder<>::decode_next_with
@props C02 C04 C05 C06 C08 C09 C01 C17
@spec
    requires old(self).items@.len() > 0, f.requires((old(self).items@[0],))
    ensures
        final(self).items@ == old(self).items@.remove(0), f.ensures((old(self).items@[0],), r),
        forall|b: Seq<u8>, l: Seq<Slot>, k: int| #[trigger] old(self).at(b, l, k) ==> final(self).at(b, l, k + 1)

@@ fn SszDecoder<>::decode_next
@props C02 C04 C05 C06 C08 C09 C01 C17
@spec
    requires T::ok(), old(self).items@.len() > 0, old(self).items@[0]@.len() <= mem_limit()
    ensures
        final(self).items@ == old(self).items@.remove(0),
        r is Ok ==> T::dec(old(self).items@[0]@) == Some(r->Ok_0.v()) && r->Ok_0.wf(),
        r is Err ==> T::dec(old(self).items@[0]@) is None,
        forall|b: Seq<u8>, l: Seq<Slot>, k: int| #[trigger] old(self).at(b, l, k) ==> final(self).at(b, l, k + 1)
@closure 0
    |$0: &'a [u8]| -> (q: Result<T, DecodeError>)
        requires T::ok(), $0@.len() <= mem_limit()
        ensures q is Ok ==> T::dec($0@) == Some(q->Ok_0.v()) && q->Ok_0.wf(), q is Err ==> T::dec($0@) is None

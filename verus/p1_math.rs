// ---------------------------------------------------------------------------------------------------------------
// Offset words
// ---------------------------------------------------------------------------------------------------------------
pub open spec fn pow32() -> int { 0x1_0000_0000 }

pub open spec fn le4(n: int) -> Seq<u8> {
    seq![(n % 256) as u8, (n / 256 % 256) as u8, (n / 65536 % 256) as u8, (n / 16777216 % 256) as u8]
}

pub open spec fn un4(s: Seq<u8>) -> int {
    s[0] as int + 256 * s[1] as int + 65536 * s[2] as int + 16777216 * s[3] as int
}

pub broadcast proof fn lemma_le4(n: int)
    ensures (#[trigger] le4(n)).len() == 4, 0 <= n < pow32() ==> un4(le4(n)) == n
{
}

pub proof fn lemma_un4(s: Seq<u8>)
    requires s.len() == 4
    ensures 0 <= un4(s) < pow32(), le4(un4(s)) == s
{
    let n = un4(s);
    let c0 = s[0] as int;
    let c1 = s[1] as int;
    let c2 = s[2] as int;
    let c3 = s[3] as int;
    assert(n == c0 + 256 * (c1 + 256 * c2 + 65536 * c3));
    assert(n % 256 == c0 && n / 256 == c1 + 256 * c2 + 65536 * c3);
    assert(n / 256 == c1 + 256 * (c2 + 256 * c3));
    assert(n / 256 % 256 == c1);
    assert(n == (c0 + 256 * c1) + 65536 * (c2 + 256 * c3));
    assert(n / 65536 == c2 + 256 * c3);
    assert(n / 65536 % 256 == c2);
    assert(n == (c0 + 256 * c1 + 65536 * c2) + 16777216 * c3);
    assert(n / 16777216 == c3);
    assert(n / 16777216 % 256 == c3);
    assert(le4(n) =~= s);
}

pub open spec fn off_at(b: Seq<u8>, at: int) -> int { un4(b.subrange(at, at + 4)) }

// ---------------------------------------------------------------------------------------------------------------
// Encoding: a container is the list of the encodings of its items, each marked fixed-size or not
// ---------------------------------------------------------------------------------------------------------------
pub type Part = (bool, Seq<u8>);

/// length of the fixed part
pub open spec fn fl(ps: Seq<Part>) -> nat
    decreases ps.len()
{
    if ps.len() == 0 { 0 } else { fl(ps.drop_last()) + (if ps.last().0 { ps.last().1.len() } else { 4 }) }
}

/// the variable part
pub open spec fn tl(ps: Seq<Part>) -> Seq<u8>
    decreases ps.len()
{
    if ps.len() == 0 { Seq::empty() } else { tl(ps.drop_last()) + (if ps.last().0 { Seq::empty() } else { ps.last().1 }) }
}

/// the fixed part, when it is `base` bytes long
pub open spec fn hd(ps: Seq<Part>, base: int) -> Seq<u8>
    decreases ps.len()
{
    if ps.len() == 0 { Seq::empty() } else {
        hd(ps.drop_last(), base) + (if ps.last().0 { ps.last().1 } else { le4(base + tl(ps.drop_last()).len()) })
    }
}

pub open spec fn pack(ps: Seq<Part>) -> Seq<u8> { hd(ps, fl(ps) as int) + tl(ps) }

pub broadcast proof fn lemma_fl_push(ps: Seq<Part>, p: Part)
    ensures #[trigger] fl(ps.push(p)) == fl(ps) + (if p.0 { p.1.len() } else { 4 })
{
    assert(ps.push(p).drop_last() =~= ps);
}

pub broadcast proof fn lemma_tl_push(ps: Seq<Part>, p: Part)
    ensures #[trigger] tl(ps.push(p)) == tl(ps) + (if p.0 { Seq::empty() } else { p.1 })
{
    assert(ps.push(p).drop_last() =~= ps);
}

pub broadcast proof fn lemma_hd_push(ps: Seq<Part>, p: Part, base: int)
    ensures #[trigger] hd(ps.push(p), base) == hd(ps, base) + (if p.0 { p.1 } else { le4(base + tl(ps).len()) })
{
    assert(ps.push(p).drop_last() =~= ps);
}

pub broadcast proof fn lemma_empty_parts(base: int)
    ensures fl(Seq::<Part>::empty()) == 0, tl(Seq::<Part>::empty()) == Seq::<u8>::empty(), #[trigger] hd(Seq::<Part>::empty(), base) == Seq::<u8>::empty()
{
}

pub broadcast proof fn lemma_hd_len(ps: Seq<Part>, base: int)
    ensures (#[trigger] hd(ps, base)).len() == fl(ps)
    decreases ps.len()
{
    if ps.len() > 0 { lemma_hd_len(ps.drop_last(), base); }
}

pub proof fn lemma_take(ps: Seq<Part>, i: int)
    requires 0 <= i < ps.len()
    ensures ps.take(i + 1) == ps.take(i).push(ps[i])
{
    assert(ps.take(i + 1) =~= ps.take(i).push(ps[i]));
}

pub proof fn lemma_fl_mono(ps: Seq<Part>, i: int, j: int)
    requires 0 <= i <= j <= ps.len()
    ensures fl(ps.take(i)) <= fl(ps.take(j)), tl(ps.take(i)).len() <= tl(ps.take(j)).len()
    decreases j
{
    if i < j {
        lemma_take(ps, j - 1);
        lemma_fl_push(ps.take(j - 1), ps[j - 1]);
        lemma_tl_push(ps.take(j - 1), ps[j - 1]);
        lemma_fl_mono(ps, i, j - 1);
    }
}

pub proof fn lemma_take_all(ps: Seq<Part>)
    ensures ps.take(ps.len() as int) == ps
{
    assert(ps.take(ps.len() as int) =~= ps);
}

/// hd/tl of a prefix are prefixes
pub proof fn lemma_prefix(ps: Seq<Part>, i: int, j: int, base: int)
    requires 0 <= i <= j <= ps.len()
    ensures
        hd(ps.take(j), base).len() >= hd(ps.take(i), base).len(),
        hd(ps.take(j), base).subrange(0, fl(ps.take(i)) as int) == hd(ps.take(i), base),
        tl(ps.take(j)).len() >= tl(ps.take(i)).len(),
        tl(ps.take(j)).subrange(0, tl(ps.take(i)).len() as int) == tl(ps.take(i)),
    decreases j
{
    lemma_hd_len(ps.take(i), base);
    lemma_hd_len(ps.take(j), base);
    lemma_fl_mono(ps, i, j);
    if i < j {
        lemma_take(ps, j - 1);
        lemma_hd_push(ps.take(j - 1), ps[j - 1], base);
        lemma_tl_push(ps.take(j - 1), ps[j - 1]);
        lemma_prefix(ps, i, j - 1, base);
        lemma_hd_len(ps.take(j - 1), base);
        lemma_fl_mono(ps, i, j - 1);
        assert(hd(ps.take(j), base).subrange(0, fl(ps.take(i)) as int) =~= hd(ps.take(j - 1), base).subrange(0, fl(ps.take(i)) as int));
        assert(tl(ps.take(j)).subrange(0, tl(ps.take(i)).len() as int) =~= tl(ps.take(j - 1)).subrange(0, tl(ps.take(i)).len() as int));
    } else {
        assert(hd(ps.take(j), base).subrange(0, fl(ps.take(i)) as int) =~= hd(ps.take(i), base));
        assert(tl(ps.take(j)).subrange(0, tl(ps.take(i)).len() as int) =~= tl(ps.take(i)));
    }
}

/// no item is longer than the whole
pub proof fn lemma_part_len(ps: Seq<Part>, i: int)
    requires 0 <= i < ps.len()
    ensures ps[i].1.len() <= pack(ps).len(), fl(ps) <= pack(ps).len(), fl(ps) + tl(ps.take(i)).len() <= pack(ps).len()
{
    lemma_take(ps, i);
    lemma_fl_push(ps.take(i), ps[i]);
    lemma_tl_push(ps.take(i), ps[i]);
    lemma_take_all(ps);
    lemma_fl_mono(ps, i + 1, ps.len() as int);
    lemma_fl_mono(ps, i, ps.len() as int);
    lemma_hd_len(ps, fl(ps) as int);
}

// ---------------------------------------------------------------------------------------------------------------
// Decoding: a layout lists for each item whether it is fixed-size, and its length if so (4, an offset word, if not)
// ---------------------------------------------------------------------------------------------------------------
pub type Slot = (bool, nat);

pub open spec fn lay_ok(l: Seq<Slot>) -> bool { forall|i: int| 0 <= i < l.len() && !(#[trigger] l[i]).0 ==> l[i].1 == 4 }

pub open spec fn lay_len(l: Seq<Slot>) -> nat
    decreases l.len()
{
    if l.len() == 0 { 0 } else { lay_len(l.drop_last()) + l.last().1 }
}

pub closed spec fn start(l: Seq<Slot>, i: int) -> int { lay_len(l.take(i)) as int }

/// the offset word of item i
pub open spec fn word(b: Seq<u8>, l: Seq<Slot>, i: int) -> int { off_at(b, start(l, i)) }

/// where the variable part of the first variable-size item from i on starts, the end of the input if there is none
pub closed spec fn next_off(b: Seq<u8>, l: Seq<Slot>, i: int) -> int
    decreases l.len() - i
{
    if i >= l.len() || i < 0 { b.len() as int } else if !l[i].0 { word(b, l, i) } else { next_off(b, l, i + 1) }
}

/// fixed parts, offset words and variable parts tile the input
pub open spec fn split_ok(b: Seq<u8>, l: Seq<Slot>) -> bool {
    &&& lay_len(l) <= b.len()
    &&& next_off(b, l, 0) == lay_len(l)
    &&& forall|i: int| 0 <= i < l.len() && !(#[trigger] l[i]).0 ==> word(b, l, i) <= next_off(b, l, i + 1)
}

/// the bytes of item i
pub open spec fn piece(b: Seq<u8>, l: Seq<Slot>, i: int) -> Seq<u8> {
    if l[i].0 { b.subrange(start(l, i), start(l, i) + l[i].1 as int) } else { b.subrange(word(b, l, i), next_off(b, l, i + 1)) }
}

/// no prefix of the items shows an error yet
pub open spec fn prefix_ok(b: Seq<u8>, l: Seq<Slot>) -> bool {
    &&& lay_len(l) <= b.len()
    &&& forall|i: int| 0 <= i < l.len() && !(#[trigger] l[i]).0 ==> word(b, l, i) <= b.len()
    &&& forall|i: int, j: int| 0 <= i < j < l.len() && !(#[trigger] l[i]).0 && !(#[trigger] l[j]).0 ==> word(b, l, i) <= word(b, l, j)
}

pub broadcast proof fn lemma_lay_push(l: Seq<Slot>, s: Slot)
    ensures #[trigger] lay_len(l.push(s)) == lay_len(l) + s.1
{
    assert(l.push(s).drop_last() =~= l);
}

pub proof fn lemma_start_push(l: Seq<Slot>, s: Slot, i: int)
    requires 0 <= i <= l.len()
    ensures start(l.push(s), i) == start(l, i)
{
    assert(l.push(s).take(i) =~= l.take(i));
}

pub proof fn lemma_start(l: Seq<Slot>, i: int)
    requires 0 <= i < l.len()
    ensures start(l, i + 1) == start(l, i) + l[i].1, start(l, 0) == 0
{
    assert(l.take(i + 1) =~= l.take(i).push(l[i]));
    lemma_lay_push(l.take(i), l[i]);
    assert(l.take(0).len() == 0);
}

pub proof fn lemma_start_all(l: Seq<Slot>)
    ensures start(l, l.len() as int) == lay_len(l), start(l, 0) == 0
{
    assert(l.take(l.len() as int) =~= l);
    assert(l.take(0).len() == 0);
}

pub proof fn lemma_start_mono(l: Seq<Slot>, i: int, j: int)
    requires 0 <= i <= j <= l.len()
    ensures 0 <= start(l, i) <= start(l, j) <= lay_len(l), start(l, l.len() as int) == lay_len(l), i < j ==> start(l, i) + l[i].1 <= start(l, j)
    decreases l.len() - i
{
    assert(l.take(l.len() as int) =~= l);
    if i < j {
        lemma_start(l, i);
        lemma_start_mono(l, i + 1, j);
    } else if j < l.len() {
        lemma_start(l, j);
        lemma_start_mono(l, j + 1, j + 1);
    }
}

pub proof fn lemma_word_nonneg(b: Seq<u8>, l: Seq<Slot>, i: int)
    requires 0 <= i < l.len(), lay_ok(l), !l[i].0, lay_len(l) <= b.len()
    ensures 0 <= word(b, l, i) < pow32(), start(l, i) + 4 <= b.len()
{
    lemma_start_mono(l, i, i + 1);
    lemma_un4(b.subrange(start(l, i), start(l, i) + 4));
}

/// under split_ok the offsets rise from the end of the fixed part to the end of the input
pub proof fn lemma_split_mono(b: Seq<u8>, l: Seq<Slot>, i: int, j: int)
    requires split_ok(b, l), 0 <= i <= j <= l.len()
    ensures next_off(b, l, i) <= next_off(b, l, j) <= b.len()
    decreases l.len() - i
{
    if i < l.len() {
        if i < j {
            lemma_split_mono(b, l, i + 1, j);
        } else {
            lemma_split_mono(b, l, i + 1, i + 1);
        }
    }
}

pub proof fn lemma_split_bounds(b: Seq<u8>, l: Seq<Slot>, i: int)
    requires split_ok(b, l), 0 <= i < l.len()
    ensures
        l[i].0 ==> 0 <= start(l, i) && start(l, i) + l[i].1 <= b.len(),
        !l[i].0 ==> lay_len(l) <= word(b, l, i) <= next_off(b, l, i + 1) <= b.len(),
{
    lemma_start_mono(l, i, i + 1);
    lemma_split_mono(b, l, 0, i);
    lemma_split_mono(b, l, i, i + 1);
}

pub broadcast proof fn lemma_split_prefix(b: Seq<u8>, l: Seq<Slot>)
    ensures #[trigger] split_ok(b, l) ==> prefix_ok(b, l)
{
    if split_ok(b, l) {
        assert forall|i: int| 0 <= i < l.len() && !(#[trigger] l[i]).0 implies word(b, l, i) <= b.len() by {
            lemma_split_bounds(b, l, i);
        }
        assert forall|i: int, j: int| 0 <= i < j < l.len() && !(#[trigger] l[i]).0 && !(#[trigger] l[j]).0 implies word(b, l, i) <= word(b, l, j) by {
            lemma_split_mono(b, l, i, j);
        }
    }
}

pub broadcast proof fn lemma_prefix_push(b: Seq<u8>, l: Seq<Slot>, s: Slot)
    ensures #[trigger] prefix_ok(b, l.push(s)) ==> prefix_ok(b, l)
{
    let m = l.push(s);
    lemma_lay_push(l, s);
    if prefix_ok(b, m) {
        assert forall|i: int| 0 <= i < l.len() && !(#[trigger] l[i]).0 implies word(b, l, i) <= b.len() by {
            assert(!m[i].0);
            lemma_start_push(l, s, i);
        }
        assert forall|i: int, j: int| 0 <= i < j < l.len() && !(#[trigger] l[i]).0 && !(#[trigger] l[j]).0 implies word(b, l, i) <= word(b, l, j) by {
            assert(!m[i].0 && !m[j].0);
            lemma_start_push(l, s, i);
            lemma_start_push(l, s, j);
        }
    }
}

// ---------------------------------------------------------------------------------------------------------------
// The two directions
// ---------------------------------------------------------------------------------------------------------------
pub open spec fn fits(ps: Seq<Part>, l: Seq<Slot>) -> bool {
    &&& ps.len() == l.len()
    &&& lay_ok(l)
    &&& forall|i: int| 0 <= i < l.len() ==> (#[trigger] ps[i]).0 == l[i].0 && (l[i].0 ==> ps[i].1.len() == l[i].1)
}

pub proof fn lemma_fits_len(ps: Seq<Part>, l: Seq<Slot>, i: int)
    requires fits(ps, l), 0 <= i <= l.len()
    ensures fl(ps.take(i)) == start(l, i)
    decreases i
{
    if i > 0 {
        lemma_fits_len(ps, l, i - 1);
        lemma_take(ps, i - 1);
        lemma_fl_push(ps.take(i - 1), ps[i - 1]);
        lemma_start(l, i - 1);
        assert(ps[i - 1].0 == l[i - 1].0);
    } else {
        assert(ps.take(0).len() == 0);
        assert(l.take(0).len() == 0);
    }
}

/// what the encoder wrote at item i
pub proof fn lemma_pack_at(ps: Seq<Part>, l: Seq<Slot>, i: int)
    requires fits(ps, l), 0 <= i < l.len(), pack(ps).len() < pow32()
    ensures
        fl(ps) == lay_len(l),
        l[i].0 ==> pack(ps).subrange(start(l, i), start(l, i) + l[i].1 as int) == ps[i].1,
        !l[i].0 ==> word(pack(ps), l, i) == fl(ps) + tl(ps.take(i)).len(),
        !l[i].0 ==> pack(ps).subrange((fl(ps) + tl(ps.take(i)).len()) as int, (fl(ps) + tl(ps.take(i + 1)).len()) as int) == ps[i].1,
{
    let n = ps.len() as int;
    let f = fl(ps) as int;
    lemma_take_all(ps);
    lemma_fits_len(ps, l, n);
    assert(l.take(n) =~= l);
    lemma_fits_len(ps, l, i);
    lemma_fits_len(ps, l, i + 1);
    lemma_start(l, i);
    lemma_take(ps, i);
    lemma_hd_push(ps.take(i), ps[i], f);
    lemma_tl_push(ps.take(i), ps[i]);
    lemma_prefix(ps, i + 1, n, f);
    lemma_hd_len(ps, f);
    lemma_hd_len(ps.take(i), f);
    lemma_hd_len(ps.take(i + 1), f);
    let b = pack(ps);
    assert(ps[i].0 == l[i].0);
    let s = start(l, i);
    let h1 = hd(ps.take(i + 1), f);
    assert(b.subrange(0, start(l, i + 1)) =~= hd(ps, f).subrange(0, start(l, i + 1)));
    assert(b.subrange(0, start(l, i + 1)) == h1);
    assert(b.subrange(s, start(l, i + 1)) =~= b.subrange(0, start(l, i + 1)).subrange(s, start(l, i + 1)));
    if l[i].0 {
        assert(h1.subrange(s, start(l, i + 1)) =~= ps[i].1);
    } else {
        assert(h1.subrange(s, start(l, i + 1)) =~= le4(f + tl(ps.take(i)).len()));
        lemma_fl_mono(ps, i, n);
        lemma_le4(f + tl(ps.take(i)).len());
        let t0 = tl(ps.take(i)).len() as int;
        let t1 = tl(ps.take(i + 1)).len() as int;
        assert(b.subrange(f + t0, f + t1) =~= tl(ps).subrange(0, t1).subrange(t0, t1));
        assert(tl(ps.take(i + 1)).subrange(t0, t1) =~= ps[i].1);
    }
}

pub proof fn lemma_pack_next(ps: Seq<Part>, l: Seq<Slot>, i: int)
    requires fits(ps, l), 0 <= i <= l.len(), pack(ps).len() < pow32()
    ensures next_off(pack(ps), l, i) == fl(ps) + tl(ps.take(i)).len()
    decreases l.len() - i
{
    if i < l.len() {
        lemma_pack_at(ps, l, i);
        if l[i].0 {
            lemma_pack_next(ps, l, i + 1);
            lemma_take(ps, i);
            lemma_tl_push(ps.take(i), ps[i]);
            assert(ps[i].0);
        }
    } else {
        lemma_take_all(ps);
        lemma_hd_len(ps, fl(ps) as int);
    }
}

/// what was packed splits into what went in
pub proof fn lemma_split_of_pack(ps: Seq<Part>, l: Seq<Slot>)
    requires fits(ps, l), pack(ps).len() < pow32()
    ensures split_ok(pack(ps), l), forall|i: int| 0 <= i < l.len() ==> #[trigger] piece(pack(ps), l, i) == ps[i].1
{
    let b = pack(ps);
    lemma_pack_next(ps, l, 0);
    assert(ps.take(0).len() == 0);
    lemma_take_all(ps);
    lemma_fits_len(ps, l, ps.len() as int);
    assert(l.take(l.len() as int) =~= l);
    lemma_hd_len(ps, fl(ps) as int);
    assert forall|i: int| 0 <= i < l.len() && !(#[trigger] l[i]).0 implies word(b, l, i) <= next_off(b, l, i + 1) by {
        lemma_pack_at(ps, l, i);
        lemma_pack_next(ps, l, i + 1);
        lemma_fl_mono(ps, i, i + 1);
    }
    assert forall|i: int| 0 <= i < l.len() implies #[trigger] piece(b, l, i) == ps[i].1 by {
        lemma_pack_at(ps, l, i);
        lemma_pack_next(ps, l, i + 1);
    }
}

pub open spec fn pieces_of(b: Seq<u8>, l: Seq<Slot>) -> Seq<Part> { Seq::new(l.len(), |i: int| (l[i].0, piece(b, l, i))) }

pub proof fn lemma_cut(b: Seq<u8>, i: int, j: int, k: int)
    requires 0 <= i <= j <= k <= b.len()
    ensures b.subrange(i, k) == b.subrange(i, j) + b.subrange(j, k)
{
    assert(b.subrange(i, k) =~= b.subrange(i, j) + b.subrange(j, k));
}

pub proof fn lemma_rebuild(b: Seq<u8>, l: Seq<Slot>, i: int)
    requires split_ok(b, l), lay_ok(l), 0 <= i <= l.len()
    ensures
        hd(pieces_of(b, l).take(i), lay_len(l) as int) == b.subrange(0, start(l, i)),
        tl(pieces_of(b, l).take(i)) == b.subrange(lay_len(l) as int, next_off(b, l, i)),
        fl(pieces_of(b, l).take(i)) == start(l, i),
    decreases i
{
    let ps = pieces_of(b, l);
    let f = lay_len(l) as int;
    if i == 0 {
        lemma_split_mono(b, l, 0, 0);
        assert(ps.take(0).len() == 0);
        assert(l.take(0).len() == 0);
        assert(b.subrange(0, 0) =~= Seq::<u8>::empty());
        assert(b.subrange(f, f) =~= Seq::<u8>::empty());
    } else {
        let j = i - 1;
        lemma_rebuild(b, l, j);
        lemma_take(ps, j);
        lemma_start(l, j);
        lemma_start_mono(l, j, i);
        lemma_split_bounds(b, l, j);
        assert(ps[j] == (l[j].0, piece(b, l, j)));
        lemma_hd_push(ps.take(j), ps[j], f);
        lemma_tl_push(ps.take(j), ps[j]);
        lemma_fl_push(ps.take(j), ps[j]);
        if l[j].0 {
            lemma_cut(b, 0, start(l, j), start(l, i));
            assert(tl(ps.take(j)) + Seq::<u8>::empty() =~= tl(ps.take(j)));
            assert(next_off(b, l, j) == next_off(b, l, i));
        } else {
            lemma_split_mono(b, l, 0, j);
            let w = b.subrange(start(l, j), start(l, j) + 4);
            lemma_un4(w);
            lemma_cut(b, 0, start(l, j), start(l, i));
            lemma_cut(b, f, next_off(b, l, j), next_off(b, l, i));
            assert(next_off(b, l, j) == word(b, l, j));
        }
    }
}

/// packing the pieces gives the input back
pub proof fn lemma_pack_of_split(b: Seq<u8>, l: Seq<Slot>)
    requires split_ok(b, l), lay_ok(l)
    ensures pack(pieces_of(b, l)) == b
{
    let n = l.len() as int;
    let ps = pieces_of(b, l);
    lemma_rebuild(b, l, n);
    lemma_take_all(ps);
    assert(l.take(n) =~= l);
    let f = lay_len(l) as int;
    assert(ps.take(n) == ps);
    assert(start(l, n) == f);
    assert(fl(ps) == f);
    assert(hd(ps, f) == b.subrange(0, f));
    assert(next_off(b, l, n) == b.len());
    assert(tl(ps) == b.subrange(f, b.len() as int));
    lemma_split_mono(b, l, n, n);
    lemma_cut(b, 0, f, b.len() as int);
    assert(b.subrange(0, b.len() as int) =~= b);
}


/// the start of an item just registered
pub proof fn lemma_start_last(l: Seq<Slot>, s: Slot)
    ensures start(l.push(s), l.len() as int) == lay_len(l)
{
    assert(l.push(s).take(l.len() as int) =~= l);
}

/// how many variable-size items come before item k
pub closed spec fn rank(l: Seq<Slot>, k: int) -> nat
    decreases k
{
    if k <= 0 { 0 } else { rank(l, k - 1) + if l[k - 1].0 { 0nat } else { 1 } }
}

pub proof fn lemma_rank_mono(l: Seq<Slot>, i: int, k: int)
    requires 0 <= i <= k
    ensures rank(l, i) <= rank(l, k), i < k && !l[i].0 ==> rank(l, i) < rank(l, k)
    decreases k
{
    if i < k {
        lemma_rank_mono(l, i, k - 1);
        if i == k - 1 { } else { }
    }
}

pub proof fn lemma_rank_push(l: Seq<Slot>, s: Slot, k: int)
    requires 0 <= k <= l.len()
    ensures rank(l.push(s), k) == rank(l, k)
    decreases k
{
    if k > 0 { lemma_rank_push(l, s, k - 1); }
}

pub proof fn lemma_rank(l: Seq<Slot>, k: int)
    ensures k >= 0 ==> rank(l, k + 1) == rank(l, k) + if l[k].0 { 0nat } else { 1 }, k <= 0 ==> rank(l, k) == 0
{
}

pub proof fn lemma_next_step(b: Seq<u8>, l: Seq<Slot>, i: int)
    requires 0 <= i <= l.len()
    ensures
        i == l.len() ==> next_off(b, l, i) == b.len(),
        i < l.len() && l[i].0 ==> next_off(b, l, i) == next_off(b, l, i + 1),
        i < l.len() && !l[i].0 ==> next_off(b, l, i) == word(b, l, i),
{
}

// --- sums over parts, without case splits ----------------------------------------------------------------------------
/// what an item adds to the fixed part
pub closed spec fn pfl(p: Part) -> nat { if p.0 { p.1.len() } else { 4 } }

/// what an item adds to the whole
pub closed spec fn plen(p: Part) -> nat { if p.0 { p.1.len() } else { 4 + p.1.len() } }

pub closed spec fn total(ps: Seq<Part>) -> nat { fl(ps) + tl(ps).len() }

pub broadcast proof fn lemma_total_push(ps: Seq<Part>, p: Part)
    ensures #[trigger] total(ps.push(p)) == total(ps) + plen(p)
{
    lemma_fl_push(ps, p);
    lemma_tl_push(ps, p);
}

pub broadcast proof fn lemma_pfl_push(ps: Seq<Part>, p: Part)
    ensures #[trigger] fl(ps.push(p)) == fl(ps) + pfl(p)
{
    lemma_fl_push(ps, p);
}

pub proof fn lemma_total(ps: Seq<Part>)
    ensures total(ps) == pack(ps).len(), fl(ps) <= total(ps)
{
    lemma_hd_len(ps, fl(ps) as int);
}

pub proof fn lemma_total_empty()
    ensures total(Seq::<Part>::empty()) == 0, fl(Seq::<Part>::empty()) == 0
{
    lemma_empty_parts(0);
}

pub proof fn lemma_plen(p: Part)
    ensures
        p.0 ==> plen(p) == p.1.len() && pfl(p) == p.1.len(),
        !p.0 ==> plen(p) == 4 + p.1.len() && pfl(p) == 4,
        p.1.len() <= plen(p),
{
}

pub proof fn lemma_fits_push(ps: Seq<Part>, l: Seq<Slot>, p: Part, s: Slot)
    requires fits(ps, l), p.0 == s.0, s.0 ==> p.1.len() == s.1, !s.0 ==> s.1 == 4
    ensures fits(ps.push(p), l.push(s))
{
    let qs = ps.push(p);
    let m = l.push(s);
    assert forall|i: int| 0 <= i < m.len() && !(#[trigger] m[i]).0 implies m[i].1 == 4 by { if i < l.len() { assert(m[i] == l[i]); } }
    assert forall|i: int| 0 <= i < m.len() implies (#[trigger] qs[i]).0 == m[i].0 && (m[i].0 ==> qs[i].1.len() == m[i].1) by {
        if i < l.len() { assert(qs[i] == ps[i] && m[i] == l[i]); }
    }
}

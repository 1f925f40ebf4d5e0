// ---------------------------------------------------------------------------------------------------------------
// The parts of the standard library (and of smallvec, itertools) the code uses, under the names the extraction gives
// them.  These contracts are assumed; they restate the library's documentation.
// ---------------------------------------------------------------------------------------------------------------

/// An arbitrary bound on what a decoder may reserve (C06).  Nothing is known about it but that it is at least the length
/// of the input, so a reservation is only provably within it if it is provably no larger than the input.
pub uninterp spec fn mem_limit() -> nat;

/// No byte string in memory is longer than 2^59 bytes.
pub broadcast axiom fn axiom_mem_limit()
    ensures #[trigger] mem_limit() <= 0x0800_0000_0000_0000;

#[verifier::external_body]
pub fn v_panic() -> !
    requires false
{
    unimplemented!()
}

#[verifier::external_body]
pub fn v_fmt() -> String { unimplemented!() }

pub fn v_min(a: usize, b: usize) -> (r: usize)
    ensures r == if a < b { a } else { b }
{
    if a < b { a } else { b }
}

pub fn v_max(a: usize, b: usize) -> (r: usize)
    ensures r == if a > b { a } else { b }
{
    if a > b { a } else { b }
}

// --- ordering ---------------------------------------------------------------------------------------------------
pub enum Ordering { Less, Equal, Greater }

pub trait VCmp: Sized {
    fn v_cmp(&self, other: &Self) -> (r: Ordering);
}

impl VCmp for usize {
    fn v_cmp(&self, other: &Self) -> (r: Ordering)
        ensures r == if *self < *other { Ordering::Less } else if *self == *other { Ordering::Equal } else { Ordering::Greater }
    {
        if *self < *other { Ordering::Less } else if *self == *other { Ordering::Equal } else { Ordering::Greater }
    }
}

// --- iterators: the items still to come, and the upper bound an iterator announces --------------------------------
#[verifier::reject_recursive_types(T)]
pub struct VIter<T> { left: Vec<T>, seen: Ghost<Seq<T>>, up: Option<usize> }

proof fn lemma_fresh<T>(s: Seq<T>)
    ensures Seq::empty() + s == s
{
    assert(Seq::empty() + s =~= s);
}

impl<T> VIter<T> {
    pub closed spec fn all(&self) -> Seq<T> { self.seen@ + self.left@ }
    pub closed spec fn pos(&self) -> nat { self.seen@.len() }
    pub closed spec fn hint(&self) -> Option<usize> { self.up }

    pub open spec fn rest(&self) -> Seq<T> { self.all().skip(self.pos() as int) }

    /// an iterator nothing has been taken from
    pub open spec fn fresh(&self) -> bool { self.pos() == 0 }

    pub fn of(v: Vec<T>, up: Option<usize>) -> (r: Self)
        ensures r.fresh(), r.all() == v@, r.hint() == up
    {
        proof { lemma_fresh(v@); }
        VIter { left: v, seen: Ghost(Seq::empty()), up }
    }

    /// what is left, as a vector
    pub fn done(self) -> (r: Vec<T>)
        ensures self.fresh() ==> r@ == self.all()
    {
        proof { lemma_fresh(self.left@); assert(self.fresh() ==> self.seen@ =~= Seq::empty()); }
        self.left
    }


    pub fn next(&mut self) -> (r: Option<T>)
        requires old(self).pos() <= old(self).all().len()
        ensures
            final(self).all() == old(self).all(),
            old(self).pos() < old(self).all().len() ==> r == Some(old(self).all()[old(self).pos() as int]) && final(self).pos() == old(self).pos() + 1,
            old(self).pos() >= old(self).all().len() ==> r is None && final(self).pos() == old(self).pos(),
    {
        if self.left.len() == 0 {
            None
        } else {
            let x = self.left.remove(0);
            proof { assert(self.seen@.push(x) + self.left@ =~= old(self).seen@ + old(self).left@); }
            self.seen = Ghost(self.seen@.push(x));
            Some(x)
        }
    }

    pub fn v_into_iter(self) -> (r: Self)
        ensures r == self
    {
        self
    }

    pub fn v_upper(&self) -> (r: Option<usize>)
        ensures r == self.hint()
    {
        self.up
    }

    pub fn size_hint(&self) -> (r: (usize, Option<usize>))
        ensures r.1 == self.hint()
    {
        (0, self.up)
    }

    /// for iterators that know their length
    pub fn len(&self) -> (r: usize)
        requires self.fresh()
        ensures r == self.all().len()
    {
        self.left.len()
    }

    pub fn rev(self) -> (r: VIter<T>)
        requires self.fresh()
        ensures r.fresh(), r.all() == self.all().reverse(), r.hint() == self.hint()
    {
        let up = self.up;
        let mut v = self.done();
        let ghost s = v@;
        let mut o: Vec<T> = Vec::new();
        while v.len() > 0
            invariant v@.len() + o@.len() == s.len(), v@ == s.take(v@.len() as int), forall|i: int| 0 <= i < o@.len() ==> #[trigger] o@[i] == s[s.len() - 1 - i],
            decreases v.len()
        {
            let x = v.pop().unwrap();
            o.push(x);
            proof { assert(v@ =~= s.take(v@.len() as int)); }
        }
        proof { assert(o@ =~= s.reverse()); }
        VIter::of(o, up)
    }

    pub fn enumerate(self) -> (r: VIter<(usize, T)>)
        requires self.fresh(), self.all().len() <= usize::MAX
        ensures r.fresh(), r.all().len() == self.all().len(), forall|i: int| 0 <= i < r.all().len() ==> #[trigger] r.all()[i] == (i as usize, self.all()[i]), r.hint() == self.hint()
    {
        let up = self.up;
        let mut v = self.done();
        let ghost s = v@;
        let mut o: Vec<(usize, T)> = Vec::new();
        while v.len() > 0
            invariant s.len() <= usize::MAX, v@.len() + o@.len() == s.len(), v@ == s.skip(o@.len() as int), forall|i: int| 0 <= i < o@.len() ==> #[trigger] o@[i] == (i as usize, s[i]),
            decreases v.len()
        {
            let x = v.remove(0);
            o.push((o.len(), x));
            proof { assert(v@ =~= s.skip(o@.len() as int)); }
        }
        VIter::of(o, up)
    }

    pub fn take(self, n: usize) -> (r: VIter<T>)
        requires self.fresh()
        ensures r.fresh(), r.all() == (if n < self.all().len() { self.all().take(n as int) } else { self.all() })
    {
        let mut v = self.done();
        let k = v.len();
        if n < k { v.truncate(n); }
        VIter::of(v, None)
    }

    pub fn skip(self, n: usize) -> (r: VIter<T>)
        requires self.fresh()
        ensures r.fresh(), r.all() == (if n < self.all().len() { self.all().skip(n as int) } else { Seq::empty() })
    {
        let mut v = self.done();
        let ghost s = v@;
        let mut k: usize = 0;
        while k < n && v.len() > 0
            invariant k <= n, k <= s.len(), v@ == s.skip(k as int),
            decreases v.len()
        {
            v.remove(0);
            k = k + 1;
            proof { assert(v@ =~= s.skip(k as int)); }
        }
        proof { if n >= s.len() { assert(v@ =~= Seq::empty()); } }
        VIter::of(v, None)
    }

    pub fn zip<U>(self, o: VIter<U>) -> (r: VIter<(T, U)>)
        requires self.fresh(), o.fresh()
        ensures
            r.fresh(),
            r.all().len() == if self.all().len() < o.all().len() { self.all().len() } else { o.all().len() },
            forall|i: int| 0 <= i < r.all().len() ==> #[trigger] r.all()[i] == (self.all()[i], o.all()[i]),
    {
        let mut v = self.done();
        let mut w = o.done();
        let ghost (s, t) = (v@, w@);
        let mut q: Vec<(T, U)> = Vec::new();
        while v.len() > 0 && w.len() > 0
            invariant
                q@.len() <= s.len(), q@.len() <= t.len(), v@ == s.skip(q@.len() as int), w@ == t.skip(q@.len() as int),
                forall|i: int| 0 <= i < q@.len() ==> #[trigger] q@[i] == (s[i], t[i]),
            decreases v.len()
        {
            let x = v.remove(0);
            let y = w.remove(0);
            q.push((x, y));
            proof { assert(v@ =~= s.skip(q@.len() as int)); assert(w@ =~= t.skip(q@.len() as int)); }
        }
        VIter::of(q, None)
    }

    pub fn map<B, F: Fn(T) -> B>(self, f: F) -> (r: VIter<B>)
        requires self.fresh(), forall|i: int| 0 <= i < self.all().len() ==> f.requires((#[trigger] self.all()[i],))
        ensures r.fresh(), r.all().len() == self.all().len(), forall|i: int| 0 <= i < self.all().len() ==> f.ensures((self.all()[i],), #[trigger] r.all()[i]), r.hint() == self.hint()
    {
        let up = self.up;
        let mut v = self.done();
        let ghost s = v@;
        let mut o: Vec<B> = Vec::new();
        while v.len() > 0
            invariant forall|i: int| 0 <= i < s.len() ==> f.requires((#[trigger] s[i],)), v@.len() + o@.len() == s.len(), v@ == s.skip(o@.len() as int), forall|i: int| 0 <= i < o@.len() ==> f.ensures((s[i],), #[trigger] o@[i]),
            decreases v.len()
        {
            let x = v.remove(0);
            o.push(f(x));
            proof { assert(v@ =~= s.skip(o@.len() as int)); }
        }
        VIter::of(o, up)
    }

    pub fn find<F: Fn(&T) -> bool>(self, f: F) -> (r: Option<T>)
        requires self.fresh(), forall|i: int| 0 <= i < self.all().len() ==> f.requires((&#[trigger] self.all()[i],))
        ensures match r {
            Some(x) => exists|i: int| 0 <= i < self.all().len() && #[trigger] self.all()[i] == x && f.ensures((&x,), true) && forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] self.all()[j],), false),
            None => forall|j: int| 0 <= j < self.all().len() ==> f.ensures((&#[trigger] self.all()[j],), false),
        }
    {
        let mut v = self.done();
        let ghost s = v@;
        let n = v.len();
        let mut k: usize = 0;
        while v.len() > 0
            invariant
                n == s.len(), s == self.all(), v@.len() + k == n, v@ == s.skip(k as int), forall|i: int| 0 <= i < s.len() ==> f.requires((&#[trigger] s[i],)),
                forall|j: int| 0 <= j < k ==> f.ensures((&#[trigger] s[j],), false),
            decreases v.len()
        {
            let x = v.remove(0);
            proof { assert(x == s[k as int]); }
            if f(&x) { return Some(x); }
            k = k + 1;
            proof { assert(v@ =~= s.skip(k as int)); }
        }
        None
    }

    pub fn position<F: Fn(T) -> bool>(&mut self, f: F) -> (r: Option<usize>)
        requires old(self).fresh(), forall|i: int| 0 <= i < old(self).all().len() ==> f.requires((#[trigger] old(self).all()[i],))
        ensures match r {
            Some(x) => 0 <= x < old(self).all().len() && f.ensures((old(self).all()[x as int],), true) && forall|j: int| 0 <= j < x ==> f.ensures((#[trigger] old(self).all()[j],), false),
            None => forall|j: int| 0 <= j < old(self).all().len() ==> f.ensures((#[trigger] old(self).all()[j],), false),
        }
    {
        proof { lemma_fresh(self.left@); assert(self.seen@ =~= Seq::empty()); }
        let mut v: Vec<T> = Vec::new();
        ::core::mem::swap(&mut v, &mut self.left);
        let ghost s = v@;
        let n = v.len();
        let mut k: usize = 0;
        while v.len() > 0
            invariant
                n == s.len(), s == old(self).all(), v@.len() + k == n, v@ == s.skip(k as int), forall|i: int| 0 <= i < s.len() ==> f.requires((#[trigger] s[i],)),
                forall|j: int| 0 <= j < k ==> f.ensures((#[trigger] s[j],), false),
            decreases v.len()
        {
            let x = v.remove(0);
            proof { assert(x == s[k as int]); }
            if f(x) { return Some(k); }
            k = k + 1;
            proof { assert(v@ =~= s.skip(k as int)); }
        }
        None
    }

    pub fn all_<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires self.fresh(), forall|i: int| 0 <= i < self.all().len() ==> f.requires((#[trigger] self.all()[i],))
        ensures
            r ==> forall|j: int| 0 <= j < self.all().len() ==> f.ensures((#[trigger] self.all()[j],), true),
            !r ==> exists|j: int| 0 <= j < self.all().len() && f.ensures((#[trigger] self.all()[j],), false),
    {
        let mut v = self.done();
        let ghost s = v@;
        let n = v.len();
        let mut k: usize = 0;
        while v.len() > 0
            invariant
                n == s.len(), s == self.all(), v@.len() + k == n, v@ == s.skip(k as int), forall|i: int| 0 <= i < s.len() ==> f.requires((#[trigger] s[i],)),
                forall|j: int| 0 <= j < k ==> f.ensures((#[trigger] s[j],), true),
            decreases v.len()
        {
            let x = v.remove(0);
            proof { assert(x == s[k as int]); }
            if !f(x) { return false; }
            k = k + 1;
            proof { assert(v@ =~= s.skip(k as int)); }
        }
        true
    }

    pub fn any_<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires self.fresh(), forall|i: int| 0 <= i < self.all().len() ==> f.requires((#[trigger] self.all()[i],))
        ensures
            !r ==> forall|j: int| 0 <= j < self.all().len() ==> f.ensures((#[trigger] self.all()[j],), false),
            r ==> exists|j: int| 0 <= j < self.all().len() && f.ensures((#[trigger] self.all()[j],), true),
    {
        let mut v = self.done();
        let ghost s = v@;
        let n = v.len();
        let mut k: usize = 0;
        while v.len() > 0
            invariant
                n == s.len(), s == self.all(), v@.len() + k == n, v@ == s.skip(k as int), forall|i: int| 0 <= i < s.len() ==> f.requires((#[trigger] s[i],)),
                forall|j: int| 0 <= j < k ==> f.ensures((#[trigger] s[j],), false),
            decreases v.len()
        {
            let x = v.remove(0);
            proof { assert(x == s[k as int]); }
            if f(x) { return true; }
            k = k + 1;
            proof { assert(v@ =~= s.skip(k as int)); }
        }
        false
    }

    pub fn collect<C: VCollect<T>>(self) -> (r: C)
        requires self.fresh()
        ensures C::collected(self.all(), r)
    {
        C::v_collect(self.done())
    }
}

pub open spec fn seq_sum(s: Seq<usize>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { seq_sum(s.drop_last()) + s.last() as nat }
}

proof fn lemma_sum_prefix(s: Seq<usize>, k: int)
    requires 0 <= k <= s.len()
    ensures seq_sum(s.take(k)) <= seq_sum(s)
    decreases s.len() - k
{
    if k < s.len() {
        lemma_sum_prefix(s, k + 1);
        assert(s.take(k + 1).drop_last() =~= s.take(k));
    } else {
        assert(s.take(k) =~= s);
    }
}

impl VIter<usize> {
    pub fn sum(self) -> (r: usize)
        requires self.fresh(), seq_sum(self.all()) <= usize::MAX
        ensures r == seq_sum(self.all())
    {
        let mut v = self.done();
        let ghost s = v@;
        let mut n: usize = 0;
        let ghost mut k: int = 0;
        while v.len() > 0
            invariant 0 <= k <= s.len(), v@ == s.skip(k), n == seq_sum(s.take(k)), seq_sum(s) <= usize::MAX
            decreases v.len()
        {
            let x = v.remove(0);
            proof {
                assert(s.take(k + 1).drop_last() =~= s.take(k));
                assert(s.take(k + 1).last() == x);
                lemma_sum_prefix(s, k + 1);
                assert(v@ =~= s.skip(k + 1));
                k = k + 1;
            }
            n = n + x;
        }
        proof { assert(s.take(k) =~= s); }
        n
    }
}

pub trait VCollect<T>: Sized {
    spec fn collected(items: Seq<T>, r: Self) -> bool;
    fn v_collect(items: Vec<T>) -> (r: Self)
        ensures Self::collected(items@, r);
}

impl<T, E> VCollect<Result<T, E>> for Result<Vec<T>, E> {
    open spec fn collected(items: Seq<Result<T, E>>, r: Self) -> bool {
        match r {
            Ok(v) => v@.len() == items.len() && forall|i: int| #![trigger items[i]] #![trigger v@[i]] 0 <= i < items.len() ==> items[i] == Ok::<T, E>(v@[i]),
            Err(_) => exists|i: int| 0 <= i < items.len() && (#[trigger] items[i]) is Err,
        }
    }
    fn v_collect(items: Vec<Result<T, E>>) -> (r: Self) {
        let mut v = items;
        let ghost s = v@;
        let mut o: Vec<T> = Vec::new();
        while v.len() > 0
            invariant
                v@.len() + o@.len() == s.len(), v@ == s.skip(o@.len() as int), s == items@,
                forall|i: int| #![trigger s[i]] #![trigger o@[i]] 0 <= i < o@.len() ==> s[i] == Ok::<T, E>(o@[i]),
            decreases v.len()
        {
            let x = v.remove(0);
            proof { assert(x == s[o@.len() as int]); }
            match x {
                Ok(x) => { o.push(x); }
                Err(e) => { return Err(e); }
            }
            proof { assert(v@ =~= s.skip(o@.len() as int)); }
        }
        Ok(o)
    }
}

impl<T> VCollect<T> for Vec<T> {
    open spec fn collected(items: Seq<T>, r: Self) -> bool { r@ == items }
    fn v_collect(items: Vec<T>) -> (r: Self) { items }
}

/// references to the items of a slice
fn refs<'a, T>(s: &'a [T]) -> (r: Vec<&'a T>)
    ensures r@ == elem_refs(s@)
{
    let mut o: Vec<&'a T> = Vec::new();
    let mut i: usize = 0;
    while i < s.len()
        invariant i <= s.len(), o@.len() == i, forall|j: int| 0 <= j < i ==> *(#[trigger] o@[j]) == s@[j]
        decreases s.len() - i
    {
        o.push(&s[i]);
        i = i + 1;
    }
    proof { assert(o@ =~= elem_refs(s@)); }
    o
}

pub trait VSource: Sized {
    type Item;
    spec fn v_all(self) -> Seq<Self::Item>;
    spec fn v_ok(self) -> bool;
    spec fn v_up(self) -> Option<usize>;
    fn v_get_iter(self) -> (r: VIter<Self::Item>)
        requires self.v_ok()
        ensures r.fresh(), r.all() == self.v_all(), r.hint() == self.v_up();
}

impl<T> VSource for VIter<T> {
    type Item = T;
    open spec fn v_all(self) -> Seq<T> { self.all() }
    open spec fn v_ok(self) -> bool { self.fresh() }
    open spec fn v_up(self) -> Option<usize> { self.hint() }
    fn v_get_iter(self) -> (r: VIter<T>) { self }
}

impl<'a, T> VSource for &'a Vec<T> {
    type Item = &'a T;
    open spec fn v_all(self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) }
    open spec fn v_ok(self) -> bool { true }
    open spec fn v_up(self) -> Option<usize> { Some(self@.len() as usize) }
    fn v_get_iter(self) -> (r: VIter<&'a T>) {
        let v = refs(self.as_slice());
        proof { assert(v@ =~= self.v_all()); }
        VIter::of(v, Some(self.len()))
    }
}

impl<'a, T> VSource for &'a [T] {
    type Item = &'a T;
    open spec fn v_all(self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) }
    open spec fn v_ok(self) -> bool { true }
    open spec fn v_up(self) -> Option<usize> { Some(self@.len() as usize) }
    fn v_get_iter(self) -> (r: VIter<&'a T>) {
        let v = refs(self);
        proof { assert(v@ =~= self.v_all()); }
        VIter::of(v, Some(self.len()))
    }
}

pub fn v_source<S: VSource>(s: S) -> (r: VIter<S::Item>)
    requires s.v_ok()
    ensures r.fresh(), r.all() == s.v_all(), r.hint() == s.v_up()
{
    s.v_get_iter()
}

pub fn v_range(a: usize, b: usize) -> (r: VIter<usize>)
    ensures r.fresh(), r.all().len() == (if a < b { b - a } else { 0 }), forall|i: int| 0 <= i < r.all().len() ==> #[trigger] r.all()[i] == a + i, r.hint() == Some((if a < b { b - a } else { 0 }) as usize)
{
    let mut o: Vec<usize> = Vec::new();
    let mut k = a;
    while k < b
        invariant a <= k, k <= b || a >= b, o@.len() == k - a, forall|i: int| 0 <= i < o@.len() ==> #[trigger] o@[i] == a + i, a >= b ==> k == a
        decreases b - k
    {
        o.push(k);
        k = k + 1;
    }
    VIter::of(o, Some(if a < b { b - a } else { 0 }))
}

pub fn v_range_incl(a: usize, b: usize) -> (r: VIter<usize>)
    ensures
        r.fresh(),
        r.all().len() == (if a <= b { b - a + 1 } else { 0 }),
        forall|i: int| 0 <= i < r.all().len() ==> #[trigger] r.all()[i] == a + i,
        r.hint() == (if a <= b && b - a + 1 > usize::MAX { None } else { Some((if a <= b { b - a + 1 } else { 0 }) as usize) }),
{
    let mut o: Vec<usize> = Vec::new();
    if a <= b {
        let mut k = a;
        while k < b
            invariant a <= k <= b, o@.len() == k - a, forall|i: int| 0 <= i < o@.len() ==> #[trigger] o@[i] == a + i
            decreases b - k
        {
            o.push(k);
            k = k + 1;
        }
        o.push(b);
    }
    VIter::of(o, if a <= b { if b - a == usize::MAX { None } else { Some(b - a + 1) } } else { Some(0) })
}

pub fn v_empty<T>() -> (r: VIter<T>)
    ensures r.fresh(), r.all() == Seq::<T>::empty(), r.hint() == Some(0usize)
{
    VIter::of(Vec::new(), Some(0))
}

/// what `itertools::process_results` hands to the closure: the items that came before the first error, announced with the
/// upper bound of the source
pub fn v_results<T>(items: Vec<T>, hint: Option<usize>) -> (r: VIter<T>)
    ensures r.fresh(), r.all() == items@, r.hint() == hint
{
    VIter::of(items, hint)
}

// --- slices -------------------------------------------------------------------------------------------------------
pub open spec fn elem_refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }

pub trait VSlice<T> {
    spec fn vs(&self) -> Seq<T>;

    fn v_is_empty(&self) -> (r: bool)
        ensures r == (self.vs().len() == 0);

    fn v_first(&self) -> (r: Option<&T>)
        ensures match r { Some(x) => self.vs().len() > 0 && *x == self.vs()[0], None => self.vs().len() == 0 };

    fn v_last(&self) -> (r: Option<&T>)
        ensures match r { Some(x) => self.vs().len() > 0 && *x == self.vs().last(), None => self.vs().len() == 0 };

    fn v_get(&self, i: usize) -> (r: Option<&T>)
        ensures match r { Some(x) => i < self.vs().len() && *x == self.vs()[i as int], None => i >= self.vs().len() };

    fn v_get_range(&self, a: usize, b: usize) -> (r: Option<&[T]>)
        ensures match r { Some(x) => a <= b <= self.vs().len() && x@ == self.vs().subrange(a as int, b as int), None => !(a <= b <= self.vs().len()) };

    fn v_get_from(&self, a: usize) -> (r: Option<&[T]>)
        ensures match r { Some(x) => a <= self.vs().len() && x@ == self.vs().subrange(a as int, self.vs().len() as int), None => !(a <= self.vs().len()) };

    fn v_get_to(&self, b: usize) -> (r: Option<&[T]>)
        ensures match r { Some(x) => b <= self.vs().len() && x@ == self.vs().subrange(0, b as int), None => !(b <= self.vs().len()) };

    fn v_slice_range(&self, a: usize, b: usize) -> (r: &[T])
        requires a <= b <= self.vs().len()
        ensures r@ == self.vs().subrange(a as int, b as int);

    fn v_slice_from(&self, a: usize) -> (r: &[T])
        requires a <= self.vs().len()
        ensures r@ == self.vs().subrange(a as int, self.vs().len() as int);

    fn v_slice_to(&self, b: usize) -> (r: &[T])
        requires b <= self.vs().len()
        ensures r@ == self.vs().subrange(0, b as int);

    fn v_slice_full(&self) -> (r: &[T])
        ensures r@ == self.vs();

    fn v_as_slice(&self) -> (r: &[T])
        ensures r@ == self.vs();

    fn v_split_at(&self, i: usize) -> (r: (&[T], &[T]))
        requires i <= self.vs().len()
        ensures r.0@ == self.vs().subrange(0, i as int), r.1@ == self.vs().subrange(i as int, self.vs().len() as int);

    fn v_iter(&self) -> (r: VIter<&T>)
        ensures r.fresh(), r.all() == elem_refs(self.vs()), r.hint() == Some(self.vs().len() as usize);

    fn v_chunks(&self, n: usize) -> (r: VIter<&[T]>)
        requires n != 0
        ensures r.fresh(), r.all().len() == (self.vs().len() + n - 1) / n as int, forall|i: int| 0 <= i < r.all().len() ==> (#[trigger] r.all()[i])@ == chunk(self.vs(), n as int, i);

    fn v_chunks_exact(&self, n: usize) -> (r: VIter<&[T]>)
        requires n != 0
        ensures r.fresh(), r.all().len() == self.vs().len() / n as nat, forall|i: int| 0 <= i < r.all().len() ==> (#[trigger] r.all()[i])@ == chunk(self.vs(), n as int, i);

    fn v_windows(&self, n: usize) -> (r: VIter<&[T]>)
        requires n != 0
        ensures
            r.fresh(),
            r.all().len() == (if self.vs().len() >= n { self.vs().len() - n + 1 } else { 0 }),
            forall|i: int| 0 <= i < r.all().len() ==> (#[trigger] r.all()[i])@ == self.vs().subrange(i, i + n);
}

proof fn lemma_chunks(l: int, n: int, k: int)
    requires n > 0, l >= 0, k >= 0, k * n >= l, k > 0 ==> (k - 1) * n < l
    ensures k == (l + n - 1) / n
{
    assert((k - 1) * n == k * n - n) by (nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(l + n - 1, n, k, l + n - 1 - k * n);
}

pub open spec fn chunk<T>(s: Seq<T>, n: int, i: int) -> Seq<T> {
    s.subrange(i * n, if (i + 1) * n <= s.len() { (i + 1) * n } else { s.len() as int })
}

impl<T> VSlice<T> for [T] {
    open spec fn vs(&self) -> Seq<T> { self@ }
    fn v_is_empty(&self) -> (r: bool) { self.len() == 0 }
    fn v_first(&self) -> (r: Option<&T>) { if self.len() == 0 { None } else { Some(&self[0]) } }
    fn v_last(&self) -> (r: Option<&T>) { if self.len() == 0 { None } else { Some(&self[self.len() - 1]) } }
    fn v_get(&self, i: usize) -> (r: Option<&T>) { if i < self.len() { Some(&self[i]) } else { None } }
    fn v_get_range(&self, a: usize, b: usize) -> (r: Option<&[T]>) { if a <= b && b <= self.len() { Some(vstd::slice::slice_subrange(self, a, b)) } else { None } }
    fn v_get_from(&self, a: usize) -> (r: Option<&[T]>) { if a <= self.len() { Some(vstd::slice::slice_subrange(self, a, self.len())) } else { None } }
    fn v_get_to(&self, b: usize) -> (r: Option<&[T]>) { if b <= self.len() { Some(vstd::slice::slice_subrange(self, 0, b)) } else { None } }
    fn v_slice_range(&self, a: usize, b: usize) -> (r: &[T]) { vstd::slice::slice_subrange(self, a, b) }
    fn v_slice_from(&self, a: usize) -> (r: &[T]) { vstd::slice::slice_subrange(self, a, self.len()) }
    fn v_slice_to(&self, b: usize) -> (r: &[T]) { vstd::slice::slice_subrange(self, 0, b) }
    fn v_slice_full(&self) -> (r: &[T]) { self }
    fn v_as_slice(&self) -> (r: &[T]) { self }
    fn v_split_at(&self, i: usize) -> (r: (&[T], &[T])) { (vstd::slice::slice_subrange(self, 0, i), vstd::slice::slice_subrange(self, i, self.len())) }
    fn v_iter(&self) -> (r: VIter<&T>) { VIter::of(refs(self), Some(self.len())) }
    fn v_chunks(&self, n: usize) -> (r: VIter<&[T]>) {
        let mut o: Vec<&[T]> = Vec::new();
        let mut at: usize = 0;
        let l = self.len();
        proof { assert(0 * (n as int) == 0) by (nonlinear_arith); }
        while at < l
            invariant
                n != 0, l == self@.len(), at <= l, at == if o@.len() * n <= l { o@.len() * n } else { l as int }, o@.len() > 0 ==> (o@.len() - 1) * n < l,
                forall|i: int| 0 <= i < o@.len() ==> (#[trigger] o@[i])@ == chunk(self@, n as int, i),
            decreases l - at
        {
            let ghost k = o@.len() as int;
            let e = if n < l - at { at + n } else { l };
            proof { assert((k + 1) * n == k * n + n) by (nonlinear_arith); assert((k + 1 - 1) * n == k * n) by (nonlinear_arith); }
            o.push(vstd::slice::slice_subrange(self, at, e));
            at = e;
        }
        proof { lemma_chunks(l as int, n as int, o@.len() as int); }
        VIter::of(o, None)
    }
    fn v_chunks_exact(&self, n: usize) -> (r: VIter<&[T]>) {
        let mut o: Vec<&[T]> = Vec::new();
        let mut at: usize = 0;
        let l = self.len();
        proof { assert(0 * (n as int) == 0) by (nonlinear_arith); }
        while l - at >= n
            invariant
                n != 0, l == self@.len(), at <= l, at == o@.len() * n,
                forall|i: int| 0 <= i < o@.len() ==> (#[trigger] o@[i])@ == chunk(self@, n as int, i),
            decreases l - at
        {
            let ghost k = o@.len() as int;
            proof { assert((k + 1) * n == k * n + n) by (nonlinear_arith); assert((k + 1 - 1) * n == k * n) by (nonlinear_arith); }
            o.push(vstd::slice::slice_subrange(self, at, at + n));
            at = at + n;
        }
        proof {
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(l as int, n as int, o@.len() as int, l - at);
        }
        VIter::of(o, None)
    }
    fn v_windows(&self, n: usize) -> (r: VIter<&[T]>) {
        let mut o: Vec<&[T]> = Vec::new();
        let mut i: usize = 0;
        let l = self.len();
        while l - i >= n
            invariant
                n != 0, l == self@.len(), i <= l, i == o@.len(), i > 0 ==> l - (i - 1) >= n,
                forall|k: int| 0 <= k < o@.len() ==> (#[trigger] o@[k])@ == self@.subrange(k, k + n),
            decreases l - i
        {
            o.push(vstd::slice::slice_subrange(self, i, i + n));
            i = i + 1;
        }
        VIter::of(o, None)
    }
}

pub trait VSliceMut<T> {
    spec fn vm(&self) -> Seq<T>;
    /// `copy_from_slice` and `clone_from_slice`: panic unless the lengths agree
    fn v_copy_from_slice(&mut self, o: &[T])
        requires old(self).vm().len() == o@.len()
        ensures final(self).vm() == o@;
}

impl<T: Copy, const N: usize> VSliceMut<T> for [T; N] {
    open spec fn vm(&self) -> Seq<T> { self@ }
    fn v_copy_from_slice(&mut self, o: &[T]) {
        let mut i: usize = 0;
        while i < o.len()
            invariant i <= o.len(), self@.len() == o@.len(), forall|j: int| 0 <= j < i ==> #[trigger] self@[j] == o@[j]
            decreases o.len() - i
        {
            self[i] = o[i];
            i = i + 1;
        }
        proof { assert(self@ =~= o@); }
    }
}

impl<T: Copy> VSliceMut<T> for Vec<T> {
    open spec fn vm(&self) -> Seq<T> { self@ }
    fn v_copy_from_slice(&mut self, o: &[T]) {
        let mut i: usize = 0;
        while i < o.len()
            invariant i <= o.len(), self@.len() == o@.len(), forall|j: int| 0 <= j < i ==> #[trigger] self@[j] == o@[j]
            decreases o.len() - i
        {
            self[i] = o[i];
            i = i + 1;
        }
        proof { assert(self@ =~= o@); }
    }
}

pub trait VToVec<T: Copy> {
    spec fn vt(&self) -> Seq<T>;
    fn v_to_vec(&self) -> (r: Vec<T>)
        ensures r@ == self.vt();
}

impl<T: Copy> VToVec<T> for [T] {
    open spec fn vt(&self) -> Seq<T> { self@ }
    fn v_to_vec(&self) -> (r: Vec<T>) {
        let mut o: Vec<T> = Vec::new();
        let mut i: usize = 0;
        while i < self.len()
            invariant i <= self.len(), o@.len() == i, forall|j: int| 0 <= j < i ==> #[trigger] o@[j] == self@[j]
            decreases self.len() - i
        {
            o.push(self[i]);
            i = i + 1;
        }
        proof { assert(o@ =~= self@); }
        o
    }
}

// --- vectors --------------------------------------------------------------------------------------------------------
pub trait VVec<T> {
    spec fn vv(&self) -> Seq<T>;

    fn v_remove(&mut self, i: usize) -> (r: T)
        requires i < old(self).vv().len()
        ensures r == old(self).vv()[i as int], final(self).vv() == old(self).vv().remove(i as int);

    fn v_truncate(&mut self, n: usize)
        ensures final(self).vv() == (if n < old(self).vv().len() { old(self).vv().take(n as int) } else { old(self).vv() });

    fn v_reserve(&mut self, n: usize)
        requires n <= mem_limit()
        ensures final(self).vv() == old(self).vv();

    fn v_extend(&mut self, it: VIter<T>)
        requires it.fresh()
        ensures final(self).vv() == old(self).vv() + it.all();
}

impl<T> VVec<T> for Vec<T> {
    open spec fn vv(&self) -> Seq<T> { self@ }
    fn v_remove(&mut self, i: usize) -> (r: T) { self.remove(i) }
    fn v_truncate(&mut self, n: usize) { self.truncate(n); proof { assert(n >= old(self)@.len() ==> self@ =~= old(self)@); } }
    fn v_reserve(&mut self, n: usize) { self.reserve(n) }
    fn v_extend(&mut self, it: VIter<T>) {
        let mut v = it.done();
        let ghost s = self@;
        self.append(&mut v);
    }
}

pub trait VVecCopy<T: Copy> {
    spec fn vc(&self) -> Seq<T>;

    fn v_resize(&mut self, n: usize, x: T)
        requires n <= mem_limit() + 1
        ensures final(self).vc() == Seq::new(n as nat, |i: int| if i < old(self).vc().len() { old(self).vc()[i] } else { x });

    fn v_extend_from_slice(&mut self, s: &[T])
        ensures final(self).vc() == old(self).vc() + s@;
}

impl<T: Copy> VVecCopy<T> for Vec<T> {
    open spec fn vc(&self) -> Seq<T> { self@ }
    fn v_resize(&mut self, n: usize, x: T) {
        let ghost s = self@;
        if n < self.len() {
            self.truncate(n);
        } else {
            while self.len() < n
                invariant s.len() <= self@.len() <= n, forall|i: int| 0 <= i < self@.len() ==> #[trigger] self@[i] == (if i < s.len() { s[i] } else { x })
                decreases n - self.len()
            {
                self.push(x);
            }
        }
        proof { assert(self@ =~= Seq::new(n as nat, |i: int| if i < s.len() { s[i] } else { x })); }
    }
    fn v_extend_from_slice(&mut self, s: &[T]) {
        let mut v = s.v_to_vec();
        self.append(&mut v);
    }
}

pub fn v_from_elem<T: Copy>(x: T, n: usize) -> (r: Vec<T>)
    requires n <= mem_limit()
    ensures r@ == Seq::new(n as nat, |i: int| x)
{
    let mut o: Vec<T> = Vec::new();
    o.v_resize(n, x);
    proof { assert(o@ =~= Seq::new(n as nat, |i: int| x)); }
    o
}

pub fn v_with_capacity<T>(n: usize) -> (r: Vec<T>)
    requires n <= mem_limit()
    ensures r@ == Seq::<T>::empty()
{
    Vec::with_capacity(n)
}

// --- integers ---------------------------------------------------------------------------------------------------------
pub open spec fn le_bytes(n: int, k: nat) -> Seq<u8>
    decreases k
{
    if k == 0 { Seq::empty() } else { seq![(n % 256) as u8] + le_bytes(n / 256, (k - 1) as nat) }
}

pub open spec fn le_value(s: Seq<u8>) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else { s[0] as int + 256 * le_value(s.drop_first()) }
}

pub trait VInto<T>: Sized {
    spec fn into_spec(self) -> T;
    fn v_into(self) -> (r: T)
        ensures r == self.into_spec();
}

pub trait VDefault: Sized {
    spec fn is_default(&self) -> bool;
    fn default() -> (r: Self)
        ensures r.is_default();
}

pub fn v_default<T: VDefault>() -> (r: T)
    ensures r.is_default()
{
    T::default()
}

impl<const N: usize> VDefault for [u8; N] {
    open spec fn is_default(&self) -> bool { self@ == Seq::new(N as nat, |i: int| 0u8) }
    fn default() -> (r: Self) {
        let r = [0u8; N];
        proof { assert(r@ =~= Seq::new(N as nat, |i: int| 0u8)); }
        r
    }
}

pub open spec fn pow256(k: nat) -> int
    decreases k
{
    if k == 0 { 1 } else { 256 * pow256((k - 1) as nat) }
}

pub broadcast proof fn lemma_le_len(n: int, k: nat)
    ensures #[trigger] le_bytes(n, k).len() == k
    decreases k
{
    if k > 0 { lemma_le_len(n / 256, (k - 1) as nat); }
}

pub proof fn lemma_pow256(k: nat)
    ensures pow256(k) > 0
    decreases k
{
    if k > 0 { lemma_pow256((k - 1) as nat); }
}

pub proof fn lemma_pow256_le(j: nat, k: nat)
    requires j <= k
    ensures pow256(j) <= pow256(k)
    decreases k - j
{
    if j < k { lemma_pow256_le(j + 1, k); lemma_pow256(j); }
}

pub proof fn lemma_le_there(n: int, k: nat)
    requires 0 <= n < pow256(k)
    ensures le_value(le_bytes(n, k)) == n
    decreases k
{
    if k > 0 {
        lemma_pow256((k - 1) as nat);
        assert(0 <= n / 256 < pow256((k - 1) as nat)) by (nonlinear_arith)
            requires 0 <= n < 256 * pow256((k - 1) as nat);
        lemma_le_there(n / 256, (k - 1) as nat);
        lemma_le_len(n, k);
        assert(le_bytes(n, k).drop_first() =~= le_bytes(n / 256, (k - 1) as nat));
        assert(le_bytes(n, k)[0] == (n % 256) as u8);
    }
}

pub proof fn lemma_le_back(s: Seq<u8>)
    ensures le_bytes(le_value(s), s.len()) == s, 0 <= le_value(s) < pow256(s.len())
    decreases s.len()
{
    if s.len() > 0 {
        lemma_le_back(s.drop_first());
        let n = le_value(s);
        let m = le_value(s.drop_first());
        assert(n % 256 == s[0] as int && n / 256 == m);
        assert(le_bytes(n, s.len()) =~= s);
    }
}

pub proof fn lemma_le_value4(s: Seq<u8>)
    requires s.len() == 4
    ensures le_value(s) == un4(s)
{
    reveal_with_fuel(le_value, 5);
    let a = s.drop_first();
    let b = a.drop_first();
    let c = b.drop_first();
    assert(a[0] == s[1] && b[0] == s[2] && c[0] == s[3]);
}

/// the low four bytes of a usize
pub proof fn lemma_le8(n: int)
    requires 0 <= n < pow32()
    ensures le_bytes(n, 8).subrange(0, 4) == le4(n)
{
    reveal_with_fuel(le_bytes, 5);
    lemma_le_len(n, 8);
    assert(n / 256 / 256 == n / 65536);
    assert(n / 256 / 256 / 256 == n / 16777216);
    assert(le_bytes(n, 8).subrange(0, 4) =~= le4(n));
}

pub trait VLe: Sized {
    type B;
    spec fn int_(self) -> int;
    spec fn raw(b: Self::B) -> Seq<u8>;
    spec fn size() -> nat;
    fn v_to_le_bytes(self) -> (r: Self::B)
        ensures Self::raw(r) == le_bytes(self.int_(), Self::size());
    fn v_from_le_bytes(b: Self::B) -> (r: Self)
        ensures r.int_() == le_value(Self::raw(b));
}

pub open spec fn to_le2(n: int) -> Seq<u8> { seq![(n % 256) as u8, (n / 256 % 256) as u8] }

pub proof fn lemma_le_cut(n: int, j: nat, k: nat)
    requires n >= 0
    ensures le_bytes(n, j + k) == le_bytes(n, j) + le_bytes(n / pow256(j), k)
    decreases j
{
    if j == 0 {
        assert(le_bytes(n, 0) + le_bytes(n, k) =~= le_bytes(n, k));
    } else {
        lemma_pow256((j - 1) as nat);
        lemma_le_cut(n / 256, (j - 1) as nat, k);
        vstd::arithmetic::div_mod::lemma_div_denominator(n, 256, pow256((j - 1) as nat));
        assert(le_bytes(n, j + k) =~= le_bytes(n, j) + le_bytes(n / pow256(j), k));
    }
}

pub proof fn lemma_le_cut_value(s: Seq<u8>, t: Seq<u8>)
    ensures le_value(s + t) == le_value(s) + pow256(s.len()) * le_value(t)
    decreases s.len()
{
    if s.len() == 0 {
        assert(s + t =~= t);
    } else {
        lemma_le_cut_value(s.drop_first(), t);
        assert((s + t).drop_first() =~= s.drop_first() + t);
        let (p, v) = (pow256((s.len() - 1) as nat), le_value(t));
        assert(256 * (p * v) == (256 * p) * v) by (nonlinear_arith);
    }
}

macro_rules! v_le {
    ($($t:ty, $k:literal);*) => { $( verus! {
        impl VLe for $t {
            type B = [u8; $k];
            open spec fn int_(self) -> int { self as int }
            open spec fn raw(b: [u8; $k]) -> Seq<u8> { b@ }
            open spec fn size() -> nat { $k }

            fn v_to_le_bytes(self) -> (r: [u8; $k]) {
                let mut b = [0u8; $k];
                let mut i: usize = 0;
                let mut n = self;
                while i < $k
                    invariant i <= $k, le_bytes(self as int, $k) == b@.take(i as int) + le_bytes(n as int, ($k - i) as nat)
                    decreases $k - i
                {
                    let ghost c = b@.take(i as int);
                    b[i] = (n % 256) as u8;
                    n = n / 256;
                    i = i + 1;
                    proof { assert(b@.take(i as int) =~= c.push(b@[i - 1])); assert(b@.take(i as int) + le_bytes(n as int, ($k - i) as nat) =~= c + (seq![b@[i - 1]] + le_bytes(n as int, ($k - i) as nat))); }
                }
                proof { assert(b@.take($k) =~= b@); assert(b@ + le_bytes(n as int, 0) =~= b@); }
                b
            }

            fn v_from_le_bytes(b: [u8; $k]) -> (r: Self) {
                let mut i: usize = $k;
                let mut n: $t = 0;
                proof { assert(b@.skip($k) =~= Seq::empty()); reveal_with_fuel(pow256, 17); }
                while i > 0
                    invariant i <= $k, n as int == le_value(b@.skip(i as int))
                    decreases i
                {
                    i = i - 1;
                    proof {
                        assert(b@.skip(i as int).drop_first() =~= b@.skip(i + 1));
                        lemma_le_back(b@.skip(i as int));
                        lemma_pow256_le(($k - i) as nat, $k);
                        reveal_with_fuel(pow256, 17);
                    }
                    let d = b[i] as $t;
                    n = d + 256 * n;
                }
                proof { assert(b@.skip(0) =~= b@); }
                n
            }
        }
    } )* }
}

v_le!(u16, 2; u32, 4; u64, 8; usize, 8; u128, 16);

impl VLe for u8 {
    type B = [u8; 1];
    open spec fn int_(self) -> int { self as int }
    open spec fn raw(b: [u8; 1]) -> Seq<u8> { b@ }
    open spec fn size() -> nat { 1 }
    fn v_to_le_bytes(self) -> (r: [u8; 1]) {
        proof { reveal_with_fuel(le_bytes, 2); }
        let r = [self];
        proof { assert(r@ =~= le_bytes(self as int, 1)); }
        r
    }
    fn v_from_le_bytes(b: [u8; 1]) -> (r: Self) {
        proof { reveal_with_fuel(le_value, 2); }
        b[0]
    }
}

# SmallVec, BTreeMap, BTreeSet

@@ raw
broadcast use { lemma_empty_parts, axiom_mem_limit, lemma_lay_push };

@@ module smallvec
@@ raw
/// smallvec::SmallVec<[T; N]>
#[verifier::reject_recursive_types(T)]
pub struct SVec<T, const N: usize> { items: Vec<T> }

impl<T, const N: usize> SVec<T, N> {
    pub closed spec fn view(&self) -> Seq<T> { self.items@ }

    pub fn new() -> (r: Self)
        ensures r.view() == Seq::<T>::empty()
    {
        SVec { items: Vec::new() }
    }

    pub fn v_iter(&self) -> (r: VIter<&T>)
        ensures r.fresh(), r.all() == Seq::new(self.view().len(), |i: int| &self.view()[i]), r.hint() == Some(self.view().len() as usize)
    {
        self.items.as_slice().v_iter()
    }

    /// `FromIterator`: grows with the items, and reserves what the iterator announces as its lower bound
    pub fn v_from_iter(it: VIter<T>) -> (r: Self)
        requires it.fresh()
        ensures r.view() == it.all()
    {
        SVec { items: it.done() }
    }
}

impl<T, E, const N: usize> VCollect<Result<T, E>> for Result<SVec<T, N>, E> {
    open spec fn collected(items: Seq<Result<T, E>>, r: Self) -> bool {
        match r {
            Ok(v) => v.view().len() == items.len() && forall|i: int| #![trigger items[i]] #![trigger v.view()[i]] 0 <= i < items.len() ==> items[i] == Ok::<T, E>(v.view()[i]),
            Err(_) => exists|i: int| 0 <= i < items.len() && (#[trigger] items[i]) is Err,
        }
    }
    fn v_collect(items: Vec<Result<T, E>>) -> (r: Self) {
        let r: Result<Vec<T>, E> = <Result<Vec<T>, E> as VCollect<Result<T, E>>>::v_collect(items);
        match r { Ok(v) => Ok(SVec { items: v }), Err(e) => Err(e) }
    }
}

impl<T: Ssz, const N: usize> Ssz for SVec<T, N> {
    type V = Seq<T::V>;
    open spec fn v(&self) -> Seq<T::V> { vals(self.view()) }
    open spec fn wf(&self) -> bool { list_wf(self.view()) }
    open spec fn valid(v: Seq<T::V>) -> bool { list_valid::<T>(v) }
    open spec fn ok() -> bool { T::ok() }
    open spec fn fixed() -> bool { false }
    open spec fn flen() -> nat { 4 }
    open spec fn enc(v: Seq<T::V>) -> Seq<u8> { list_enc::<T>(v) }
    open spec fn dec(b: Seq<u8>) -> Option<Seq<T::V>> { list_dec::<T>(b) }
    open spec fn rt() -> bool { list_rt::<T>() }
    open spec fn strict() -> bool { T::strict() }
    proof fn law_wf(&self) { lemma_list_wf(self.view()); }
    proof fn law_len(v: Seq<T::V>) { }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) { lemma_list_dec::<T>(b); }
    proof fn law_rt(v: Seq<T::V>) { lemma_list_rt::<T>(v); }
    proof fn law_strict(b: Seq<u8>) { lemma_list_strict::<T>(b); }
}

@@ impl TryFromIter<T> for SmallVec<[T;N]>
@items
    open spec fn accepts(items: Seq<T>) -> bool { true }
    open spec fn holds(&self, items: Seq<T>) -> bool { self.view() == items }
@@ fn TryFromIter<T> for SmallVec<[T;N]>::try_from_iter
@props C16 C01 C02 C04 C06 C19
@generics
@params iter: VIter<T>
@where

@@ impl Encode for SmallVec<[T;N]>
@@ fn Encode for SmallVec<[T;N]>::ssz_append
@start
    proof { lemma_iter_vals(self.view()); }
@@ fn Encode for SmallVec<[T;N]>::ssz_bytes_len
@start
    proof { lemma_iter_vals(self.view()); }

@@ impl Decode for SmallVec<[T;N]>
@@ fn Decode for SmallVec<[T;N]>::from_ssz_bytes
@start
    proof {
        T::law_flen();
        assert(bytes@.len() == 0 ==> bytes@ =~= Seq::<u8>::empty());
        lemma_empty_list::<T>();
        if bytes@.len() > 0 && T::fixed() { lemma_chunks_read::<T>(bytes@); }
    }
@closure 0
    |$0: &[u8]| -> (q: Result<T, DecodeError>)
        requires T::ok(), $0@.len() <= mem_limit()
        ensures q is Ok ==> T::dec($0@) == Some(q->Ok_0.v()) && q->Ok_0.wf(), q is Err ==> T::dec($0@) is None

@@ module maps
@@ raw
// --- ascending sequences, and what inserting entries one after the other leaves -----------------------------------

/// keys: the order the collections sort by (`Ord`), on abstract values
pub trait VOrd: Ssz {
    spec fn lt(a: Self::V, b: Self::V) -> bool;

    proof fn law_lt()
        ensures
            forall|a: Self::V| !#[trigger] Self::lt(a, a),
            forall|a: Self::V, b: Self::V, c: Self::V| #[trigger] Self::lt(a, b) && #[trigger] Self::lt(b, c) ==> Self::lt(a, c);

    /// `Ord` agrees with the order of the values
    fn v_less(&self, o: &Self) -> (r: bool)
        ensures r == Self::lt(self.v(), o.v());
}

pub type Lt<E> = spec_fn(E, E) -> bool;

pub open spec fn is_order<E>(lt: Lt<E>) -> bool {
    &&& forall|a: E| !#[trigger] lt(a, a)
    &&& forall|a: E, b: E, c: E| #[trigger] lt(a, b) && #[trigger] lt(b, c) ==> lt(a, c)
}

pub open spec fn ascending<E>(lt: Lt<E>, m: Seq<E>) -> bool { forall|i: int, j: int| 0 <= i < j < m.len() ==> lt(#[trigger] m[i], #[trigger] m[j]) }

/// the entries of m below (above) e
pub open spec fn side<E>(lt: Lt<E>, m: Seq<E>, e: E, below: bool) -> Seq<E>
    decreases m.len()
{
    if m.len() == 0 { Seq::empty() } else {
        let r = side(lt, m.drop_last(), e, below);
        if below && lt(m.last(), e) || !below && lt(e, m.last()) { r.push(m.last()) } else { r }
    }
}

/// m with e inserted, in place of an entry with the same key if there is one
pub open spec fn put<E>(lt: Lt<E>, m: Seq<E>, e: E) -> Seq<E> { side(lt, m, e, true).push(e) + side(lt, m, e, false) }

pub open spec fn norm<E>(lt: Lt<E>, s: Seq<E>) -> Seq<E>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { put(lt, norm(lt, s.drop_last()), s.last()) }
}

pub proof fn lemma_side<E>(lt: Lt<E>, m: Seq<E>, e: E, below: bool)
    requires is_order(lt)
    ensures
        ascending(lt, m) ==> ascending(lt, side(lt, m, e, below)),
        forall|i: int| 0 <= i < side(lt, m, e, below).len() ==> m.contains(#[trigger] side(lt, m, e, below)[i]),
        forall|i: int| 0 <= i < side(lt, m, e, below).len() ==> if below { lt(#[trigger] side(lt, m, e, below)[i], e) } else { lt(e, side(lt, m, e, below)[i]) },
    decreases m.len()
{
    if m.len() > 0 {
        let d = m.drop_last();
        lemma_side(lt, d, e, below);
        let r = side(lt, d, e, below);
        let s = side(lt, m, e, below);
        assert forall|i: int| 0 <= i < s.len() implies m.contains(#[trigger] s[i]) by {
            if i < r.len() {
                assert(d.contains(r[i]));
                let j = choose|j: int| 0 <= j < d.len() && d[j] == r[i];
                assert(m[j] == s[i]);
            } else {
                assert(m[m.len() - 1] == s[i]);
            }
        }
        if ascending(lt, m) {
            assert(ascending(lt, d)) by { assert forall|i: int, j: int| 0 <= i < j < d.len() implies lt(#[trigger] d[i], #[trigger] d[j]) by { assert(lt(m[i], m[j])); } }
            assert forall|i: int, j: int| 0 <= i < j < s.len() implies lt(#[trigger] s[i], #[trigger] s[j]) by {
                if j < r.len() { assert(lt(r[i], r[j])); } else {
                    assert(d.contains(r[i]));
                    let k = choose|k: int| 0 <= k < d.len() && d[k] == r[i];
                    assert(lt(m[k], m[m.len() - 1]));
                }
            }
        }
    }
}

pub proof fn lemma_put<E>(lt: Lt<E>, m: Seq<E>, e: E)
    requires is_order(lt), ascending(lt, m)
    ensures
        ascending(lt, put(lt, m, e)),
        forall|i: int| 0 <= i < put(lt, m, e).len() ==> #[trigger] put(lt, m, e)[i] == e || m.contains(put(lt, m, e)[i]),
{
    lemma_side(lt, m, e, true);
    lemma_side(lt, m, e, false);
    let a = side(lt, m, e, true);
    let c = side(lt, m, e, false);
    let p = put(lt, m, e);
    assert forall|i: int, j: int| 0 <= i < j < p.len() implies lt(#[trigger] p[i], #[trigger] p[j]) by {
        if i < a.len() { assert(p[i] == a[i]); assert(lt(a[i], e)); }
        if j > a.len() { assert(p[j] == c[j - a.len() - 1]); assert(lt(e, c[j - a.len() - 1])); }
        if j < a.len() { assert(lt(a[i], a[j])); }
        if i > a.len() { assert(lt(c[i - a.len() - 1], c[j - a.len() - 1])); }
    }
    assert forall|i: int| 0 <= i < p.len() implies #[trigger] p[i] == e || m.contains(p[i]) by {
        if i < a.len() { assert(p[i] == a[i]); }
        if i > a.len() { assert(p[i] == c[i - a.len() - 1]); }
    }
}

pub proof fn lemma_norm<E>(lt: Lt<E>, s: Seq<E>)
    requires is_order(lt)
    ensures ascending(lt, norm(lt, s)), forall|i: int| 0 <= i < norm(lt, s).len() ==> s.contains(#[trigger] norm(lt, s)[i])
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_norm(lt, d);
        lemma_put(lt, norm(lt, d), s.last());
        let n = norm(lt, s);
        assert forall|i: int| 0 <= i < n.len() implies s.contains(#[trigger] n[i]) by {
            if n[i] == s.last() { assert(s[s.len() - 1] == n[i]); } else {
                let k = choose|k: int| 0 <= k < norm(lt, d).len() && norm(lt, d)[k] == n[i];
                assert(d.contains(norm(lt, d)[k]));
                let j = choose|j: int| 0 <= j < d.len() && d[j] == n[i];
                assert(s[j] == n[i]);
            }
        }
    }
}

pub proof fn lemma_side_all<E>(lt: Lt<E>, m: Seq<E>, e: E)
    requires is_order(lt), forall|i: int| 0 <= i < m.len() ==> lt(#[trigger] m[i], e)
    ensures side(lt, m, e, true) == m, side(lt, m, e, false) == Seq::<E>::empty()
    decreases m.len()
{
    if m.len() > 0 {
        assert forall|i: int| 0 <= i < m.drop_last().len() implies lt(#[trigger] m.drop_last()[i], e) by { assert(lt(m[i], e)); }
        lemma_side_all(lt, m.drop_last(), e);
        assert(lt(m[m.len() - 1], e));
        assert(m.drop_last().push(m.last()) =~= m);
    }
}

/// collecting what is already ascending changes nothing
pub proof fn lemma_norm_id<E>(lt: Lt<E>, s: Seq<E>)
    requires is_order(lt), ascending(lt, s)
    ensures norm(lt, s) == s
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        assert forall|i: int, j: int| 0 <= i < j < d.len() implies lt(#[trigger] d[i], #[trigger] d[j]) by { assert(lt(s[i], s[j])); }
        lemma_norm_id(lt, d);
        assert forall|i: int| 0 <= i < d.len() implies lt(#[trigger] d[i], s.last()) by { assert(lt(s[i], s[s.len() - 1])); }
        lemma_side_all(lt, d, s.last());
        assert(put(lt, d, s.last()) =~= s);
    } else {
        assert(norm(lt, s) =~= s);
    }
}

pub open spec fn key_lt<K: VOrd, V: Ssz>() -> Lt<(K::V, V::V)> { |a: (K::V, V::V), b: (K::V, V::V)| K::lt(a.0, b.0) }

pub open spec fn item_lt<T: VOrd>() -> Lt<T::V> { |a: T::V, b: T::V| T::lt(a, b) }

pub proof fn lemma_key_lt<K: VOrd, V: Ssz>()
    ensures is_order(key_lt::<K, V>())
{
    K::law_lt();
}

pub proof fn lemma_item_lt<T: VOrd>()
    ensures is_order(item_lt::<T>())
{
    T::law_lt();
}

pub proof fn lemma_valid_norm<T: Ssz>(lt: Lt<T::V>, s: Seq<T::V>)
    requires is_order(lt), list_valid::<T>(s)
    ensures list_valid::<T>(norm(lt, s))
{
    lemma_norm(lt, s);
    assert forall|i: int| 0 <= i < norm(lt, s).len() implies T::valid(#[trigger] norm(lt, s)[i]) by {
        let n = norm(lt, s)[i];
        assert(s.contains(n));
        let j = choose|j: int| 0 <= j < s.len() && s[j] == n;
        assert(T::valid(s[j]));
    }
}

/// what collecting into an ordered collection keeps
fn v_norm<E: Ssz, F: Fn(&E, &E) -> bool>(items: Vec<E>, Ghost(lt): Ghost<Lt<E::V>>, f: F) -> (r: Vec<E>)
    requires
        is_order(lt),
        forall|a: &E, b: &E| #[trigger] f.requires((a, b)),
        forall|a: &E, b: &E, c: bool| #[trigger] f.ensures((a, b), c) ==> c == lt(a.v(), b.v()),
    ensures vals(r@) == norm(lt, vals(items@)), list_wf(items@) ==> list_wf(r@)
{
    let mut items = items;
    let ghost s = items@;
    let mut m: Vec<E> = Vec::new();
    let mut k: Ghost<int> = Ghost(0);
    proof { assert(vals(s.take(0)) =~= Seq::empty()); assert(vals(m@) =~= Seq::empty()); }
    while items.len() > 0
        invariant
            is_order(lt), 0 <= k@ <= s.len(), items@ == s.skip(k@), vals(m@) == norm(lt, vals(s.take(k@))), list_wf(s) ==> list_wf(m@),
            forall|a: &E, b: &E| #[trigger] f.requires((a, b)),
            forall|a: &E, b: &E, c: bool| #[trigger] f.ensures((a, b), c) ==> c == lt(a.v(), b.v()),
        decreases items.len()
    {
        let e = items.remove(0);
        let ghost old = m@;
        let mut lo: Vec<E> = Vec::new();
        let mut hi: Vec<E> = Vec::new();
        let mut rest: Vec<E> = Vec::new();
        ::core::mem::swap(&mut rest, &mut m);
        let mut j: Ghost<int> = Ghost(0);
        proof { assert(vals(old.take(0)) =~= Seq::empty()); assert(vals(lo@) =~= Seq::empty()); assert(vals(hi@) =~= Seq::empty()); }
        while rest.len() > 0
            invariant
                0 <= j@ <= old.len(), rest@ == old.skip(j@), list_wf(old) ==> list_wf(lo@) && list_wf(hi@),
                vals(lo@) == side(lt, vals(old.take(j@)), e.v(), true), vals(hi@) == side(lt, vals(old.take(j@)), e.v(), false), is_order(lt),
                forall|a: &E, b: &E| #[trigger] f.requires((a, b)),
                forall|a: &E, b: &E, c: bool| #[trigger] f.ensures((a, b), c) ==> c == lt(a.v(), b.v()),
            decreases rest.len()
        {
            let x = rest.remove(0);
            let ghost (l0, o0) = (lo@, old.take(j@ + 1));
            proof {
                assert(vals(o0).drop_last() =~= vals(old.take(j@)));
                assert(vals(o0).last() == x.v());
            }
            let ghost h0 = hi@;
            if f(&x, &e) {
                lo.push(x);
                proof { assert(vals(lo@) =~= vals(l0).push(x.v())); }
            } else if f(&e, &x) {
                hi.push(x);
                proof { assert(vals(hi@) =~= vals(h0).push(x.v())); }
            }
            proof { assert(rest@ =~= old.skip(j@ + 1)); }
            j = Ghost(j@ + 1);
        }
        let ghost (l1, h1) = (lo@, hi@);
        lo.push(e);
        lo.append(&mut hi);
        proof {
            assert(old.take(j@) =~= old);
            assert(vals(lo@) =~= vals(l1).push(e.v()) + vals(h1));
            assert(vals(s.take(k@ + 1)).drop_last() =~= vals(s.take(k@)));
            assert(vals(s.take(k@ + 1)).last() == e.v());
            assert(items@ =~= s.skip(k@ + 1));
            assert(lo@ =~= l1.push(e) + h1);
        }
        m = lo;
        k = Ghost(k@ + 1);
    }
    proof { assert(s.take(k@) =~= s); }
    m
}

// --- alloc::collections::BTreeMap ----------------------------------------------------------------------------------
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct BTreeMap<K, V> { items: Vec<(K, V)> }

fn map_refs<'a, K, V>(s: &'a Vec<(K, V)>) -> (r: Vec<(&'a K, &'a V)>)
    ensures r@ == refs(s@)
{
    let mut o: Vec<(&'a K, &'a V)> = Vec::new();
    let mut i: usize = 0;
    while i < s.len()
        invariant i <= s@.len(), o@.len() == i, forall|j: int| 0 <= j < i ==> #[trigger] o@[j] == (&s@[j].0, &s@[j].1)
        decreases s@.len() - i
    {
        o.push((&s[i].0, &s[i].1));
        i = i + 1;
    }
    proof { assert(o@ =~= refs(s@)); }
    o
}

pub open spec fn refs<'a, K, V>(s: Seq<(K, V)>) -> Seq<(&'a K, &'a V)> { Seq::new(s.len(), |i: int| (&s[i].0, &s[i].1)) }

impl<K: VOrd, V: Ssz> BTreeMap<K, V> {
    /// the entries by ascending key
    pub closed spec fn view(&self) -> Seq<(K, V)> { self.items@ }

    pub fn v_iter(&self) -> (r: VIter<(&K, &V)>)
        ensures r.fresh(), r.all() == refs(self.view()), r.hint() == Some(self.view().len() as usize)
    {
        VIter::of(map_refs(&self.items), Some(self.items.len()))
    }

    pub fn v_from_iter(it: VIter<(K, V)>) -> (r: Self)
        requires it.fresh()
        ensures r.made_of(it.all())
    {
        proof { lemma_key_lt::<K, V>(); }
        BTreeMap { items: v_norm(it.done(), Ghost(key_lt::<K, V>()), |a: &(K, V), b: &(K, V)| -> (c: bool) ensures c == key_lt::<K, V>()(a.v(), b.v()) { a.0.v_less(&b.0) }) }
    }

    pub open spec fn made_of(&self, items: Seq<(K, V)>) -> bool {
        &&& vals(self.view()) == norm(key_lt::<K, V>(), vals(items))
        &&& list_wf(items) ==> list_wf(self.view())
    }
}

impl<K: VOrd, V: Ssz, E> VCollect<Result<(K, V), E>> for Result<BTreeMap<K, V>, E> {
    open spec fn collected(items: Seq<Result<(K, V), E>>, r: Self) -> bool {
        match r {
            Ok(m) => exists|s: Seq<(K, V)>| #[trigger] m.made_of(s) && s.len() == items.len() && forall|i: int| #![trigger items[i]] #![trigger s[i]] 0 <= i < items.len() ==> items[i] == Ok::<(K, V), E>(s[i]),
            Err(_) => exists|i: int| 0 <= i < items.len() && (#[trigger] items[i]) is Err,
        }
    }
    fn v_collect(items: Vec<Result<(K, V), E>>) -> (r: Self) {
        let r: Result<Vec<(K, V)>, E> = <Result<Vec<(K, V)>, E> as VCollect<Result<(K, V), E>>>::v_collect(items);
        match r {
            Ok(v) => {
                let ghost s = v@;
                proof {
                    assert(s.len() == items@.len());
                    assert forall|i: int| #![trigger items@[i]] #![trigger s[i]] 0 <= i < items@.len() implies items@[i] == Ok::<(K, V), E>(s[i]) by { assert(items@[i] == Ok::<(K, V), E>(s[i])); }
                }
                let m = BTreeMap::v_from_iter(VIter::of(v, None));
                let z: Self = Ok(m);
                proof { assert(m.made_of(s)); assert(z->Ok_0.made_of(s)); assert(Self::collected(items@, z)); }
                z
            }
            Err(e) => { let z: Self = Err(e); proof { assert(Self::collected(items@, z)); } z }
        }
    }
}

impl<K: VOrd, V: Ssz> Ssz for BTreeMap<K, V> {
    type V = Seq<(K::V, V::V)>;
    open spec fn v(&self) -> Seq<(K::V, V::V)> { vals(self.view()) }
    open spec fn wf(&self) -> bool { list_wf(self.view()) && ascending(key_lt::<K, V>(), vals(self.view())) }
    open spec fn valid(v: Seq<(K::V, V::V)>) -> bool { list_valid::<(K, V)>(v) && ascending(key_lt::<K, V>(), v) }
    open spec fn ok() -> bool { <(K, V) as Ssz>::ok() }
    open spec fn fixed() -> bool { false }
    open spec fn flen() -> nat { 4 }
    open spec fn enc(v: Seq<(K::V, V::V)>) -> Seq<u8> { list_enc::<(K, V)>(v) }
    open spec fn dec(b: Seq<u8>) -> Option<Seq<(K::V, V::V)>> { match list_dec::<(K, V)>(b) { Some(s) => Some(norm(key_lt::<K, V>(), s)), None => None } }
    open spec fn rt() -> bool { list_rt::<(K, V)>() }
    open spec fn strict() -> bool { false }
    proof fn law_wf(&self) { lemma_list_wf(self.view()); }
    proof fn law_len(v: Seq<(K::V, V::V)>) { }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) {
        lemma_key_lt::<K, V>();
        lemma_list_dec::<(K, V)>(b);
        lemma_norm(key_lt::<K, V>(), list_dec::<(K, V)>(b).unwrap());
        lemma_valid_norm::<(K, V)>(key_lt::<K, V>(), list_dec::<(K, V)>(b).unwrap());
    }
    proof fn law_rt(v: Seq<(K::V, V::V)>) { lemma_key_lt::<K, V>(); lemma_list_rt::<(K, V)>(v); lemma_norm_id(key_lt::<K, V>(), v); }
    proof fn law_strict(b: Seq<u8>) { }
}

/// C19: what an encoding decodes to is the value, and re-encoding any decoded collection is a fixed point
pub proof fn lemma_map_fixed_point<K: VOrd, V: Ssz>(b: Seq<u8>)
    requires
        BTreeMap::<K, V>::ok(), BTreeMap::<K, V>::rt(), BTreeMap::<K, V>::dec(b) is Some,
        BTreeMap::<K, V>::enc(BTreeMap::<K, V>::dec(b).unwrap()).len() < pow32(),
    ensures BTreeMap::<K, V>::dec(BTreeMap::<K, V>::enc(BTreeMap::<K, V>::dec(b).unwrap())) == BTreeMap::<K, V>::dec(b)
{
    BTreeMap::<K, V>::law_dec(b);
    BTreeMap::<K, V>::law_rt(BTreeMap::<K, V>::dec(b).unwrap());
}

pub proof fn lemma_map_refs<K: VOrd, V: Ssz>(s: Seq<(K, V)>)
    ensures
        vals(refs(s)) == vals(s),
        list_wf(s) ==> list_wf(refs(s)),
        list_enc::<(&K, &V)>(vals(s)) == list_enc::<(K, V)>(vals(s)),
{
    assert(vals(refs(s)) =~= vals(s));
    assert forall|v: (K::V, V::V)| #[trigger] part::<(&K, &V)>(v) == part::<(K, V)>(v) by {
        assert(parts2::<&K, &V>(v) =~= parts2::<K, V>(v));
    }
    assert(parts_of::<(&K, &V)>(vals(s)) =~= parts_of::<(K, V)>(vals(s)));
    if list_wf(s) {
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] refs(s)[i]).wf() by { assert(s[i].wf()); }
    }
}

@@ impl TryFromIter<(K,V)> for BTreeMap<K,V>
@header impl<K: VOrd, V: Ssz> TryFromIter<(K, V)> for BTreeMap<K, V>
@items
    open spec fn accepts(items: Seq<(K, V)>) -> bool { true }
    open spec fn holds(&self, items: Seq<(K, V)>) -> bool { self.made_of(items) }
@@ fn TryFromIter<(K,V)> for BTreeMap<K,V>::try_from_iter
@props C16 C19 C01 C04 C06 C02
@generics
@params iter: VIter<(K, V)>
@where

@@ impl Encode for BTreeMap<K,V>
@header impl<K: Encode + VOrd, V: Encode> Encode for BTreeMap<K, V>
@@ fn Encode for BTreeMap<K,V>::ssz_append
@props C01 C03 C07 C10 C19
@start
    proof { lemma_map_refs(self.view()); }
@@ fn Encode for BTreeMap<K,V>::ssz_bytes_len
@start
    proof { lemma_map_refs(self.view()); }

@@ impl Decode for BTreeMap<K,V>
@header impl<K: Decode + VOrd, V: Decode> Decode for BTreeMap<K, V>
@@ fn Decode for BTreeMap<K,V>::from_ssz_bytes
@props C01 C04 C05 C06 C07 C19
@start
    proof {
        <(K, V) as Ssz>::law_flen();
        lemma_key_lt::<K, V>();
        assert(bytes@.len() == 0 ==> bytes@ =~= Seq::<u8>::empty());
        lemma_empty_list::<(K, V)>();
        if bytes@.len() > 0 && <(K, V) as Ssz>::fixed() { lemma_chunks_read::<(K, V)>(bytes@); }
        assert forall|s: Seq<(K, V)>| true implies ascending(key_lt::<K, V>(), #[trigger] norm(key_lt::<K, V>(), vals(s))) by { lemma_norm(key_lt::<K, V>(), vals(s)); }
    }
@closure 0
    |$0: &[u8]| -> (q: Result<(K, V), DecodeError>)
        requires <(K, V) as Ssz>::ok(), $0@.len() <= mem_limit()
        ensures q is Ok ==> <(K, V) as Ssz>::dec($0@) == Some(q->Ok_0.v()) && q->Ok_0.wf(), q is Err ==> <(K, V) as Ssz>::dec($0@) is None

@@ raw
// --- alloc::collections::BTreeSet ----------------------------------------------------------------------------------
#[verifier::reject_recursive_types(T)]
pub struct BTreeSet<T> { items: Vec<T> }

impl<T: VOrd> BTreeSet<T> {
    /// the items, ascending
    pub closed spec fn view(&self) -> Seq<T> { self.items@ }

    pub fn v_iter(&self) -> (r: VIter<&T>)
        ensures r.fresh(), r.all() == Seq::new(self.view().len(), |i: int| &self.view()[i]), r.hint() == Some(self.view().len() as usize)
    {
        self.items.as_slice().v_iter()
    }

    pub fn v_from_iter(it: VIter<T>) -> (r: Self)
        requires it.fresh()
        ensures r.made_of(it.all())
    {
        proof { lemma_item_lt::<T>(); }
        BTreeSet { items: v_norm(it.done(), Ghost(item_lt::<T>()), |a: &T, b: &T| -> (c: bool) ensures c == item_lt::<T>()(a.v(), b.v()) { a.v_less(b) }) }
    }

    pub open spec fn made_of(&self, items: Seq<T>) -> bool {
        &&& vals(self.view()) == norm(item_lt::<T>(), vals(items))
        &&& list_wf(items) ==> list_wf(self.view())
    }
}

impl<T: VOrd, E> VCollect<Result<T, E>> for Result<BTreeSet<T>, E> {
    open spec fn collected(items: Seq<Result<T, E>>, r: Self) -> bool {
        match r {
            Ok(m) => exists|s: Seq<T>| #[trigger] m.made_of(s) && s.len() == items.len() && forall|i: int| #![trigger items[i]] #![trigger s[i]] 0 <= i < items.len() ==> items[i] == Ok::<T, E>(s[i]),
            Err(_) => exists|i: int| 0 <= i < items.len() && (#[trigger] items[i]) is Err,
        }
    }
    fn v_collect(items: Vec<Result<T, E>>) -> (r: Self) {
        let r: Result<Vec<T>, E> = <Result<Vec<T>, E> as VCollect<Result<T, E>>>::v_collect(items);
        match r {
            Ok(v) => {
                let ghost s = v@;
                proof {
                    assert(s.len() == items@.len());
                    assert forall|i: int| #![trigger items@[i]] #![trigger s[i]] 0 <= i < items@.len() implies items@[i] == Ok::<T, E>(s[i]) by { assert(items@[i] == Ok::<T, E>(s[i])); }
                }
                let m = BTreeSet::v_from_iter(VIter::of(v, None));
                let z: Self = Ok(m);
                proof { assert(m.made_of(s)); assert(z->Ok_0.made_of(s)); assert(Self::collected(items@, z)); }
                z
            }
            Err(e) => { let z: Self = Err(e); proof { assert(Self::collected(items@, z)); } z }
        }
    }
}

impl<T: VOrd> Ssz for BTreeSet<T> {
    type V = Seq<T::V>;
    open spec fn v(&self) -> Seq<T::V> { vals(self.view()) }
    open spec fn wf(&self) -> bool { list_wf(self.view()) && ascending(item_lt::<T>(), vals(self.view())) }
    open spec fn valid(v: Seq<T::V>) -> bool { list_valid::<T>(v) && ascending(item_lt::<T>(), v) }
    open spec fn ok() -> bool { T::ok() }
    open spec fn fixed() -> bool { false }
    open spec fn flen() -> nat { 4 }
    open spec fn enc(v: Seq<T::V>) -> Seq<u8> { list_enc::<T>(v) }
    open spec fn dec(b: Seq<u8>) -> Option<Seq<T::V>> { match list_dec::<T>(b) { Some(s) => Some(norm(item_lt::<T>(), s)), None => None } }
    open spec fn rt() -> bool { list_rt::<T>() }
    open spec fn strict() -> bool { false }
    proof fn law_wf(&self) { lemma_list_wf(self.view()); }
    proof fn law_len(v: Seq<T::V>) { }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) {
        lemma_item_lt::<T>();
        lemma_list_dec::<T>(b);
        lemma_norm(item_lt::<T>(), list_dec::<T>(b).unwrap());
        lemma_valid_norm::<T>(item_lt::<T>(), list_dec::<T>(b).unwrap());
    }
    proof fn law_rt(v: Seq<T::V>) { lemma_item_lt::<T>(); lemma_list_rt::<T>(v); lemma_norm_id(item_lt::<T>(), v); }
    proof fn law_strict(b: Seq<u8>) { }
}

pub proof fn lemma_set_fixed_point<T: VOrd>(b: Seq<u8>)
    requires
        BTreeSet::<T>::ok(), BTreeSet::<T>::rt(), BTreeSet::<T>::dec(b) is Some,
        BTreeSet::<T>::enc(BTreeSet::<T>::dec(b).unwrap()).len() < pow32(),
    ensures BTreeSet::<T>::dec(BTreeSet::<T>::enc(BTreeSet::<T>::dec(b).unwrap())) == BTreeSet::<T>::dec(b)
{
    BTreeSet::<T>::law_dec(b);
    BTreeSet::<T>::law_rt(BTreeSet::<T>::dec(b).unwrap());
}

@@ impl TryFromIter<T> for BTreeSet<T>
@header impl<T: VOrd> TryFromIter<T> for BTreeSet<T>
@items
    open spec fn accepts(items: Seq<T>) -> bool { true }
    open spec fn holds(&self, items: Seq<T>) -> bool { self.made_of(items) }
@@ fn TryFromIter<T> for BTreeSet<T>::try_from_iter
@props C16 C19 C01 C04 C06 C02
@generics
@params iter: VIter<T>
@where

@@ impl Encode for BTreeSet<T>
@header impl<T: Encode + VOrd> Encode for BTreeSet<T>
@@ fn Encode for BTreeSet<T>::ssz_append
@props C01 C03 C07 C10 C19
@start
    proof { lemma_iter_vals(self.view()); }
@@ fn Encode for BTreeSet<T>::ssz_bytes_len
@start
    proof { lemma_iter_vals(self.view()); }

@@ impl Decode for BTreeSet<T>
@header impl<T: Decode + VOrd> Decode for BTreeSet<T>
@@ fn Decode for BTreeSet<T>::from_ssz_bytes
@props C01 C04 C05 C06 C07 C19
@start
    proof {
        T::law_flen();
        lemma_item_lt::<T>();
        assert(bytes@.len() == 0 ==> bytes@ =~= Seq::<u8>::empty());
        lemma_empty_list::<T>();
        if bytes@.len() > 0 && T::fixed() { lemma_chunks_read::<T>(bytes@); }
        assert forall|s: Seq<T>| true implies ascending(item_lt::<T>(), #[trigger] norm(item_lt::<T>(), vals(s))) by { lemma_norm(item_lt::<T>(), vals(s)); }
    }
@closure 0
    |$0: &[u8]| -> (q: Result<T, DecodeError>)
        requires T::ok(), $0@.len() <= mem_limit()
        ensures q is Ok ==> T::dec($0@) == Some(q->Ok_0.v()) && q->Ok_0.wf(), q is Err ==> T::dec($0@) is None

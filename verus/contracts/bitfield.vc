# bitfields as sequences of booleans

@@ raw
broadcast use { axiom_mem_limit, lemma_and7, lemma_shr3 };

pub open spec fn falses(n: int) -> Seq<bool> { Seq::new(n as nat, |i: int| false) }

use ::core::marker::PhantomData;

@@ item Error
@attr #[derive(Debug)]

@@ trait BitfieldBehaviour
@super Sized
@items
    /// the lengths a bitfield of this kind can have
    spec fn lens(n: int) -> bool;

@@ item SMALLVEC_LEN
@@ item Variable
@@ item Fixed
@@ item Dynamic
@@ item Bitfield
@@ item BitIter

@@ impl BitfieldBehaviour for Variable<N>
@items
    open spec fn lens(n: int) -> bool { 0 <= n <= N::n() }
@@ impl BitfieldBehaviour for Fixed<N>
@items
    open spec fn lens(n: int) -> bool { n == N::n() }
@@ impl BitfieldBehaviour for Dynamic
@items
    open spec fn lens(n: int) -> bool { n > 0 && n % 8 == 0 }

@@ raw
impl<T> Bitfield<T> {
    /// the bits
    pub open spec fn view(&self) -> Seq<bool> { bits(self.bytes@, self.len as int) }

    /// minimal length, nothing set at or beyond the length
    pub open spec fn sound(&self) -> bool { shape(self.bytes@, self.len as int) && self.bytes@.len() <= mem_limit() + 1 }

    /// derived `Clone`
    #[verifier::external_body]
    pub fn v_clone(&self) -> (r: Self)
        ensures r.bytes@ == self.bytes@, r.len == self.len
    {
        unimplemented!()
    }
}

impl<T: BitfieldBehaviour> Bitfield<T> {
    /// a value of the type
    pub open spec fn good(&self) -> bool { self.sound() && self.bytes@.len() <= mem_limit() && T::lens(self.len as int) }

    // the names the extraction gives the calls
    pub fn v_get(&self, i: usize) -> (r: Result<bool, Error>)
        requires self.sound()
        ensures r is Ok <==> i < self.len, r is Ok ==> r->Ok_0 == self@[i as int]
    {
        self.get(i)
    }

    pub fn v_as_slice(&self) -> (r: &[u8])
        ensures r@ == self.bytes@
    {
        self.as_slice()
    }

    pub fn v_is_empty(&self) -> (r: bool)
        ensures r == (self.len == 0)
    {
        self.is_empty()
    }

    /// what a `for` loop over the bits sees
    pub fn v_iter(&self) -> (r: VIter<bool>)
        requires self.sound()
        ensures r.fresh(), r.all() == self@
    {
        let mut it = self.iter();
        let mut v: Vec<bool> = Vec::new();
        loop
            invariant
                self.sound(), it.bitfield == self, it.i == v@.len(), it.i <= self.len, v@ == self@.take(it.i as int), self.bytes@.len() <= mem_limit() + 1
            ensures v@ == self@
            decreases self.len - it.i
        {
            match it.next() {
                Some(b) => {
                    v.push(b);
                    proof { assert(v@ =~= self@.take(it.i as int)); }
                }
                None => {
                    proof { assert(v@ =~= self@); }
                    break;
                }
            }
        }
        v_from_vec(v)
    }
}

@@ fn bytes_for_bit_len
@props C11 C12 C13 C14 C03 C04 C05 C07 C20 C01 C02 C06 C10 C18
@spec
    ensures r == nb(bit_len as int)

# ---------------------------------------------------------------------------------------------------------------
@@ impl Bitfield<T>
@@ fn Bitfield<T>::set
@props C11 C13
@spec
    requires old(self).sound()
    ensures
        r is Ok <==> i < old(self).len,
        final(self).len == old(self).len,
        final(self).sound(),
        final(self).bytes@.len() == old(self).bytes@.len(),
        r is Ok ==> final(self)@ == old(self)@.update(i as int, value),
        r is Err ==> final(self).bytes@ == old(self).bytes@
@start
    proof {
        lemma_bit_forms(0, (i % 8) as usize);
        if i < self.len { lemma_bit_forms(self.bytes@[i as int / 8], (i % 8) as usize); lemma_set_forms(self.bytes@[i as int / 8], (i % 8) as usize); }
    }
    let ghost b0 = self.bytes@;
@result v_r
@finish
    proof {
        if i < self.len {
            lemma_set_bit(b0, i as int, value, self.bytes@, self.len as int);
        }
    }

@@ fn Bitfield<T>::get
@props C11 C13
@spec
    requires self.sound()
    ensures r is Ok <==> i < self.len, r is Ok ==> r->Ok_0 == self@[i as int]
@start
    proof { if i < self.len { lemma_bit_forms(self.bytes@[i as int / 8], (i % 8) as usize); } }

@@ fn Bitfield<T>::len
@props C11 C13
@spec
    ensures r == self.len

@@ fn Bitfield<T>::is_empty
@props C11
@spec
    ensures r == (self.len == 0)

@@ fn Bitfield<T>::into_raw_bytes
@props C11 C14 C01 C02 C03 C04 C05 C06 C07 C10 C13 C18 C20
@spec
    ensures r@ == self.bytes@

@@ fn Bitfield<T>::as_slice
@props C11 C14 C07
@spec
    ensures r@ == self.bytes@

@@ fn Bitfield<T>::from_raw_bytes
@props C02 C04 C05 C11 C13 C14 C01 C03 C06 C07 C10 C18 C20
@spec
    ensures
        r is Ok <==> shape(bytes@, bit_len as int),
        r is Ok ==> r->Ok_0.bytes@ == bytes@ && r->Ok_0.len == bit_len
@start
    proof {
        lemma_trunc(bit_len);
        if bit_len > 0 && bytes@.len() == nb(bit_len as int) {
            lemma_pad(bytes@, bit_len as int);
            // the mask, written another way
            lemma_full_mask(bytes@.last());
            if bit_len % 8 != 0 { lemma_tail_forms(bytes@.last(), bit_len % 8); }
            lemma_pad_mask(bit_len as int);
        }
        if bit_len == 0 && bytes@.len() == 1 {
            lemma_nonzero(bytes@[0]);
            if bytes@[0] == 0 { lemma_zeros(bytes@, 0); }
            assert(shape(bytes@, 0) ==> bytes@[0] == 0) by {
                if shape(bytes@, 0) { assert forall|j: int| 0 <= j < 8 implies !#[trigger] bit8(bytes@[0], j) by { assert(!bit(bytes@, j)); } }
            }
        }
    }

@@ fn Bitfield<T>::highest_set_bit
@props C11 C04 C14 C01 C02 C05 C06 C07 C13 C18 C20
@spec
    requires self.sound()
    ensures match r { Some(h) => is_top(self@, h as int), None => is_clear(self@) }
@start
    proof {
        lemma_clear(self.bytes@, self.len as int);
        let b = self.bytes@;
        let n = b.len() as int;
        assert forall|k: int| 0 <= k < n && b[k] != 0 && (forall|l: int| k < l < n ==> #[trigger] b[l] == 0) implies #[trigger] is_top(self@, 8 * k + msb(b[k])) by {
            lemma_top(b, self.len as int, k);
        }
        assert forall|k: int| 0 <= k < n && #[trigger] b[k] != 0 implies 0 <= msb(b[k]) < 8 by { lemma_msb(b[k]); }
        assert forall|it: Seq<(usize, &u8)>, l: int| #![trigger it.reverse(), b[l]] it.len() == n && 0 <= l < n implies it.reverse()[n - 1 - l] == it[l] by { }
    }
@closure 0
    |v_c0: &(usize, &u8)| -> (q: bool)
        ensures q == (*v_c0.1 != 0)
@result v_r
@finish
    proof {
        assert(v_r is None ==> forall|k: int| 0 <= k < self.bytes@.len() ==> #[trigger] self.bytes@[k] == 0);
        assert(v_r is Some ==> exists|k: int| 0 <= k < self.bytes@.len() && v_r->Some_0 == 8 * k + msb(#[trigger] self.bytes@[k])
            && self.bytes@[k] != 0 && (forall|l: int| k < l < self.bytes@.len() ==> #[trigger] self.bytes@[l] == 0));
    }

@@ fn Bitfield<T>::iter
@props C11
@spec
    ensures r.bitfield == self, r.i == 0

@@ fn Bitfield<T>::is_zero
@props C11 C12
@spec
    requires self.sound()
    ensures r == is_clear(self@)
@start
    proof {
        lemma_clear(self.bytes@, self.len as int);
        assert forall|k: int| 0 <= k < self.bytes@.len() implies #[trigger] self.bytes@[k] == *elem_refs(self.bytes@)[k] by { }
    }
@closure 0
    |byte: &u8| -> (q: bool)
        ensures q == ($body)

@@ fn Bitfield<T>::num_set_bits
@props C11
@spec
    requires self.sound()
    ensures r == count(self@)
@start
    proof {
        assert forall|c: Seq<usize>| c.len() == self.bytes@.len() && (forall|k: int| 0 <= k < c.len() ==> #[trigger] c[k] == ones(self.bytes@[k]))
            implies #[trigger] seq_sum(c) == count(self@) && seq_sum(c) <= 8 * self.bytes@.len() by { lemma_count(self.bytes@, self.len as int, c); }
    }
@closure 0
    |byte: &u8| -> (q: usize)
        ensures q == ones(*byte)

@@ fn Bitfield<T>::difference
@props C11 C12
@spec
    requires self.good(), other.good()
    ensures r.good(), r.len == self.len, r@ == minus_bits(self@, other@)

@@ fn Bitfield<T>::difference_inplace
@props C11 C12 C13
@spec
    requires old(self).good(), other.good()
    ensures final(self).good(), final(self).len == old(self).len, final(self)@ == minus_bits(old(self)@, other@)
@start
    let ghost b0 = self.bytes@;
    let ghost g_n: int = if self.bytes@.len() < other.bytes@.len() { self.bytes@.len() as int } else { other.bytes@.len() as int };
@loop 0
    invariant
        v_it0.all().len() == g_n, v_it0.pos() <= g_n,
        forall|i: int| 0 <= i < g_n ==> #[trigger] v_it0.all()[i] == i,
        self.bytes@.len() == b0.len(), self.len == old(self).len, g_n <= b0.len(), g_n <= other.bytes@.len(),
        forall|k: int| 0 <= k < v_it0.pos() ==> #[trigger] self.bytes@[k] == b0[k] & !other.bytes@[k],
        forall|k: int| v_it0.pos() <= k < b0.len() ==> #[trigger] self.bytes@[k] == b0[k],
    ensures v_it0.pos() == g_n
    decreases g_n - v_it0.pos()
@finish
    proof {
        assert forall|k: int| 0 <= k < self.bytes@.len() implies #[trigger] self.bytes@[k] == b0[k] & !byte_at(other.bytes@, k) by {
            if k >= g_n { lemma_and_not_zero(b0[k]); }
        }
        lemma_minus(b0, self.len as int, other.bytes@, other.len as int, self.bytes@);
    }

@@ fn Bitfield<T>::shift_up
@props C11 C13
@spec
    requires old(self).good()
    ensures
        r is Ok <==> n <= old(self).len,
        final(self).good(), final(self).len == old(self).len,
        r is Ok ==> final(self)@ == shifted(old(self)@, n as int),
        r is Err ==> final(self).bytes@ == old(self).bytes@
@start
    let ghost s0 = self@;
    let ghost l0 = self.len as int;
@loop 0
    invariant
        l0 == self.len, self.sound(), self.bytes@.len() <= mem_limit(), T::lens(l0), n <= l0, s0.len() == l0,
        v_it0.all().len() == l0 - n, v_it0.pos() <= l0 - n,
        forall|i: int| 0 <= i < l0 - n ==> #[trigger] v_it0.all()[i] == l0 - 1 - i,
        forall|i: int| l0 - v_it0.pos() <= i < l0 ==> #[trigger] self@[i] == s0[i - n],
        forall|i: int| 0 <= i < l0 - v_it0.pos() ==> #[trigger] self@[i] == s0[i],
    ensures v_it0.pos() == l0 - n
    decreases l0 - v_it0.pos()
@loop 1
    invariant
        l0 == self.len, self.sound(), self.bytes@.len() <= mem_limit(), T::lens(l0), n <= l0, s0.len() == l0,
        v_it1.all().len() == n, v_it1.pos() <= n,
        forall|i: int| 0 <= i < n ==> #[trigger] v_it1.all()[i] == i,
        forall|i: int| n <= i < l0 ==> #[trigger] self@[i] == s0[i - n],
        forall|i: int| 0 <= i < v_it1.pos() ==> #[trigger] self@[i] == false,
    ensures v_it1.pos() == n
    decreases n - v_it1.pos()
@after 1
    proof { assert(self@ =~= shifted(s0, n as int)); }

@@ impl Iterator for BitIter<T>
@header impl<'a, T: BitfieldBehaviour> VNext for BitIter<'a, T>
@items
    open spec fn before(&self) -> bool { self.bitfield.sound() && self.i <= self.bitfield.len }
    open spec fn step(&self, o: &Self, r: Option<bool>) -> bool {
        &&& o.bitfield == self.bitfield
        &&& self.i < self.bitfield.len ==> o.i == self.i + 1 && r == Some(self.bitfield@[self.i as int])
        &&& self.i >= self.bitfield.len ==> o.i == self.i && r is None
    }
@@ fn Iterator for BitIter<T>::next
@props C11

@@ raw
pub trait VNext: Sized {
    type Item;
    spec fn before(&self) -> bool;
    spec fn step(&self, o: &Self, r: Option<Self::Item>) -> bool;
    fn next(&mut self) -> (r: Option<Self::Item>)
        requires old(self).before()
        ensures old(self).step(final(self), r);
}

@@ impl PartialEq for Bitfield<T>
@header impl<T> Bitfield<T>
@@ fn PartialEq for Bitfield<T>::eq
@props C11 C01
@spec
    requires self.sound(), other.sound()
    ensures r == (self@ == other@)
@start
    proof {
        lemma_canon(self.bytes@, self.len as int);
        lemma_canon(other.bytes@, other.len as int);
        assert(self@.len() == self.len && other@.len() == other.len);
    }
@result v_r
@finish
    proof {
        assert(v_r ==> self.bytes@ =~= other.bytes@);
        assert(self.len == other.len && self.bytes@ =~= other.bytes@ ==> v_r);
    }

@@ raw
// --- core::hash ---------------------------------------------------------------------------------------------------
/// what a hasher has been fed
pub enum Fed { Bytes(Seq<u8>), Num(int) }

pub trait Hasher: Sized {
    spec fn fed(&self) -> Seq<Fed>;
}

pub trait Hash: Sized {
    spec fn feed(&self) -> Fed;
    fn hash<H: Hasher>(x: &Self, h: &mut H)
        ensures final(h).fed() == old(h).fed().push(x.feed());
}

impl Hash for Vec<u8> {
    open spec fn feed(&self) -> Fed { Fed::Bytes(self@) }
    #[verifier::external_body]
    fn hash<H: Hasher>(x: &Self, h: &mut H) { unimplemented!() }
}

impl Hash for usize {
    open spec fn feed(&self) -> Fed { Fed::Num(*self as int) }
    #[verifier::external_body]
    fn hash<H: Hasher>(x: &Self, h: &mut H) { unimplemented!() }
}

@@ impl Hash for Bitfield<T>
@header impl<T> Bitfield<T>
@@ fn Hash for Bitfield<T>::hash
@props C11
@generics <H: Hasher>
@spec
    requires self.sound()
    // a function of the bits
    ensures final(state).fed() == old(state).fed().push(Fed::Bytes(to_bytes(self@))).push(Fed::Num(self@.len() as int))
@start
    proof { lemma_canon(self.bytes@, self.len as int); }

# ---------------------------------------------------------------------------------------------------------------
@@ raw
impl<N: Unsigned + Clone> Ssz for Bitfield<Variable<N>> {
    type V = Seq<bool>;
    open spec fn v(&self) -> Seq<bool> { self@ }
    open spec fn wf(&self) -> bool { self.good() }
    open spec fn valid(v: Seq<bool>) -> bool { v.len() <= N::n() }
    open spec fn ok() -> bool { true }
    open spec fn fixed() -> bool { false }
    open spec fn flen() -> nat { 4 }
    open spec fn enc(v: Seq<bool>) -> Seq<u8> { to_bytes(v.push(true)) }
    open spec fn dec(b: Seq<u8>) -> Option<Seq<bool>> {
        if b.len() > 0 && b.last() != 0 && delim(b) <= N::n() { Some(bits(b, delim(b))) } else { None }
    }
    open spec fn rt() -> bool { true }
    open spec fn strict() -> bool { true }
    proof fn law_wf(&self) { }
    proof fn law_len(v: Seq<bool>) { }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) { lemma_msb(b.last()); }
    proof fn law_rt(v: Seq<bool>) { lemma_delimited(v); }
    proof fn law_strict(b: Seq<u8>) { lemma_delim(b); }
}

impl<N: Unsigned + Clone> Ssz for Bitfield<Fixed<N>> {
    type V = Seq<bool>;
    open spec fn v(&self) -> Seq<bool> { self@ }
    open spec fn wf(&self) -> bool { self.good() }
    open spec fn valid(v: Seq<bool>) -> bool { v.len() == N::n() }
    open spec fn ok() -> bool { true }
    open spec fn fixed() -> bool { true }
    open spec fn flen() -> nat { nb(N::n() as int) as nat }
    open spec fn enc(v: Seq<bool>) -> Seq<u8> { to_bytes(v) }
    open spec fn dec(b: Seq<u8>) -> Option<Seq<bool>> {
        if shape(b, N::n() as int) { Some(bits(b, N::n() as int)) } else { None }
    }
    open spec fn rt() -> bool { true }
    open spec fn strict() -> bool { true }
    proof fn law_wf(&self) { }
    proof fn law_len(v: Seq<bool>) { N::law_n(); }
    proof fn law_flen() { N::law_n(); }
    proof fn law_dec(b: Seq<u8>) { }
    proof fn law_rt(v: Seq<bool>) { lemma_to_bytes(v); }
    proof fn law_strict(b: Seq<u8>) { lemma_canon(b, N::n() as int); }
}

impl Ssz for Bitfield<Dynamic> {
    type V = Seq<bool>;
    open spec fn v(&self) -> Seq<bool> { self@ }
    open spec fn wf(&self) -> bool { self.good() }
    open spec fn valid(v: Seq<bool>) -> bool { v.len() > 0 && v.len() % 8 == 0 }
    open spec fn ok() -> bool { true }
    open spec fn fixed() -> bool { false }
    open spec fn flen() -> nat { 4 }
    open spec fn enc(v: Seq<bool>) -> Seq<u8> { to_bytes(v) }
    open spec fn dec(b: Seq<u8>) -> Option<Seq<bool>> { if b.len() > 0 { Some(bits(b, (8 * b.len()) as int)) } else { None } }
    open spec fn rt() -> bool { true }
    open spec fn strict() -> bool { true }
    proof fn law_wf(&self) { }
    proof fn law_len(v: Seq<bool>) { }
    proof fn law_flen() { }
    proof fn law_dec(b: Seq<u8>) { }
    proof fn law_rt(v: Seq<bool>) { lemma_to_bytes(v); }
    proof fn law_strict(b: Seq<u8>) { assert(shape(b, (8 * b.len()) as int)); lemma_canon(b, (8 * b.len()) as int); }
}

# ---------------------------------------------------------------------------------------------------------------
@@ impl Bitfield<Variable<N>>
@@ fn Bitfield<Variable<N>>::with_capacity
@props C11 C13 C01 C03 C07 C10 C12 C14 C18
@spec
    requires nb(num_bits as int) <= mem_limit()
    ensures
        r is Ok <==> num_bits <= N::n(),
        r is Ok ==> r->Ok_0.good() && r->Ok_0.len == num_bits && r->Ok_0@ == falses(num_bits as int)
@start
    proof {
        let z = Seq::new(nb(num_bits as int) as nat, |i: int| 0u8);
        lemma_zeros(z, num_bits as int);
    }

@@ fn Bitfield<Variable<N>>::max_len
@props C13 C01 C03 C04 C05 C06 C07 C10 C11 C12 C14 C18 C20
@spec
    ensures r == N::n()

@@ fn Bitfield<Variable<N>>::into_bytes
@props C01 C03 C07 C10 C11 C14 C18
@spec
    requires self.good()
    ensures r@ == <Self as Ssz>::enc(self@)
@start
    proof {
        lemma_room(self.bytes@, self.len as int, Seq::new(nb(self.len + 1) as nat, |i: int| if i < self.bytes@.len() { self.bytes@[i] } else { 0u8 }));
    }
    let ghost v0 = self@;
    let ghost l1 = self.len + 1;
    let ghost c0 = Seq::new(nb(self.len + 1) as nat, |i: int| if i < self.bytes@.len() { self.bytes@[i] } else { 0u8 });
@at /^let mut bitfield/
    proof { assert(bytes@ =~= c0); }
@result v_r
@finish
    proof { lemma_canon(v_r@, l1); }

@@ fn Bitfield<Variable<N>>::from_bytes
@props C01 C02 C04 C05 C11 C13 C14 C20 C06 C07 C18
@spec
    requires bytes@.len() <= mem_limit()
    ensures
        r is Ok ==> r->Ok_0.good() && <Self as Ssz>::dec(bytes@) == Some(r->Ok_0@),
        r is Err ==> <Self as Ssz>::dec(bytes@) is None
@start
    hide(shape); hide(bits); hide(is_top); hide(is_clear);
    let ghost b0 = bytes@;
    proof { lemma_bitlist(b0); }
@at /^let mut bytes = initial_bitfield/
    proof { lemma_undelimit(b0, initial_bitfield.bytes@, if nb(len as int) < initial_bitfield.bytes@.len() { initial_bitfield.bytes@.take(nb(len as int)) } else { initial_bitfield.bytes@ }); }

@@ fn Bitfield<Variable<N>>::intersection
@props C11 C12 C13
@spec
    requires self.good(), other.good()
    ensures
        r.good(),
        r.len == (if self.len < other.len { self.len } else { other.len }),
        r@ == and_bits(self@, other@, r.len as int)
@start
    let ghost g_n: int = if self.len < other.len { self.len as int } else { other.len as int };
@loop 0
    invariant
        result.bytes@.len() == nb(g_n), result.len == g_n,
        self.sound(), other.sound(), g_n <= self.len, g_n <= other.len,
        v_it0.all().len() == result.bytes@.len(), v_it0.pos() <= v_it0.all().len(),
        forall|i: int| 0 <= i < v_it0.all().len() ==> #[trigger] v_it0.all()[i] == i,
        forall|k: int| 0 <= k < v_it0.pos() ==> #[trigger] result.bytes@[k] == byte_at(self.bytes@, k) & byte_at(other.bytes@, k),
    ensures v_it0.pos() == v_it0.all().len()
    decreases v_it0.all().len() - v_it0.pos()
@after 0
    proof { lemma_and(self.bytes@, self.len as int, other.bytes@, other.len as int, result.bytes@, g_n); }

@@ fn Bitfield<Variable<N>>::union
@props C11 C12 C13
@spec
    requires self.good(), other.good()
    ensures
        r.good(),
        r.len == (if self.len > other.len { self.len } else { other.len }),
        r@ == or_bits(self@, other@, r.len as int)
@start
    let ghost g_n: int = if self.len > other.len { self.len as int } else { other.len as int };
@loop 0
    invariant
        result.bytes@.len() == nb(g_n), result.len == g_n,
        v_it0.all().len() == result.bytes@.len(), v_it0.pos() <= v_it0.all().len(),
        forall|i: int| 0 <= i < v_it0.all().len() ==> #[trigger] v_it0.all()[i] == i,
        forall|k: int| 0 <= k < v_it0.pos() ==> #[trigger] result.bytes@[k] == byte_at(self.bytes@, k) | byte_at(other.bytes@, k),
    ensures v_it0.pos() == v_it0.all().len()
    decreases v_it0.all().len() - v_it0.pos()
@after 0
    proof { lemma_or(self.bytes@, self.len as int, other.bytes@, other.len as int, result.bytes@, g_n); }

@@ fn Bitfield<Variable<N>>::is_subset
@props C12
@spec
    requires self.good(), other.good()
    ensures r == subset(self@, other@)
@start
    proof { lemma_subset(self@, other@); }

@@ fn Bitfield<Variable<N>>::resize
@props C13 C01 C03 C07 C10 C11 C14 C18
@spec
    requires self.good(), nb(M::n() as int) <= mem_limit()
    ensures
        r is Ok <==> N::n() <= M::n(),
        r is Ok ==> r->Ok_0.good() && r->Ok_0.len == M::n() && r->Ok_0@ == Seq::new(M::n(), |i: int| at(self@, i))
@loop 0
    invariant
        self.good(), v_it0.all().len() == self.len, v_it0.pos() <= self.len, self.len <= N::n(), N::n() <= M::n(),
        forall|i: int| 0 <= i < self.len ==> #[trigger] v_it0.all()[i] == (i as usize, self@[i]),
        resized.good(), resized.len == M::n(),
        forall|i: int| 0 <= i < M::n() ==> #[trigger] resized@[i] == (i < v_it0.pos() && self@[i]),
    ensures v_it0.pos() == self.len
    decreases self.len - v_it0.pos()
@after 0
    proof { assert(resized@ =~= Seq::new(M::n(), |i: int| at(self@, i))); }

@@ impl Bitfield<Fixed<N>>
@@ fn Bitfield<Fixed<N>>::new
@props C11 C13
@spec
    requires nb(N::n() as int) <= mem_limit()
    ensures r.good(), r@ == falses(N::n() as int)
@start
    proof {
        let z = Seq::new(nb(N::n() as int) as nat, |i: int| 0u8);
        lemma_zeros(z, N::n() as int);
    }

@@ fn Bitfield<Fixed<N>>::capacity
@props C13 C01 C02 C04 C05 C06 C07 C11 C14 C18 C20
@spec
    ensures r == N::n()

@@ fn Bitfield<Fixed<N>>::into_bytes
@props C11 C14 C03 C01 C07 C10 C18
@spec
    requires self.good()
    ensures r@ == <Self as Ssz>::enc(self@)
@start
    proof { lemma_canon(self.bytes@, self.len as int); }

@@ fn Bitfield<Fixed<N>>::from_bytes
@props C01 C02 C04 C05 C11 C13 C14 C20 C06 C07 C18
@spec
    requires bytes@.len() <= mem_limit()
    ensures
        r is Ok ==> r->Ok_0.good() && <Self as Ssz>::dec(bytes@) == Some(r->Ok_0@),
        r is Err ==> <Self as Ssz>::dec(bytes@) is None

@@ fn Bitfield<Fixed<N>>::intersection
@props C11 C12 C13
@spec
    requires self.good(), other.good()
    ensures r.good(), r@ == and_bits(self@, other@, N::n() as int)
@loop 0
    invariant
        result.bytes@.len() == nb(N::n() as int), result.len == N::n(),
        self.good(), other.good(),
        v_it0.all().len() == result.bytes@.len(), v_it0.pos() <= v_it0.all().len(),
        forall|i: int| 0 <= i < v_it0.all().len() ==> #[trigger] v_it0.all()[i] == i,
        forall|k: int| 0 <= k < v_it0.pos() ==> #[trigger] result.bytes@[k] == byte_at(self.bytes@, k) & byte_at(other.bytes@, k),
    ensures v_it0.pos() == v_it0.all().len()
    decreases v_it0.all().len() - v_it0.pos()
@after 0
    proof { lemma_and(self.bytes@, self.len as int, other.bytes@, other.len as int, result.bytes@, N::n() as int); }

@@ fn Bitfield<Fixed<N>>::union
@props C11 C12 C13
@spec
    requires self.good(), other.good()
    ensures r.good(), r@ == or_bits(self@, other@, N::n() as int)
@loop 0
    invariant
        result.bytes@.len() == nb(N::n() as int), result.len == N::n(),
        v_it0.all().len() == result.bytes@.len(), v_it0.pos() <= v_it0.all().len(),
        forall|i: int| 0 <= i < v_it0.all().len() ==> #[trigger] v_it0.all()[i] == i,
        forall|k: int| 0 <= k < v_it0.pos() ==> #[trigger] result.bytes@[k] == byte_at(self.bytes@, k) | byte_at(other.bytes@, k),
    ensures v_it0.pos() == v_it0.all().len()
    decreases v_it0.all().len() - v_it0.pos()
@after 0
    proof { lemma_or(self.bytes@, self.len as int, other.bytes@, other.len as int, result.bytes@, N::n() as int); }

@@ fn Bitfield<Fixed<N>>::is_subset
@props C12
@spec
    requires self.good(), other.good()
    ensures r == subset(self@, other@)
@start
    proof { lemma_subset(self@, other@); }

@@ impl Default for Bitfield<Fixed<N>>
@header impl<N: Unsigned + Clone> Bitfield<Fixed<N>>
@@ fn Default for Bitfield<Fixed<N>>::default
@props C11 C13
@spec
    requires nb(N::n() as int) <= mem_limit()
    ensures r.good(), r@ == falses(N::n() as int)

@@ impl Bitfield<Dynamic>
@@ fn Bitfield<Dynamic>::new
@props C11 C13
@spec
    requires nb(len as int) <= mem_limit()
    ensures
        r is Ok <==> len > 0 && len % 8 == 0,
        r is Ok ==> r->Ok_0.good() && r->Ok_0.len == len && r->Ok_0@ == falses(len as int)
@start
    proof {
        let z = Seq::new(nb(len as int) as nat, |i: int| 0u8);
        lemma_zeros(z, len as int);
    }

@@ fn Bitfield<Dynamic>::into_bytes
@props C11 C14 C01 C03 C07 C10 C18
@spec
    requires self.good()
    ensures r@ == <Self as Ssz>::enc(self@)
@start
    proof { lemma_canon(self.bytes@, self.len as int); }

@@ fn Bitfield<Dynamic>::from_bytes_with_len
@props C05 C11 C13 C14
@spec
    requires bytes@.len() <= mem_limit()
    ensures
        r is Ok <==> bytes@.len() > 0 && len == 8 * bytes@.len(),
        r is Ok ==> r->Ok_0.good() && r->Ok_0.len == len && <Self as Ssz>::dec(bytes@) == Some(r->Ok_0@)
@start
    proof { if bytes@.len() == 0 { lemma_empty_not_shaped(bytes@); } else { assert(shape(bytes@, (8 * bytes@.len()) as int)); } }

@@ fn Bitfield<Dynamic>::intersection
@props C11 C12 C13
@spec
    requires self.good(), other.good()
    ensures
        r is Ok, r->Ok_0.good(),
        r->Ok_0.len == (if self.len > other.len { self.len } else { other.len }),
        r->Ok_0@ == and_bits(self@, other@, r->Ok_0.len as int)
@start
    let ghost g_n: int = if self.len > other.len { self.len as int } else { other.len as int };
@loop 0
    invariant
        result.bytes@.len() == nb(g_n), result.len == g_n,
        v_it0.all().len() == result.bytes@.len(), v_it0.pos() <= v_it0.all().len(),
        forall|i: int| 0 <= i < v_it0.all().len() ==> #[trigger] v_it0.all()[i] == i,
        forall|k: int| 0 <= k < v_it0.pos() ==> #[trigger] result.bytes@[k] == byte_at(self.bytes@, k) & byte_at(other.bytes@, k),
    ensures v_it0.pos() == v_it0.all().len()
    decreases v_it0.all().len() - v_it0.pos()
@after 0
    proof { lemma_and(self.bytes@, self.len as int, other.bytes@, other.len as int, result.bytes@, g_n); }

@@ fn Bitfield<Dynamic>::union
@props C11 C12 C13
@spec
    requires self.good(), other.good()
    ensures
        r is Ok, r->Ok_0.good(),
        r->Ok_0.len == (if self.len > other.len { self.len } else { other.len }),
        r->Ok_0@ == or_bits(self@, other@, r->Ok_0.len as int)
@start
    let ghost g_n: int = if self.len > other.len { self.len as int } else { other.len as int };
@loop 0
    invariant
        result.bytes@.len() == nb(g_n), result.len == g_n,
        v_it0.all().len() == result.bytes@.len(), v_it0.pos() <= v_it0.all().len(),
        forall|i: int| 0 <= i < v_it0.all().len() ==> #[trigger] v_it0.all()[i] == i,
        forall|k: int| 0 <= k < v_it0.pos() ==> #[trigger] result.bytes@[k] == byte_at(self.bytes@, k) | byte_at(other.bytes@, k),
    ensures v_it0.pos() == v_it0.all().len()
    decreases v_it0.all().len() - v_it0.pos()
@after 0
    proof { lemma_or(self.bytes@, self.len as int, other.bytes@, other.len as int, result.bytes@, g_n); }

# ---------------------------------------------------------------------------------------------------------------
@@ impl Encode for Bitfield<Variable<N>>
@@ fn Encode for Bitfield<Variable<N>>::ssz_append
@props C01 C03 C10 C11 C14 C18
@@ fn Encode for Bitfield<Variable<N>>::ssz_bytes_len
@props C07 C11 C14

@@ impl Decode for Bitfield<Variable<N>>
@@ fn Decode for Bitfield<Variable<N>>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C07 C11 C13 C14 C18

@@ impl Encode for Bitfield<Fixed<N>>
@@ fn Encode for Bitfield<Fixed<N>>::ssz_append
@props C01 C03 C10 C11 C14 C18
@start
    proof { lemma_canon(self.bytes@, self.len as int); }
@@ fn Encode for Bitfield<Fixed<N>>::ssz_bytes_len
@props C07 C11 C14
@start
    proof { lemma_canon(self.bytes@, self.len as int); }

@@ impl Decode for Bitfield<Fixed<N>>
@@ fn Decode for Bitfield<Fixed<N>>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C07 C11 C13 C14 C18

@@ impl Encode for Bitfield<Dynamic>
@@ fn Encode for Bitfield<Dynamic>::ssz_append
@props C01 C03 C10 C11 C14 C18
@start
    proof { lemma_canon(self.bytes@, self.len as int); }
@@ fn Encode for Bitfield<Dynamic>::ssz_bytes_len
@props C07 C11 C14
@start
    proof { lemma_canon(self.bytes@, self.len as int); }

@@ impl Decode for Bitfield<Dynamic>
@@ fn Decode for Bitfield<Dynamic>::from_ssz_bytes
@props C01 C02 C04 C05 C06 C07 C11 C13 C14 C18
@start
    proof { if bytes@.len() > 0 { assert(shape(bytes@, (8 * bytes@.len()) as int)); } }

# ---------------------------------------------------------------------------------------------------------------
@@ impl Serialize for Bitfield<Variable<N>>
@header impl<N: Unsigned + Clone> Bitfield<Variable<N>>
@@ fn Serialize for Bitfield<Variable<N>>::serialize
@props C18
@spec
    requires self.good(), small(<Self as Ssz>::enc(self@).len())
    ensures r == serializer.written(hex0x(<Self as Ssz>::enc(self@)))

@@ impl Deserialize<> for Bitfield<Variable<N>>
@header impl<'de, N: Unsigned + Clone> Bitfield<Variable<N>>
@@ fn Deserialize<> for Bitfield<Variable<N>>::deserialize
@props C18
@spec
    ensures
        r is Ok ==> deserializer.input() is Some && de_value::<Self>(deserializer.input().unwrap()) == Some(r->Ok_0@) && r->Ok_0.good(),
        r is Err ==> deserializer.input() is None || de_value::<Self>(deserializer.input().unwrap()) is None
@start
    proof { if deserializer.input() is Some && unhex(deserializer.input().unwrap()) is Some { lemma_unhex_len(deserializer.input().unwrap()); } }

@@ impl Serialize for Bitfield<Fixed<N>>
@header impl<N: Unsigned + Clone> Bitfield<Fixed<N>>
@@ fn Serialize for Bitfield<Fixed<N>>::serialize
@props C18
@spec
    requires self.good(), small(<Self as Ssz>::enc(self@).len())
    ensures r == serializer.written(hex0x(<Self as Ssz>::enc(self@)))

@@ impl Deserialize<> for Bitfield<Fixed<N>>
@header impl<'de, N: Unsigned + Clone> Bitfield<Fixed<N>>
@@ fn Deserialize<> for Bitfield<Fixed<N>>::deserialize
@props C18
@spec
    ensures
        r is Ok ==> deserializer.input() is Some && de_value::<Self>(deserializer.input().unwrap()) == Some(r->Ok_0@) && r->Ok_0.good(),
        r is Err ==> deserializer.input() is None || de_value::<Self>(deserializer.input().unwrap()) is None
@start
    proof { if deserializer.input() is Some && unhex(deserializer.input().unwrap()) is Some { lemma_unhex_len(deserializer.input().unwrap()); } }

@@ impl Serialize for Bitfield<Dynamic>
@header impl Bitfield<Dynamic>
@@ fn Serialize for Bitfield<Dynamic>::serialize
@props C18
@spec
    requires self.good(), small(<Self as Ssz>::enc(self@).len())
    ensures r == serializer.written(hex0x(<Self as Ssz>::enc(self@)))

@@ impl Deserialize<> for Bitfield<Dynamic>
@header impl<'de> Bitfield<Dynamic>
@@ fn Deserialize<> for Bitfield<Dynamic>::deserialize
@props C18
@spec
    ensures
        r is Ok ==> deserializer.input() is Some && de_value::<Self>(deserializer.input().unwrap()) == Some(r->Ok_0@) && r->Ok_0.good(),
        r is Err ==> deserializer.input() is None || de_value::<Self>(deserializer.input().unwrap()) is None
@start
    proof { if deserializer.input() is Some && unhex(deserializer.input().unwrap()) is Some { lemma_unhex_len(deserializer.input().unwrap()); } }

# ---------------------------------------------------------------------------------------------------------------
@@ impl Arbitrary<> for Bitfield<Fixed<N>>
@header impl<N: Unsigned + Clone> Bitfield<Fixed<N>>
@@ fn Arbitrary<> for Bitfield<Fixed<N>>::arbitrary
@props C20
@spec
    requires nb(N::n() as int) <= mem_limit()
    ensures
        r is Ok ==> r->Ok_0.good(),
        N::n() >= 1 && old(u).data().len() == 0 ==> r is Ok, // witness
@start
    proof {
        if u.data().len() == 0 && N::n() >= 1 { lemma_zeros(filled(u.data(), nb(N::n() as int) as nat), N::n() as int); }
    }

@@ impl Arbitrary<> for Bitfield<Variable<N>>
@header impl<N: Unsigned + Clone> Bitfield<Variable<N>>
@@ fn Arbitrary<> for Bitfield<Variable<N>>::arbitrary
@props C20
@spec
    ensures
        r is Ok ==> r->Ok_0.good(),
        N::n() >= 1 && old(u).data() == one_one() ==> r is Ok, // witness
@start
    proof {
        if u.data() == one_one() {
            lemma_one_one();
            assert(filled(seq![1u8], 1) =~= seq![1u8]);
            assert(seq![1u8].len() == 1 && seq![1u8].last() == 1 && <Self as Ssz>::dec(seq![1u8]) is Some);
        }
    }

@@ raw
/// a size of one byte, and the byte 1
pub open spec fn one_one() -> Seq<u8> { seq![1u8, 0, 0, 0, 0, 0, 0, 0, 1] }

pub proof fn lemma_one_one()
    ensures
        le_value(filled(one_one(), 8)) == 1, rest(one_one(), 8) == seq![1u8], delim(seq![1u8]) == 0,
{
    reveal_with_fuel(le_value, 10);
    let s = filled(one_one(), 8);
    assert(rest(one_one(), 8) =~= seq![1u8]);
    assert(s.len() == 8 && s[0] == 1 && s[1] == 0 && s[2] == 0 && s[3] == 0 && s[4] == 0 && s[5] == 0 && s[6] == 0 && s[7] == 0);
}

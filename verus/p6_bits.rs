// ---------------------------------------------------------------------------------------------------------------
// Sequences of booleans and the bytes that hold them
// ---------------------------------------------------------------------------------------------------------------
pub open spec fn bit8(x: u8, j: int) -> bool { x & (1u8 << (j as u8)) != 0 }

pub open spec fn bit(b: Seq<u8>, i: int) -> bool { bit8(b[i / 8], i % 8) }

/// bytes for that many bits
pub open spec fn nb(n: int) -> int { if n == 0 { 1 } else { (n + 7) / 8 } }

/// the minimal number of bytes for n bits, none set at or beyond n
pub open spec fn shape(b: Seq<u8>, n: int) -> bool {
    &&& b.len() == nb(n)
    &&& forall|i: int| n <= i < 8 * b.len() ==> !#[trigger] bit(b, i)
}

pub open spec fn bits(b: Seq<u8>, n: int) -> Seq<bool> { Seq::new(n as nat, |i: int| bit(b, i)) }

pub open spec fn at(s: Seq<bool>, i: int) -> bool { 0 <= i < s.len() && s[i] }

pub open spec fn place(v: bool, j: int) -> u8 { if v { 1u8 << (j as u8) } else { 0u8 } }

/// bit i of the sequence is bit i % 8 of byte i / 8
pub open spec fn byte_of(s: Seq<bool>, k: int) -> u8 {
    place(at(s, 8 * k), 0) | place(at(s, 8 * k + 1), 1) | place(at(s, 8 * k + 2), 2) | place(at(s, 8 * k + 3), 3)
        | place(at(s, 8 * k + 4), 4) | place(at(s, 8 * k + 5), 5) | place(at(s, 8 * k + 6), 6) | place(at(s, 8 * k + 7), 7)
}

pub open spec fn to_bytes(s: Seq<bool>) -> Seq<u8> { Seq::new(nb(s.len() as int) as nat, |k: int| byte_of(s, k)) }

pub proof fn lemma_byte_of(s: Seq<bool>, k: int, j: int)
    requires 0 <= j < 8
    ensures bit8(byte_of(s, k), j) == at(s, 8 * k + j)
{
    let a = place(at(s, 8 * k), 0); let b = place(at(s, 8 * k + 1), 1); let c = place(at(s, 8 * k + 2), 2); let d = place(at(s, 8 * k + 3), 3);
    let e = place(at(s, 8 * k + 4), 4); let f = place(at(s, 8 * k + 5), 5); let g = place(at(s, 8 * k + 6), 6); let h = place(at(s, 8 * k + 7), 7);
    let x = a | b | c | d | e | f | g | h;
    assert(1u8 << 0u8 == 1 && 1u8 << 1u8 == 2 && 1u8 << 2u8 == 4 && 1u8 << 3u8 == 8 && 1u8 << 4u8 == 16 && 1u8 << 5u8 == 32 && 1u8 << 6u8 == 64 && 1u8 << 7u8 == 128) by (bit_vector);
    assert((x & 1 != 0) == (a != 0) && (x & 2 != 0) == (b != 0) && (x & 4 != 0) == (c != 0) && (x & 8 != 0) == (d != 0)
        && (x & 16 != 0) == (e != 0) && (x & 32 != 0) == (f != 0) && (x & 64 != 0) == (g != 0) && (x & 128 != 0) == (h != 0)) by (bit_vector)
        requires
            x == a | b | c | d | e | f | g | h,
            a == 0u8 || a == 1u8, b == 0u8 || b == 2u8, c == 0u8 || c == 4u8, d == 0u8 || d == 8u8,
            e == 0u8 || e == 16u8, f == 0u8 || f == 32u8, g == 0u8 || g == 64u8, h == 0u8 || h == 128u8;
}

/// a byte is its bits
pub proof fn lemma_byte_eq(x: u8, y: u8)
    requires forall|j: int| 0 <= j < 8 ==> #[trigger] bit8(x, j) == bit8(y, j)
    ensures x == y
{
    assert(bit8(x, 0) == bit8(y, 0) && bit8(x, 1) == bit8(y, 1) && bit8(x, 2) == bit8(y, 2) && bit8(x, 3) == bit8(y, 3)
        && bit8(x, 4) == bit8(y, 4) && bit8(x, 5) == bit8(y, 5) && bit8(x, 6) == bit8(y, 6) && bit8(x, 7) == bit8(y, 7));
    assert(x == y) by (bit_vector)
        requires
            (x & (1u8 << 0u8) != 0) == (y & (1u8 << 0u8) != 0), (x & (1u8 << 1u8) != 0) == (y & (1u8 << 1u8) != 0),
            (x & (1u8 << 2u8) != 0) == (y & (1u8 << 2u8) != 0), (x & (1u8 << 3u8) != 0) == (y & (1u8 << 3u8) != 0),
            (x & (1u8 << 4u8) != 0) == (y & (1u8 << 4u8) != 0), (x & (1u8 << 5u8) != 0) == (y & (1u8 << 5u8) != 0),
            (x & (1u8 << 6u8) != 0) == (y & (1u8 << 6u8) != 0), (x & (1u8 << 7u8) != 0) == (y & (1u8 << 7u8) != 0);
}

pub proof fn lemma_bytes_eq(a: Seq<u8>, b: Seq<u8>)
    requires a.len() == b.len(), forall|i: int| 0 <= i < 8 * a.len() ==> #[trigger] bit(a, i) == bit(b, i)
    ensures a == b
{
    assert forall|k: int| 0 <= k < a.len() implies a[k] == b[k] by {
        assert forall|j: int| 0 <= j < 8 implies #[trigger] bit8(a[k], j) == bit8(b[k], j) by {
            assert(bit(a, 8 * k + j) == bit(b, 8 * k + j));
            assert((8 * k + j) / 8 == k && (8 * k + j) % 8 == j);
        }
        lemma_byte_eq(a[k], b[k]);
    }
    assert(a =~= b);
}

/// what the bytes of a sequence hold
pub proof fn lemma_to_bytes(s: Seq<bool>)
    ensures
        shape(to_bytes(s), s.len() as int),
        bits(to_bytes(s), s.len() as int) == s,
        to_bytes(s).len() == nb(s.len() as int),
{
    let b = to_bytes(s);
    assert forall|i: int| 0 <= i < 8 * b.len() implies #[trigger] bit(b, i) == at(s, i) by {
        lemma_byte_of(s, i / 8, i % 8);
        assert(8 * (i / 8) + i % 8 == i);
    }
    assert(bits(b, s.len() as int) =~= s);
}

/// there is one byte string for each sequence
pub proof fn lemma_canon(b: Seq<u8>, n: int)
    requires shape(b, n), n >= 0
    ensures to_bytes(bits(b, n)) == b
{
    let s = bits(b, n);
    let c = to_bytes(s);
    lemma_to_bytes(s);
    assert forall|i: int| 0 <= i < 8 * b.len() implies #[trigger] bit(b, i) == bit(c, i) by {
        if i < n { assert(bits(c, n)[i] == s[i]); assert(bit(c, i) == s[i]); } else { assert(!bit(b, i)); assert(!bit(c, i)); }
    }
    lemma_bytes_eq(b, c);
}

pub proof fn lemma_zero_byte(j: int)
    requires 0 <= j < 8
    ensures !bit8(0u8, j)
{
    let k = j as u8;
    assert(0u8 & (1u8 << k) == 0) by (bit_vector);
}

/// all zero
pub proof fn lemma_zeros(b: Seq<u8>, n: int)
    requires b.len() == nb(n), n >= 0, forall|k: int| 0 <= k < b.len() ==> b[k] == 0
    ensures shape(b, n), bits(b, n) == Seq::new(n as nat, |i: int| false)
{
    assert forall|i: int| 0 <= i < 8 * b.len() implies !#[trigger] bit(b, i) by { lemma_zero_byte(i % 8); assert(b[i / 8] == 0); }
    assert(bits(b, n) =~= Seq::new(n as nat, |i: int| false));
}

pub proof fn lemma_nonzero(x: u8)
    ensures x == 0 <==> forall|j: int| 0 <= j < 8 ==> !#[trigger] bit8(x, j)
{
    if x == 0 {
        assert forall|j: int| 0 <= j < 8 implies !#[trigger] bit8(x, j) by { lemma_zero_byte(j); }
    }
    if forall|j: int| 0 <= j < 8 ==> !#[trigger] bit8(x, j) {
        assert forall|j: int| 0 <= j < 8 implies #[trigger] bit8(x, j) == bit8(0u8, j) by { lemma_zero_byte(j); }
        lemma_byte_eq(x, 0u8);
    }
}

/// one bit of a byte is changed
pub proof fn lemma_set8(x: u8, j: int, v: bool, y: u8)
    requires 0 <= j < 8, y == (if v { x | (1u8 << (j as u8)) } else { x & !(1u8 << (j as u8)) })
    ensures forall|k: int| 0 <= k < 8 ==> #[trigger] bit8(y, k) == if k == j { v } else { bit8(x, k) }
{
    assert forall|k: int| 0 <= k < 8 implies #[trigger] bit8(y, k) == if k == j { v } else { bit8(x, k) } by {
        let a = j as u8;
        let c = k as u8;
        assert(((x | (1u8 << a)) & (1u8 << c) != 0) == (c == a || x & (1u8 << c) != 0)) by (bit_vector) requires a < 8, c < 8;
        assert(((x & !(1u8 << a)) & (1u8 << c) != 0) == (c != a && x & (1u8 << c) != 0)) by (bit_vector) requires a < 8, c < 8;
    }
}

pub proof fn lemma_set_bit(b: Seq<u8>, i: int, v: bool, c: Seq<u8>, n: int)
    requires
        shape(b, n), 0 <= i < n, c.len() == b.len(), i / 8 < b.len(),
        forall|k: int| 0 <= k < b.len() && k != i / 8 ==> #[trigger] c[k] == b[k],
        c[i / 8] == (if v { b[i / 8] | (1u8 << ((i % 8) as u8)) } else { b[i / 8] & !(1u8 << ((i % 8) as u8)) }),
    ensures shape(c, n), bits(c, n) == bits(b, n).update(i, v)
{
    lemma_set8(b[i / 8], i % 8, v, c[i / 8]);
    assert forall|k: int| 0 <= k < 8 * b.len() implies #[trigger] bit(c, k) == if k == i { v } else { bit(b, k) } by {
        if k / 8 == i / 8 { assert((k % 8 == i % 8) == (k == i)); } else { assert(c[k / 8] == b[k / 8]); }
    }
    assert forall|k: int| n <= k < 8 * c.len() implies !#[trigger] bit(c, k) by { assert(!bit(b, k)); }
    assert(bits(c, n) =~= bits(b, n).update(i, v));
}

pub proof fn lemma_bit_ops(x: u8, y: u8, j: int)
    requires 0 <= j < 8
    ensures
        bit8(x & y, j) == (bit8(x, j) && bit8(y, j)),
        bit8(x | y, j) == (bit8(x, j) || bit8(y, j)),
        bit8(x & !y, j) == (bit8(x, j) && !bit8(y, j)),
{
    let k = j as u8;
    assert(((x & y) & (1u8 << k) != 0) == (x & (1u8 << k) != 0 && y & (1u8 << k) != 0)) by (bit_vector) requires k < 8;
    assert(((x | y) & (1u8 << k) != 0) == (x & (1u8 << k) != 0 || y & (1u8 << k) != 0)) by (bit_vector) requires k < 8;
    assert(((x & !y) & (1u8 << k) != 0) == (x & (1u8 << k) != 0 && !(y & (1u8 << k) != 0))) by (bit_vector) requires k < 8;
}

/// the padding of the last byte
pub open spec fn pad_mask(n: int) -> u8 { 255u8 >> (((8 - n % 8) as u32) & 7u32) }

pub proof fn lemma_pad(b: Seq<u8>, n: int)
    requires n > 0, b.len() == nb(n)
    ensures shape(b, n) <==> (b.last() & !pad_mask(n)) == 0
{
    let x = b.last();
    let r = (n % 8) as u8;
    let sh = ((8 - n % 8) as u32);
    let m = pad_mask(n);
    assert(sh == 8 - r as u32);
    assert forall|j: int| 0 <= j < 8 implies #[trigger] bit8(x & !m, j) == (bit8(x, j) && r != 0 && j >= r) by {
        let k = j as u8;
        assert(((x & !(255u8 >> (sh & 7u32))) & (1u8 << k) != 0) == (x & (1u8 << k) != 0 && r != 0 && k >= r)) by (bit_vector)
            requires k < 8, r < 8, sh == 8 - r as u32;
    }
    lemma_nonzero(x & !m);
    let l = b.len() - 1;
    if (x & !m) == 0 {
        assert forall|i: int| n <= i < 8 * b.len() implies !#[trigger] bit(b, i) by { assert(i / 8 == l); assert(!bit8(x & !m, i % 8)); }
    }
    if shape(b, n) {
        assert forall|j: int| 0 <= j < 8 implies !#[trigger] bit8(x & !m, j) by {
            if r != 0 && j >= r { assert(!bit(b, 8 * l + j)); assert((8 * l + j) / 8 == l && (8 * l + j) % 8 == j); }
        }
    }
}

// --- the highest set bit ------------------------------------------------------------------------------------------
pub open spec fn msb(x: u8) -> int {
    if x >= 128 { 7 } else if x >= 64 { 6 } else if x >= 32 { 5 } else if x >= 16 { 4 } else if x >= 8 { 3 } else if x >= 4 { 2 } else if x >= 2 { 1 } else { 0 }
}

pub proof fn lemma_msb(x: u8)
    requires x != 0
    ensures 0 <= msb(x) < 8, bit8(x, msb(x)), forall|j: int| msb(x) < j < 8 ==> !#[trigger] bit8(x, j)
{
    let m = msb(x) as u8;
    assert(x & (1u8 << m) != 0) by (bit_vector)
        requires x != 0, m == (if x >= 128 { 7u8 } else if x >= 64 { 6u8 } else if x >= 32 { 5u8 } else if x >= 16 { 4u8 } else if x >= 8 { 3u8 } else if x >= 4 { 2u8 } else if x >= 2 { 1u8 } else { 0u8 });
    assert forall|j: int| msb(x) < j < 8 implies !#[trigger] bit8(x, j) by {
        let k = j as u8;
        assert(x & (1u8 << k) == 0) by (bit_vector)
            requires m < k, k < 8, m == (if x >= 128 { 7u8 } else if x >= 64 { 6u8 } else if x >= 32 { 5u8 } else if x >= 16 { 4u8 } else if x >= 8 { 3u8 } else if x >= 4 { 2u8 } else if x >= 2 { 1u8 } else { 0u8 });
    }
}

/// h is the highest set bit of s
pub open spec fn is_top(s: Seq<bool>, h: int) -> bool { 0 <= h < s.len() && s[h] && forall|i: int| h < i < s.len() ==> !#[trigger] s[i] }

pub open spec fn is_clear(s: Seq<bool>) -> bool { forall|i: int| 0 <= i < s.len() ==> !#[trigger] s[i] }

// --- counting --------------------------------------------------------------------------------------------------------
pub open spec fn count(s: Seq<bool>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { count(s.drop_last()) + (if s.last() { 1nat } else { 0nat }) }
}

pub open spec fn one(v: bool) -> nat { if v { 1 } else { 0 } }

pub open spec fn ones(x: u8) -> nat {
    one(bit8(x, 0)) + one(bit8(x, 1)) + one(bit8(x, 2)) + one(bit8(x, 3)) + one(bit8(x, 4)) + one(bit8(x, 5)) + one(bit8(x, 6)) + one(bit8(x, 7))
}

pub proof fn lemma_count_push(s: Seq<bool>, v: bool)
    ensures count(s.push(v)) == count(s) + one(v)
{
    assert(s.push(v).drop_last() =~= s);
}

/// trailing zeros count nothing
pub proof fn lemma_count_pad(s: Seq<bool>, n: int)
    requires 0 <= n <= s.len(), forall|i: int| n <= i < s.len() ==> !#[trigger] s[i]
    ensures count(s) == count(s.take(n))
    decreases s.len()
{
    if n < s.len() {
        lemma_count_pad(s.drop_last(), n);
        assert(s.drop_last().take(n) =~= s.take(n));
    } else {
        assert(s.take(n) =~= s);
    }
}

/// the counts of the bytes add up
pub proof fn lemma_count_bytes(b: Seq<u8>, c: Seq<usize>)
    requires c.len() == b.len(), forall|k: int| 0 <= k < b.len() ==> #[trigger] c[k] == ones(b[k])
    ensures seq_sum(c) == count(bits(b, (8 * b.len()) as int)), seq_sum(c) <= 8 * b.len()
    decreases b.len()
{
    if b.len() > 0 {
        let d = b.drop_last();
        lemma_count_bytes(d, c.drop_last());
        let x = b.last();
        let m = 8 * d.len();
        let s0 = bits(d, m as int);
        let s1 = s0.push(bit8(x, 0)); let s2 = s1.push(bit8(x, 1)); let s3 = s2.push(bit8(x, 2)); let s4 = s3.push(bit8(x, 3));
        let s5 = s4.push(bit8(x, 4)); let s6 = s5.push(bit8(x, 5)); let s7 = s6.push(bit8(x, 6)); let s8 = s7.push(bit8(x, 7));
        lemma_count_push(s0, bit8(x, 0)); lemma_count_push(s1, bit8(x, 1)); lemma_count_push(s2, bit8(x, 2)); lemma_count_push(s3, bit8(x, 3));
        lemma_count_push(s4, bit8(x, 4)); lemma_count_push(s5, bit8(x, 5)); lemma_count_push(s6, bit8(x, 6)); lemma_count_push(s7, bit8(x, 7));
        let f = bits(b, (8 * b.len()) as int);
        assert(f =~= s8) by {
            assert forall|i: int| 0 <= i < f.len() implies f[i] == s8[i] by {
                if i < m { assert(d[i / 8] == b[i / 8]); } else { assert(i / 8 == d.len() && i % 8 == i - m); }
            }
        }
        assert(c.last() == ones(x));
    } else {
        assert(bits(b, 0) =~= Seq::<bool>::empty());
    }
}

// --- the standard library's bit operations ---------------------------------------------------------------------------
pub trait VBits: Sized {
    fn v_leading_zeros(self) -> (r: u32);
    fn v_count_ones(self) -> (r: u32);
    fn v_overflowing_shr(self, n: u32) -> (r: (Self, bool));
}

impl VBits for u8 {
    fn v_leading_zeros(self) -> (r: u32)
        ensures r == (if self == 0 { 8 } else { 7 - msb(self) })
    {
        if self >= 128 { 0 } else if self >= 64 { 1 } else if self >= 32 { 2 } else if self >= 16 { 3 }
        else if self >= 8 { 4 } else if self >= 4 { 5 } else if self >= 2 { 6 } else if self == 1 { 7 } else { 8 }
    }

    fn v_count_ones(self) -> (r: u32)
        ensures r == ones(self)
    {
        let mut n: u32 = 0;
        if self & (1u8 << 0u8) != 0 { n = n + 1; }
        if self & (1u8 << 1u8) != 0 { n = n + 1; }
        if self & (1u8 << 2u8) != 0 { n = n + 1; }
        if self & (1u8 << 3u8) != 0 { n = n + 1; }
        if self & (1u8 << 4u8) != 0 { n = n + 1; }
        if self & (1u8 << 5u8) != 0 { n = n + 1; }
        if self & (1u8 << 6u8) != 0 { n = n + 1; }
        if self & (1u8 << 7u8) != 0 { n = n + 1; }
        n
    }

    fn v_overflowing_shr(self, n: u32) -> (r: (u8, bool))
        ensures r.0 == self >> (n & 7u32), r.1 == (n >= 8)
    {
        proof { assert(n & 7u32 < 8) by (bit_vector); }
        (self >> (n & 7u32), n >= 8)
    }
}

// --- typenum ------------------------------------------------------------------------------------------------------------
pub trait Unsigned: Sized {
    spec fn n() -> nat;

    proof fn law_n()
        ensures Self::n() <= usize::MAX;

    fn to_usize() -> (r: usize)
        ensures r == Self::n();
}

// --- more of the standard library -------------------------------------------------------------------------------------
pub trait VGetMut<T> {
    spec fn gm(&self) -> Seq<T>;

    fn v_get_mut(&mut self, i: usize) -> (r: Option<&mut T>)
        ensures match r {
            Some(x) => i < old(self).gm().len() && *x == old(self).gm()[i as int] && final(self).gm() == old(self).gm().update(i as int, *final(x)),
            None => i >= old(self).gm().len() && final(self).gm() == old(self).gm(),
        };

    fn v_index_mut(&mut self, i: usize) -> (x: &mut T)
        requires i < old(self).gm().len()
        ensures *x == old(self).gm()[i as int] && final(self).gm() == old(self).gm().update(i as int, *final(x));
}

impl<T> VGetMut<T> for Vec<T> {
    open spec fn gm(&self) -> Seq<T> { self@ }
    fn v_get_mut(&mut self, i: usize) -> (r: Option<&mut T>) {
        if i < self.len() { Some(&mut self[i]) } else { None }
    }
    fn v_index_mut(&mut self, i: usize) -> (r: &mut T) { &mut self[i] }
}

pub trait VNum: Sized {
    spec fn vn(self) -> int;
    fn v_div_ceil(self, k: Self) -> (r: Self)
        requires k.vn() > 0;
    fn v_min_of(self, o: Self) -> (r: Self);
    fn v_max_of(self, o: Self) -> (r: Self);
}

impl VNum for usize {
    open spec fn vn(self) -> int { self as int }

    fn v_div_ceil(self, k: usize) -> (r: usize)
        ensures r == (self + k - 1) / k as int
    {
        proof {
            let (q, m, d, s) = (self as int / k as int, self as int % k as int, k as int, self as int);
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(s, d);
            if m == 0 {
                vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(s + d - 1, d, q, d - 1);
            } else {
                assert(s + d - 1 == d * (q + 1) + (m - 1)) by (nonlinear_arith) requires s == d * q + m;
                vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(s + d - 1, d, q + 1, m - 1);
                assert(q + 1 <= s) by (nonlinear_arith) requires s == d * q + m, m > 0, m < d, q >= 0, d > 0;
            }
        }
        if self % k == 0 { self / k } else { self / k + 1 }
    }

    fn v_min_of(self, o: usize) -> (r: usize)
        ensures r == if self < o { self } else { o }
    {
        if self < o { self } else { o }
    }

    fn v_max_of(self, o: usize) -> (r: usize)
        ensures r == if self > o { self } else { o }
    {
        if self > o { self } else { o }
    }
}

pub fn v_from_vec<T>(v: Vec<T>) -> (r: VIter<T>)
    ensures r.fresh(), r.all() == v@
{
    VIter::of(v, None)
}

// --- operations on sequences and on their bytes -----------------------------------------------------------------------
pub open spec fn byte_at(b: Seq<u8>, k: int) -> u8 { if 0 <= k < b.len() { b[k] } else { 0u8 } }

pub open spec fn or_bits(s: Seq<bool>, t: Seq<bool>, l: int) -> Seq<bool> { Seq::new(l as nat, |i: int| at(s, i) || at(t, i)) }
pub open spec fn and_bits(s: Seq<bool>, t: Seq<bool>, l: int) -> Seq<bool> { Seq::new(l as nat, |i: int| at(s, i) && at(t, i)) }
pub open spec fn minus_bits(s: Seq<bool>, t: Seq<bool>) -> Seq<bool> { Seq::new(s.len(), |i: int| at(s, i) && !at(t, i)) }
pub open spec fn shifted(s: Seq<bool>, n: int) -> Seq<bool> { Seq::new(s.len(), |i: int| i >= n && s[i - n]) }
pub open spec fn subset(s: Seq<bool>, t: Seq<bool>) -> bool { forall|i: int| #[trigger] at(s, i) ==> at(t, i) }

pub proof fn lemma_pos(a: Seq<u8>, n: int, i: int)
    requires shape(a, n), n >= 0, i >= 0
    ensures bit8(byte_at(a, i / 8), i % 8) == at(bits(a, n), i)
{
    if i < 8 * a.len() {
        if i >= n { assert(!bit(a, i)); }
    } else {
        lemma_zero_byte(i % 8);
    }
}

pub proof fn lemma_or(a: Seq<u8>, n: int, b: Seq<u8>, m: int, c: Seq<u8>, l: int)
    requires
        shape(a, n), shape(b, m), c.len() == nb(l), 0 <= n <= l, 0 <= m <= l,
        forall|k: int| 0 <= k < c.len() ==> #[trigger] c[k] == byte_at(a, k) | byte_at(b, k),
    ensures shape(c, l), bits(c, l) == or_bits(bits(a, n), bits(b, m), l)
{
    assert forall|i: int| 0 <= i < 8 * c.len() implies #[trigger] bit(c, i) == (at(bits(a, n), i) || at(bits(b, m), i)) by {
        lemma_pos(a, n, i);
        lemma_pos(b, m, i);
        lemma_bit_ops(byte_at(a, i / 8), byte_at(b, i / 8), i % 8);
        assert(c[i / 8] == byte_at(a, i / 8) | byte_at(b, i / 8));
    }
    assert(bits(c, l) =~= or_bits(bits(a, n), bits(b, m), l));
}

pub proof fn lemma_and(a: Seq<u8>, n: int, b: Seq<u8>, m: int, c: Seq<u8>, l: int)
    requires
        shape(a, n), shape(b, m), c.len() == nb(l), 0 <= n, 0 <= m, 0 <= l, n <= l || m <= l,
        forall|k: int| 0 <= k < c.len() ==> #[trigger] c[k] == byte_at(a, k) & byte_at(b, k),
    ensures shape(c, l), bits(c, l) == and_bits(bits(a, n), bits(b, m), l)
{
    assert forall|i: int| 0 <= i < 8 * c.len() implies #[trigger] bit(c, i) == (at(bits(a, n), i) && at(bits(b, m), i)) by {
        lemma_pos(a, n, i);
        lemma_pos(b, m, i);
        lemma_bit_ops(byte_at(a, i / 8), byte_at(b, i / 8), i % 8);
        assert(c[i / 8] == byte_at(a, i / 8) & byte_at(b, i / 8));
    }
    assert(bits(c, l) =~= and_bits(bits(a, n), bits(b, m), l));
}

pub proof fn lemma_minus(a: Seq<u8>, n: int, b: Seq<u8>, m: int, c: Seq<u8>)
    requires
        shape(a, n), shape(b, m), c.len() == a.len(), 0 <= n, 0 <= m,
        forall|k: int| 0 <= k < c.len() ==> #[trigger] c[k] == a[k] & !byte_at(b, k),
    ensures shape(c, n), bits(c, n) == minus_bits(bits(a, n), bits(b, m))
{
    assert forall|i: int| 0 <= i < 8 * c.len() implies #[trigger] bit(c, i) == (at(bits(a, n), i) && !at(bits(b, m), i)) by {
        lemma_pos(a, n, i);
        lemma_pos(b, m, i);
        lemma_bit_ops(a[i / 8], byte_at(b, i / 8), i % 8);
        assert(c[i / 8] == a[i / 8] & !byte_at(b, i / 8));
    }
    assert(bits(c, n) =~= minus_bits(bits(a, n), bits(b, m)));
}

pub proof fn lemma_and_not_zero(x: u8)
    ensures x & !0u8 == x
{
    assert(x & !0u8 == x) by (bit_vector);
}

pub proof fn lemma_subset(s: Seq<bool>, t: Seq<bool>)
    ensures is_clear(minus_bits(s, t)) <==> subset(s, t)
{
    let d = minus_bits(s, t);
    if is_clear(d) {
        assert forall|i: int| #[trigger] at(s, i) implies at(t, i) by { assert(!d[i]); }
    }
    if subset(s, t) {
        assert forall|i: int| 0 <= i < d.len() implies !#[trigger] d[i] by { if at(s, i) { assert(at(t, i)); } }
    }
}

pub proof fn lemma_clear(b: Seq<u8>, n: int)
    requires shape(b, n), n >= 0
    ensures is_clear(bits(b, n)) <==> forall|k: int| 0 <= k < b.len() ==> #[trigger] b[k] == 0
{
    let s = bits(b, n);
    if is_clear(s) {
        assert forall|k: int| 0 <= k < b.len() implies #[trigger] b[k] == 0 by {
            lemma_nonzero(b[k]);
            assert forall|j: int| 0 <= j < 8 implies !#[trigger] bit8(b[k], j) by {
                lemma_pos(b, n, 8 * k + j);
                assert((8 * k + j) / 8 == k && (8 * k + j) % 8 == j);
                if 8 * k + j < n { assert(!s[8 * k + j]); }
            }
        }
    }
    if forall|k: int| 0 <= k < b.len() ==> #[trigger] b[k] == 0 { lemma_zeros(b, n); }
}

/// the last non-zero byte holds the highest set bit
pub proof fn lemma_top(b: Seq<u8>, n: int, k: int)
    requires shape(b, n), n >= 0, 0 <= k < b.len(), b[k] != 0, forall|l: int| k < l < b.len() ==> #[trigger] b[l] == 0
    ensures is_top(bits(b, n), 8 * k + msb(b[k]))
{
    let s = bits(b, n);
    let h = 8 * k + msb(b[k]);
    lemma_msb(b[k]);
    assert(h / 8 == k && h % 8 == msb(b[k]));
    assert(bit(b, h));
    if h >= n { assert(!bit(b, h)); }
    assert forall|i: int| h < i < s.len() implies !#[trigger] s[i] by {
        if i / 8 == k {
            assert(!bit8(b[k], i % 8));
        } else {
            assert(b[i / 8] == 0);
            lemma_zero_byte(i % 8);
        }
    }
}

pub proof fn lemma_top_unique(s: Seq<bool>, h: int, g: int)
    requires is_top(s, h), is_top(s, g)
    ensures h == g
{
}

// --- bitlists: a delimiter after the last bit -------------------------------------------------------------------------
pub open spec fn delim(b: Seq<u8>) -> int { 8 * (b.len() - 1) + msb(b.last()) }

pub proof fn lemma_delim(b: Seq<u8>)
    requires b.len() > 0, b.last() != 0
    ensures
        ({ let h = delim(b); let s = bits(b, h);
            &&& is_top(bits(b, (8 * b.len()) as int), h)
            &&& h / 8 + 1 == b.len()
            &&& shape(b, h + 1)
            &&& bits(b, h + 1) == s.push(true)
            &&& to_bytes(s.push(true)) == b
        }),
{
    let h = delim(b);
    lemma_msb(b.last());
    lemma_top(b, (8 * b.len()) as int, b.len() - 1);
    let s = bits(b, (8 * b.len()) as int);
    assert forall|i: int| h + 1 <= i < 8 * b.len() implies !#[trigger] bit(b, i) by { assert(!s[i]); }
    assert(s[h] == bit(b, h));
    assert(bits(b, h + 1) =~= bits(b, h).push(true));
    lemma_canon(b, h + 1);
}

/// the bytes of a bitlist with its delimiter
pub proof fn lemma_bitlist(b: Seq<u8>)
    ensures
        ({ let l = (8 * b.len()) as int; let s = bits(b, l);
            &&& b.len() == 0 ==> !shape(b, l)
            &&& b.len() > 0 ==> shape(b, l)
            &&& s.len() == l
            &&& is_clear(s) && b.len() > 0 ==> b.last() == 0
            &&& forall|h: int| #[trigger] is_top(s, h) ==> 0 <= h < l
            &&& forall|h: int| #[trigger] is_top(s, h) && b.last() == 0 ==> h / 8 + 1 != b.len()
            &&& forall|h: int| #[trigger] is_top(s, h) && b.last() != 0 ==> h == delim(b) && h / 8 + 1 == b.len()
        }),
{
    let l = (8 * b.len()) as int;
    if b.len() == 0 {
        lemma_empty_not_shaped(b);
    } else if b.last() != 0 {
        lemma_delim(b);
        lemma_msb(b.last());
        assert forall|h: int| #[trigger] is_top(bits(b, l), h) implies h == delim(b) by { lemma_top_unique(bits(b, l), h, delim(b)); }
    } else {
        lemma_last_zero(b);
    }
}

pub proof fn lemma_delimited(v: Seq<bool>)
    ensures
        ({ let b = to_bytes(v.push(true));
            &&& b.len() == v.len() / 8 + 1
            &&& b.last() != 0
            &&& delim(b) == v.len()
            &&& bits(b, v.len() as int) == v
        }),
{
    let s = v.push(true);
    let b = to_bytes(s);
    let n = v.len() as int;
    lemma_to_bytes(s);
    assert(b.len() == n / 8 + 1);
    assert(bits(b, n + 1)[n] == s[n]);
    assert(bit(b, n));
    lemma_nonzero(b.last());
    assert(bit8(b.last(), n % 8));
    lemma_top(b, n + 1, b.len() - 1);
    lemma_top_unique(bits(b, n + 1), delim(b), n);
    assert(bits(b, n) =~= v) by {
        assert forall|i: int| 0 <= i < n implies bits(b, n)[i] == v[i] by { assert(bits(b, n + 1)[i] == s[i]); }
    }
}

/// without the delimiter, and without the byte that held nothing else
pub proof fn lemma_undelimit(b: Seq<u8>, c: Seq<u8>, d: Seq<u8>)
    requires
        b.len() > 0, b.last() != 0, shape(c, (8 * b.len()) as int),
        bits(c, (8 * b.len()) as int) == bits(b, (8 * b.len()) as int).update(delim(b), false),
        d == (if nb(delim(b)) < c.len() { c.take(nb(delim(b))) } else { c }),
    ensures shape(d, delim(b)), bits(d, delim(b)) == bits(b, delim(b))
{
    hide(bits); hide(shape); hide(is_top); hide(delim); hide(nb); hide(to_bytes); hide(msb);
    lemma_delim(b);
    lemma_undelimit_at(b, c, d, delim(b));
}

proof fn lemma_undelimit_at(b: Seq<u8>, c: Seq<u8>, d: Seq<u8>, h: int)
    requires
        b.len() > 0, shape(c, (8 * b.len()) as int), is_top(bits(b, (8 * b.len()) as int), h), h / 8 + 1 == b.len(),
        bits(c, (8 * b.len()) as int) == bits(b, (8 * b.len()) as int).update(h, false),
        d == (if nb(h) < c.len() { c.take(nb(h)) } else { c }),
    ensures shape(d, h), bits(d, h) == bits(b, h)
{
    hide(bit8);
    let l = (8 * b.len()) as int;
    assert(nb(h) <= b.len() && nb(l) == b.len() && h <= 8 * nb(h));
    assert(d.len() == nb(h));
    assert forall|i: int| 0 <= i < 8 * d.len() implies #[trigger] bit(d, i) == (i < h && bit(b, i)) by {
        assert(d[i / 8] == c[i / 8]);
        assert(bits(c, l)[i] == bit(c, i) && bits(b, l)[i] == bit(b, i));
        assert(bits(b, l).update(h, false)[i] == if i == h { false } else { bits(b, l)[i] });
        if i > h { assert(!bits(b, l)[i]); }
    }
    assert(bits(d, h) =~= bits(b, h));
}

/// room for the delimiter
pub proof fn lemma_room(b: Seq<u8>, n: int, c: Seq<u8>)
    requires shape(b, n), n >= 0, c == Seq::new(nb(n + 1) as nat, |i: int| if i < b.len() { b[i] } else { 0u8 })
    ensures shape(c, n + 1), bits(c, n + 1) == bits(b, n).push(false), bits(c, n + 1).update(n, true) == bits(b, n).push(true)
{
    assert forall|i: int| 0 <= i < 8 * c.len() implies #[trigger] bit(c, i) == at(bits(b, n), i) by {
        lemma_pos(b, n, i);
        assert(c[i / 8] == byte_at(b, i / 8));
    }
    assert(bits(c, n + 1) =~= bits(b, n).push(false));
    assert(bits(c, n + 1).update(n, true) =~= bits(b, n).push(true));
}

pub proof fn lemma_shl(x: usize)
    requires x < 8
    ensures (1u8 << x) == (1u8 << (x as u8))
{
    assert((1u8 << x) == (1u8 << (x as u8))) by (bit_vector) requires x < 8;
}

/// the ways to ask for a bit
pub proof fn lemma_bit_forms(x: u8, j: usize)
    requires j < 8
    ensures
        (x & (1u8 << j) > 0) == bit8(x, j as int),
        (x & (1u8 << j) == (1u8 << j)) == bit8(x, j as int),
        ((x >> j) & 1 == 1) == bit8(x, j as int),
        ((x >> j) % 2 == 1) == bit8(x, j as int),
        ((x >> j) & 1 != 0) == bit8(x, j as int),
        ((x >> j) & 1 > 0) == bit8(x, j as int),
        1u8 << j == 1u8 << (j as u8), 1u8 << (j as u32) == 1u8 << (j as u8), x >> (j as u32) == x >> j, x >> (j as u8) == x >> j,
{
    let m = 1u8 << j;
    lemma_shl(j);
    assert(((x >> j) & 1 == 1) == (x & (1u8 << j) != 0)) by (bit_vector) requires j < 8;
    assert(((x >> j) % 2 == 1) == (x & (1u8 << j) != 0)) by (bit_vector) requires j < 8;
    assert(((x >> j) & 1 != 0) == (x & (1u8 << j) != 0)) by (bit_vector) requires j < 8;
    assert((x & (1u8 << j) == (1u8 << j)) == (x & (1u8 << j) != 0)) by (bit_vector) requires j < 8;
    assert(1u8 << (j as u32) == 1u8 << (j as u8) && x >> (j as u32) == x >> j && x >> (j as u8) == x >> j) by (bit_vector) requires j < 8;
}

/// the ways to change a bit
pub proof fn lemma_set_forms(x: u8, j: usize)
    requires j < 8
    ensures
        x ^ (1u8 << j) == (if x & (1u8 << j) != 0 { x & !(1u8 << j) } else { x | (1u8 << j) }),
        x & (1u8 << j) != 0 ==> x | (1u8 << j) == x,
        x & (1u8 << j) == 0 ==> x & !(1u8 << j) == x,
        (x & !(1u8 << j)) | (1u8 << j) == x | (1u8 << j),
        (x | (1u8 << j)) ^ (1u8 << j) == x & !(1u8 << j),
        (x & !(1u8 << j)) | (0u8 << j) == x & !(1u8 << j), (x & !(1u8 << j)) | 0 == x & !(1u8 << j),
        1u8 << j != 0, !(1u8 << j) == 255u8 ^ (1u8 << j),
{
    assert(x ^ (1u8 << j) == (if x & (1u8 << j) != 0 { x & !(1u8 << j) } else { x | (1u8 << j) })
        && (x & (1u8 << j) != 0 ==> x | (1u8 << j) == x)
        && (x & (1u8 << j) == 0 ==> x & !(1u8 << j) == x)
        && (x & !(1u8 << j)) | (1u8 << j) == x | (1u8 << j)
        && (x | (1u8 << j)) ^ (1u8 << j) == x & !(1u8 << j)
        && (x & !(1u8 << j)) | (0u8 << j) == x & !(1u8 << j)
        && (x & !(1u8 << j)) | 0 == x & !(1u8 << j)
        && 1u8 << j != 0 && !(1u8 << j) == 255u8 ^ (1u8 << j)) by (bit_vector) requires j < 8;
}

/// the remainder and the quotient by 8, in bits
pub broadcast proof fn lemma_and7(i: usize)
    ensures #[trigger] (i & 7usize) == i % 8
{
    assert(i & 7usize == i % 8) by (bit_vector);
}

pub broadcast proof fn lemma_shr3(i: usize)
    ensures #[trigger] (i >> 3usize) == i / 8
{
    assert(i >> 3usize == i / 8) by (bit_vector);
}

pub proof fn lemma_gt0(x: u8)
    ensures (x > 0) == (x != 0)
{
}

pub proof fn lemma_trunc(x: usize)
    ensures (x as u32) % 8 == x % 8
{
    assert((x as u32) % 8 == x % 8) by (bit_vector);
}

/// the number of set bits
pub proof fn lemma_count(b: Seq<u8>, n: int, c: Seq<usize>)
    requires shape(b, n), n >= 0, c.len() == b.len(), forall|k: int| 0 <= k < b.len() ==> #[trigger] c[k] == ones(b[k])
    ensures seq_sum(c) == count(bits(b, n)), seq_sum(c) <= 8 * b.len()
{
    lemma_count_bytes(b, c);
    let s = bits(b, (8 * b.len()) as int);
    assert forall|i: int| n <= i < s.len() implies !#[trigger] s[i] by { assert(!bit(b, i)); }
    lemma_count_pad(s, n);
    assert(s.take(n) =~= bits(b, n));
}

pub proof fn lemma_empty_not_shaped(b: Seq<u8>)
    requires b.len() == 0
    ensures !shape(b, 0)
{
}

/// the highest set bit of a sequence with a zero last byte is not in the last byte
pub proof fn lemma_last_zero(b: Seq<u8>)
    requires b.len() > 0, b.last() == 0
    ensures forall|h: int| #[trigger] is_top(bits(b, (8 * b.len()) as int), h) ==> h / 8 + 1 != b.len()
{
    assert forall|h: int| #[trigger] is_top(bits(b, (8 * b.len()) as int), h) implies h / 8 + 1 != b.len() by {
        lemma_zero_byte(h % 8);
        assert(bit(b, h));
    }
}

/// the ways to ask whether a byte has a bit at or above u
pub proof fn lemma_tail_forms(x: u8, u: usize)
    requires 0 < u < 8
    ensures
        255u8 >> ((8 - u) as usize) == ((1u8 << u) - 1) as u8, 1u8 << u >= 2,
        (x >> u == 0) == (x & !(255u8 >> ((8 - u) as usize)) == 0),
        (x & (255u8 << u) == 0) == (x & !(255u8 >> ((8 - u) as usize)) == 0),
        (x < 1u8 << u) == (x & !(255u8 >> ((8 - u) as usize)) == 0),
        (x & (255u8 >> ((8 - u) as usize)) == x) == (x & !(255u8 >> ((8 - u) as usize)) == 0),
        (x | (255u8 >> ((8 - u) as usize)) == (255u8 >> ((8 - u) as usize))) == (x & !(255u8 >> ((8 - u) as usize)) == 0),
        255u8 << u == !(255u8 >> ((8 - u) as usize)),
{
    let s = (8 - u) as usize;
    assert(255u8 >> s == sub(1u8 << u, 1) && 1u8 << u >= 2) by (bit_vector) requires 0 < u < 8, s == 8 - u;
    assert((x >> u == 0) == (x & !(255u8 >> s) == 0)) by (bit_vector) requires 0 < u < 8, s == 8 - u;
    assert((x & (255u8 << u) == 0) == (x & !(255u8 >> s) == 0)) by (bit_vector) requires 0 < u < 8, s == 8 - u;
    assert((x < 1u8 << u) == (x & !(255u8 >> s) == 0)) by (bit_vector) requires 0 < u < 8, s == 8 - u;
    assert((x & (255u8 >> s) == x) == (x & !(255u8 >> s) == 0)) by (bit_vector) requires 0 < u < 8, s == 8 - u;
    assert((x | (255u8 >> s) == (255u8 >> s)) == (x & !(255u8 >> s) == 0)) by (bit_vector) requires 0 < u < 8, s == 8 - u;
    assert(255u8 << u == !(255u8 >> s)) by (bit_vector) requires 0 < u < 8, s == 8 - u;
}

pub proof fn lemma_pad_mask(n: int)
    requires n > 0
    ensures pad_mask(n) == (if n % 8 == 0 { 255u8 } else { 255u8 >> ((8 - n % 8) as usize) }), n % 8 != 0 ==> (n - 1) % 8 + 1 == n % 8, n % 8 == 0 ==> (n - 1) % 8 + 1 == 8
{
    let s = (8 - n % 8) as u32;
    assert(s & 7u32 == s % 8) by (bit_vector);
    assert(255u8 >> 0u32 == 255u8) by (bit_vector);
}

pub proof fn lemma_full_mask(x: u8)
    ensures x & !255u8 == 0, 255u8 >> 0usize == 255u8
{
    assert(x & !255u8 == 0 && 255u8 >> 0usize == 255u8) by (bit_vector);
}

// ---------------------------------------------------------------------------------------------------------------
// Library types with an SSZ codec: what the code relies on
// ---------------------------------------------------------------------------------------------------------------

// --- core::num::NonZeroUsize --------------------------------------------------------------------------------------
#[derive(Clone, Copy)]
pub struct NonZeroUsize(pub usize);

impl NonZeroUsize {
    pub fn new(x: usize) -> (r: Option<Self>)
        ensures match r { Some(n) => n.0 == x && x != 0, None => x == 0 }
    {
        if x == 0 { None } else { Some(NonZeroUsize(x)) }
    }

    pub fn v_get(&self) -> (r: usize)
        ensures r == self.0
    {
        self.0
    }
}

// --- alloc::sync::Arc ---------------------------------------------------------------------------------------------
pub struct Arc<T>(pub T);

impl<T> Arc<T> {
    pub fn new(x: T) -> (r: Self)
        ensures r.0 == x
    {
        Arc(x)
    }

    pub fn v_as_ref(&self) -> (r: &T)
        ensures *r == self.0
    {
        &self.0
    }
}

// --- alloy_primitives -------------------------------------------------------------------------------------------------
pub struct FixedBytes<const N: usize>(pub [u8; N]);
pub struct Address(pub FixedBytes<20>);
pub struct Bloom(pub FixedBytes<256>);
pub struct Bytes(pub Vec<u8>);

impl Address {
    pub fn from_slice(s: &[u8]) -> (r: Self)
        requires s@.len() == 20
        ensures r.0.0@ == s@
    {
        let mut a = [0u8; 20];
        a.v_copy_from_slice(s);
        Address(FixedBytes(a))
    }

    pub fn v_as_slice(&self) -> (r: &[u8])
        ensures r@ == self.0.0@
    {
        self.0.0.as_slice()
    }
}

impl Bloom {
    pub fn from_slice(s: &[u8]) -> (r: Self)
        requires s@.len() == 256
        ensures r.0.0@ == s@
    {
        let mut a = [0u8; 256];
        a.v_copy_from_slice(s);
        Bloom(FixedBytes(a))
    }
}

impl<const N: usize> FixedBytes<N> {
    pub fn v_to_vec(&self) -> (r: Vec<u8>)
        ensures r@ == self.0@
    {
        self.0.as_slice().v_to_vec()
    }
}

impl VInto<Bytes> for Vec<u8> {
    open spec fn into_spec(self) -> Bytes { Bytes(self) }
    fn v_into(self) -> (r: Bytes) { Bytes(self) }
}

pub open spec fn zeros(n: nat) -> Seq<u8> { Seq::new(n, |i: int| 0u8) }

pub proof fn lemma_zeros_value(n: nat)
    ensures le_value(zeros(n)) == 0
    decreases n
{
    if n > 0 {
        lemma_zeros_value((n - 1) as nat);
        assert(zeros(n).drop_first() =~= zeros((n - 1) as nat));
    }
}

macro_rules! v_uint {
    ($t:ident, $k:literal) => { verus! {
        /// ruint::Uint, as its little-endian bytes
        pub struct $t { b: [u8; $k] }

        impl $t {
            pub closed spec fn n(&self) -> int { le_value(self.b@) }

            pub broadcast proof fn axiom_range(&self)
                ensures 0 <= #[trigger] self.n() < pow256($k)
            {
                lemma_le_back(self.b@);
            }

            pub fn from_le_slice(s: &[u8]) -> (r: Self)
                requires s@.len() <= $k
                ensures r.n() == le_value(s@)
            {
                let mut b = [0u8; $k];
                proof { assert(b@ =~= s@.take(0) + zeros($k)); }
                let mut i: usize = 0;
                while i < s.len()
                    invariant i <= s@.len() <= $k, b@ == s@.take(i as int) + zeros(($k - i) as nat)
                    decreases s.len() - i
                {
                    b[i] = s[i];
                    i = i + 1;
                    proof { assert(b@ =~= s@.take(i as int) + zeros(($k - i) as nat)); }
                }
                proof {
                    assert(s@.take(i as int) =~= s@);
                    lemma_le_cut_value(s@, zeros(($k - i) as nat));
                    lemma_zeros_value(($k - i) as nat);
                }
                $t { b }
            }

            pub fn v_as_le_slice(&self) -> (r: &[u8])
                ensures r@ == le_bytes(self.n(), $k)
            {
                proof { lemma_le_back(self.b@); }
                self.b.as_slice()
            }
        }
    } }
}
v_uint!(U256, 32);
v_uint!(U128, 16);

// Run twice: against the extracted text that Verus verifies (compiled by Verus), and against the real crate. The transcripts
// must be equal. Names that differ between the two come from the file this one is included in.
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545F4914F6CDD1D) >> 16
    }
    fn below(&mut self, n: usize) -> usize { (self.next() % n.max(1) as u64) as usize }
    fn bytes(&mut self, n: usize) -> Vec<u8> {
        let m = self.below(4);
        (0..n).map(|_| match m { 0 => 0, 1 => self.below(3) as u8, 2 => self.below(40) as u8, _ => self.next() as u8 }).collect()
    }
}
struct T { lines: u64, hash: u64, ok: u64, full: bool }
impl T {
    fn say(&mut self, s: String) {
        for b in s.bytes() { self.hash = (self.hash ^ b as u64).wrapping_mul(0x100000001b3); }
        self.lines += 1;
        if self.full { println!("{s}"); }
    }
}
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }

fn one<X: Encode + Decode>(t: &mut T, b: &[u8]) -> Option<Vec<u8>> {
    match X::from_ssz_bytes(b) {
        Ok(x) => {
            let mut buf = vec![7u8; b.len() % 5];
            x.ssz_append(&mut buf);
            let e = x.as_ssz_bytes();
            t.ok += 1;
            t.say(format!("{} ok {} {} {}", hex(b), x.ssz_bytes_len(), hex(&e), hex(&buf)));
            Some(e)
        }
        Err(_) => { t.say(format!("{} err", hex(b))); None }
    }
}
macro_rules! show { ($t:expr, $b:expr) => {{
    let b = $b;
    let bits: String = (0..b.len() + 2).map(|i| match b.get(i) { Ok(true) => '1', Ok(false) => '0', Err(_) => '.' }).collect();
    let mut it = b.iter();
    let mut seen = String::new();
    while let Some(x) = it.next() { seen.push(if x { '1' } else { '0' }); }
    $t.say(format!("{} {bits} {seen} {} {:?} {} {} {}", b.len(), b.num_set_bits(), b.highest_set_bit(), b.is_zero(), b.is_empty(), hex(b.as_slice())));
}} }
/// strings of random bytes, offset tables that fit, and neighbours of accepted strings
fn codec<X: Encode + Decode>(t: &mut T, name: &str, rounds: usize) {
    let before = t.ok;
    t.say(format!("{name} {} {} {} {}", <X as Encode>::is_ssz_fixed_len(), <X as Decode>::is_ssz_fixed_len(), <X as Encode>::ssz_fixed_len(), <X as Decode>::ssz_fixed_len()));
    let mut r = Rng(0x9E3779B97F4A7C15 ^ name.bytes().fold(0u64, |a, b| a.wrapping_mul(31).wrapping_add(b as u64)));
    let fixed = <X as Decode>::ssz_fixed_len();
    let mut pool: Vec<Vec<u8>> = vec![];
    for i in 0..rounds {
        let mut b = if i % 3 == 0 && !pool.is_empty() {
            let k = r.below(pool.len());
            let mut b = pool[k].clone();
            for _ in 0..r.below(3) {
                match r.below(5) {
                    0 => b.push(r.next() as u8),
                    1 => { b.pop(); }
                    2 if !b.is_empty() => { let k = r.below(b.len()); b[k] = b[k].wrapping_add(1); }
                    3 if !b.is_empty() => { let k = r.below(b.len()); b[k] ^= 1 << r.below(8); }
                    _ if !b.is_empty() => { let k = r.below(b.len()); b[k] = r.below(5) as u8; }
                    _ => {}
                }
            }
            b
        } else {
            let n = match r.below(4) { 0 => r.below(4), 1 => fixed, 2 => fixed + r.below(30), _ => r.below(70) };
            r.bytes(n)
        };
        if i % 5 == 1 {
            // offsets after some fixed bytes
            let (k, n) = (r.below(10), 1 + r.below(4));
            if b.len() < k + 4 * n { b.resize(k + 4 * n + r.below(20), 1); }
            let mut at = k + 4 * n;
            for j in 0..n {
                b[k + 4 * j..k + 4 * j + 4].copy_from_slice(&(at as u32).to_le_bytes());
                at += r.below((b.len() - at.min(b.len())) + 1);
            }
            if r.below(3) == 0 { b.insert(0, 1); }
        }
        if let Some(e) = one::<X>(t, &b) { if pool.len() < 200 { pool.push(e); } }
    }
    for n in 0..=3usize {
        let all = if n < 2 { 256usize.pow(n as u32) } else { 2000 };
        for k in 0..all { let b: Vec<u8> = (0..n).map(|i| if n < 2 { k as u8 } else { (k * 7919 >> (3 * i)) as u8 & 0x83 }).collect(); one::<X>(t, &b); }
    }
    let ok = t.ok - before;
    println!("# {name} accepted {ok} hash {:016x}", t.hash);
}

fn text<X: Text + Encode>(t: &mut T, s: &str) {
    t.say(match X::of_str(s) { Some(x) => format!("{s:?} {} {:?}", hex(&x.as_ssz_bytes()), x.to_str()), None => format!("{s:?} err") });
}
fn texts<X: Text + Encode>(t: &mut T, rounds: usize) {
    let mut r = Rng(31);
    for s in ["", "0", "0x", "0X", "x", "0x0", "0x00", "0X01", "00", "01", "0xff", "0xFf", "0xgg", " 0x01", "0x01 ", "0x 1", "0x+1", "0x-1", "0x\u{e9}", "0x0\u{e9}", "0x0x", "0x0x01", "0x1", "0x011"] { text::<X>(t, s); }
    for _ in 0..rounds {
        let b = { let n = r.below(14); r.bytes(n) };
        let mut s = format!("0x{}", hex(&b));
        if r.below(4) == 0 { s = s.to_uppercase(); }
        if r.below(4) == 0 { let k = r.below(s.len()); s.remove(k); }
        if r.below(4) == 0 { let k = r.below(s.len() + 1); s.insert(k, ['0', 'x', 'g', 'A', '\u{e9}', '1'][r.below(6)]); }
        text::<X>(t, &s);
    }
}
fn made<X: Made + Encode>(t: &mut T, rounds: usize) {
    let mut r = Rng(32);
    for i in 0..rounds + 40 {
        let mut b = { let n = if i < 40 { i } else { r.below(180) }; r.bytes(n) };
        if r.below(2) == 0 { for k in 1..b.len().min(8) { b[k] = 0; } }
        let mut u = unstructured(&b);
        let x = X::made(&mut u);
        t.say(match x { Ok(x) => format!("{} made {} {}", hex(&b), hex(&x.as_ssz_bytes()), u.len()), Err(_) => format!("{} err {}", hex(&b), u.len()) });
    }
}
fn bits<N: Unsigned + Clone + 'static>(t: &mut T, rounds: usize) {
    let mut r = Rng(88172645463325252 + N::to_usize() as u64);
    codec::<Bitfield<Variable<N>>>(t, "BitList", rounds);
    codec::<Bitfield<Fixed<N>>>(t, "BitVector", rounds);
    texts::<Bitfield<Variable<N>>>(t, rounds); texts::<Bitfield<Fixed<N>>>(t, rounds);
    made::<Bitfield<Variable<N>>>(t, rounds); made::<Bitfield<Fixed<N>>>(t, rounds);
    for n in 0..N::to_usize() + 3 {
        match Bitfield::<Variable<N>>::with_capacity(n) { Ok(b) => show!(t, &b), Err(_) => t.say(format!("{n} refused")) }
    }
    for _ in 0..rounds {
        let k = N::to_usize().min(90);
        let (n, m) = (r.below(k + 1), r.below(k + 1));
        let mut a = Bitfield::<Variable<N>>::with_capacity(n).ok().unwrap();
        let mut b = Bitfield::<Variable<N>>::with_capacity(m).ok().unwrap();
        for _ in 0..r.below(2 * k + 1) { let i = r.below(n + 2); let ok = a.set(i, r.below(3) > 0).is_ok(); t.say(format!("set {i} {ok}")); }
        for _ in 0..r.below(2 * k + 1) { let _ = b.set(r.below(m + 1), r.below(3) > 0); }
        show!(t, &a);
        let mut s = a.v2clone();
        let by = r.below(n + 2);
        t.say(format!("shift {by} {}", s.shift_up(by).is_ok()));
        show!(t, &s);
        show!(t, &a.union(&b));
        show!(t, &a.intersection(&b));
        show!(t, &a.difference(&b));
        t.say(format!("{} {} {}", a.is_subset(&b), a.eq(&b), a.intersection(&b).is_subset(&a)));
        s.difference_inplace(&b);
        show!(t, &s);
        t.say(hex(&a.v2clone().into_bytes()));
        t.say(hex(&a.v2clone().into_raw_bytes()));
        let raw = { let n = r.below(14); r.bytes(n) };
        match Bitfield::<Variable<N>>::from_bytes(sv(&raw)) { Ok(x) => show!(t, &x), Err(_) => t.say(format!("{} refused", hex(&raw))) }
        let raw = if r.below(2) == 0 { let l = N::to_usize().div_ceil(8).max(1); r.bytes(l) } else { raw };
        match Bitfield::<Fixed<N>>::from_bytes(sv(&raw)) {
            Ok(x) => {
                show!(t, &x);
                let mut y = Bitfield::<Fixed<N>>::new();
                let _ = y.set(r.below(k + 1), true);
                show!(t, &x.union(&y));
                show!(t, &x.intersection(&y));
                show!(t, &x.difference(&y));
                t.say(format!("{} {}", y.is_subset(&x), x.eq(&y)));
                t.say(hex(&x.into_bytes()));
            }
            Err(_) => t.say(format!("{} refused", hex(&raw))),
        }
        match a.resize::<B64>() { Ok(x) => show!(t, &x), Err(_) => t.say("no resize".to_string()) }
        match a.resize::<B9>() { Ok(x) => show!(t, &x), Err(_) => t.say("no resize".to_string()) }
    }
    println!("# bits {} hash {:016x}", N::to_usize(), t.hash);
}
fn dynamic(t: &mut T, rounds: usize) {
    codec::<Bitfield<Dynamic>>(t, "BitVectorDynamic", rounds);
    let mut r = Rng(77);
    texts::<Bitfield<Dynamic>>(t, rounds);
    for n in 0..70 { match Bitfield::<Dynamic>::new(n) { Ok(b) => show!(t, &b), Err(_) => t.say(format!("{n} refused")) } }
    for _ in 0..rounds {
        let mk = |r: &mut Rng| { let n = 8 * (1 + r.below(6)); let mut b = Bitfield::<Dynamic>::new(n).ok().unwrap(); for _ in 0..r.below(n) { let _ = b.set(r.below(n + 1), r.below(3) > 0); } b };
        let (mut a, b) = (mk(&mut r), mk(&mut r));
        show!(t, &a);
        for x in [a.union(&b), a.intersection(&b)] { match x { Ok(x) => show!(t, &x), Err(_) => t.say("refused".to_string()) } }
        show!(t, &a.difference(&b));
        let by = r.below(a.len() + 2);
        t.say(format!("{by} {}", a.shift_up(by).is_ok()));
        show!(t, &a);
        let raw = { let n = r.below(6); r.bytes(n) };
        let len = if r.below(2) == 0 { raw.len() * 8 } else { r.below(50) };
        match Bitfield::<Dynamic>::from_bytes_with_len(sv(&raw), len) { Ok(x) => { show!(t, &x); t.say(hex(&x.into_bytes())) } Err(_) => t.say(format!("{} {len} refused", hex(&raw))) }
    }
    println!("# dynamic hash {:016x}", t.hash);
}
fn helpers(t: &mut T, rounds: usize) {
    let mut r = Rng(5);
    for s in 0..=255u8 { for n in 0..3 { let mut b = vec![s; n]; b.push(9); b.swap(0, n); b.truncate(n);
        t.say(match split_union_bytes(&b) { Ok((x, y)) => format!("{} {}", u8_of(x), hex(y)), Err(_) => "err".to_string() }); }
        t.say(format!("{}", UnionSelector::new(s).is_ok())); }
    for _ in 0..rounds {
        let b = { let n = r.below(7); r.bytes(n) };
        t.say(match read_offset(&b) { Ok(x) => format!("{x} {}", hex(&encode_length(x))), Err(_) => "err".to_string() });
        // the builder, stopping at the first error
        let b = { let n = r.below(60); r.bytes(n) };
        let items: Vec<(bool, usize)> = (0..r.below(6)).map(|_| (r.below(2) == 0, r.below(6))).collect();
        let mut b = b;
        if r.below(4) > 0 {
            let end: usize = items.iter().map(|(f, n)| if *f { *n } else { 4 }).sum();
            b.resize(end.max(b.len() * items.iter().any(|i| !i.0) as usize), 3);
            let (mut at, mut off) = (0, end);
            for (f, n) in &items { if *f { at += n } else { b[at..at + 4].copy_from_slice(&(off as u32).to_le_bytes()); at += 4; off += r.below(b.len() - off + 1); } }
        }
        let mut s = SszDecoderBuilder::new(&b);
        let mut said = hex(&b);
        let mut fine = true;
        for (f, n) in &items {
            fine = if !*f && r.below(2) == 0 { s.register_anonymous_variable_length_item().is_ok() } else { s.register_type_parameterized(*f, *n).is_ok() };
            said += if fine { " +" } else { " -" };
            if !fine { break; }
        }
        if fine {
            match s.build() {
                Ok(mut d) => for _ in &items { match d.decode_next_with(|x| Ok::<Vec<u8>, DecodeError>(x.to_vec())) { Ok(x) => { said += " "; said += &hex(&x) } Err(_) => said += " err" } },
                Err(_) => said += " no",
            }
        }
        t.say(said);
        // lists with a limit
        let n = 1 + r.below(6);
        let mut b = { let n = 4 * n + r.below(30); r.bytes(n) };
        let mut at = 4 * n;
        for j in 0..n { b[4 * j..4 * j + 4].copy_from_slice(&(at as u32).to_le_bytes()); at += r.below(b.len() - at + 1); }
        if r.below(3) == 0 { let k = r.below(b.len()); b[k] ^= 1 << r.below(8); }
        let max = if r.below(3) == 0 { None } else { Some(r.below(8)) };
        let x = decode_list_of_variable_length_items::<Vec<u16>, Vec<Vec<u16>>>(&b, max);
        t.say(match x { Ok(x) => format!("{} {max:?} {}", hex(&b), hex(&x.as_ssz_bytes())), Err(_) => format!("{} {max:?} err", hex(&b)) });
        // the encoder
        let mut buf = { let n = r.below(40); r.bytes(n) };
        let parts: Vec<(bool, Vec<u8>)> = (0..r.below(6)).map(|_| { let n = r.below(9); (r.below(2) == 0, r.bytes(n)) }).collect();
        let fixed = parts.iter().map(|(f, x)| if *f { x.len() } else { 4 }).sum();
        let mut e = SszEncoder::container(&mut buf, fixed);
        for (f, x) in &parts { e.append_parameterized(*f, |b: &mut Vec<u8>| { for y in x { b.push(*y) } }); e.append(&7u8); e.append(x); }
        e.finalize();
        t.say(hex(&buf));
    }
    println!("# helpers hash {:016x}", t.hash);
}

fn run() {
    let full = std::env::args().any(|a| a == "full");
    let n: usize = std::env::args().filter_map(|a| a.parse().ok()).next().unwrap_or(400);
    let mut t = T { lines: 0, hash: 0xcbf29ce484222325, ok: 0, full };
    let t = &mut t;
    macro_rules! go { ($($x:ty),* $(,)?) => { $(codec::<$x>(t, stringify!($x), n);)* } }
    go! { u8, u16, u32, u64, u128, usize, bool, NonZeroUsize, Address, Bloom, U128, U256, Bytes, FixedBytes<0>, FixedBytes<1>, FixedBytes<32>, [u8; 0], [u8; 3], [u8; 40],
        Arc<u32>, Arc<Vec<u16>>, Option<u8>, Option<bool>, Option<Vec<u16>>, Option<Option<Bytes>>, Option<[u8; 0]>,
        Vec<u8>, Vec<u32>, Vec<bool>, Vec<[u8; 3]>, Vec<[u8; 0]>, Vec<Vec<u8>>, Vec<Vec<u32>>, Vec<Option<u16>>, Vec<Vec<Vec<bool>>>, Vec<(u8, Bytes)>,
        SmV<u8, 4>, SmV<u16, 2>, SmV<Vec<u8>, 3>, SmV<[u8; 0], 3>,
        (u8, u16), (u8, Vec<u8>), (Vec<u8>, u8, Bytes), (u8, bool, u16, u8), (Bytes, Bytes, Bytes, Bytes, Bytes), (u8, u8, u8, u8, u8, Bytes), (u8, u8, Bytes, u8, u8, u8, u8),
        (u8, u8, u8, u8, u8, u8, u8, Vec<bool>), (u8, u8, u8, u8, u8, u8, u8, u8, u16), (Bytes, u8, u8, u8, u8, u8, u8, u8, u16, Bytes), (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, Bytes), (u8, u8, Bytes, u8, u8, Bytes, u8, u8, u8, u8, Bytes, u16),
        Map<u8, u8>, Map<u16, Vec<u8>>, Map<Vec<u8>, u8>, Map<[u8; 0], [u8; 0]>, Set<u8>, Set<Vec<u8>>, Set<[u8; 0]>, Set<Vec<Vec<u8>>>, Option<Map<u8, Set<u8>>>,
    }
    type Z = [u8; 2];      // skipped
    type L = Vec<u8>;
    go! { DvC0, DvC1<u8>, DvC1<L>, DvC2<u16, L>, DvC2<u16, u8>, DvC2<L, L>, DvC3<u8, L, u16>, DvC3<u8, bool, u16>, DvC4<L, u8, Vec<u16>, bool>, DvC5<u8, u8, L, Bytes, u16>, DvC5<u8, u8, u8, u16, u16>,
        DvC6<L, u8, u8, L, u8, L>, DvC8<u8, u8, L, u8, u8, Option<L>, u8, u8>, DvC8<u8, u8, u8, u8, u8, u8, u8, u16>, DvN3<L, u8, L>, DvN3<u8, u8, u8>, DvQ2<L, u8>, DvR3<L, u8>, DvR3<u8, L>,
        DvS1<Z>, DvS2A<Z, u8>, DvS2A<Z, L>, DvS2B<u8, Z>, DvS2B<L, Z>, DvS3<u8, Z, L>, DvS3<L, Z, u8>, DvS3<u8, Z, u16>, DvS4<Z, u8, Z, L>, DvS4<Z, u8, Z, bool>,
        DvT1<u16>, DvT1<L>, DvT1U<u16>, DvT1U<L>, DvT1Q<u8>, DvT2A<Z, u16>, DvT2A<Z, L>, DvT2B<u8, Z>, DvT2B<L, Z>, DvT3<Z, u8, Z>, DvT3<Z, L, Z>, DvT3N<Z, u8, Z>, DvT3N<Z, L, Z>,
        DvU1<u8>, DvU1<L>, DvU2<L, u8>, DvU3<u8, Vec<bool>, u16>, DvU4<u8, L, Vec<Bytes>>, DvU128<u8, L>,
        DvE1<L>, DvE2<Vec<u16>, L>, DvE2<Vec<bool>, DvC2<L, L>>, DvE3<Vec<bool>, Vec<u32>, Vec<u16>>, DvG1, DvG2, DvG3, DvG128,
        Vec<DvC2<u16, u8>>, Vec<DvC2<u8, L>>, Option<DvU2<u8, L>>, DvC2<DvC2<u8, u16>, DvC2<L, u8>>, DvC3<DvG3, DvU2<u8, L>, DvT1<u16>>, Vec<DvS3<u8, Z, u16>>, (DvE2<Vec<u16>, L>, DvG2) }
    bits::<B0>(t, n); bits::<B1>(t, n); bits::<B7>(t, n); bits::<B8>(t, n); bits::<B9>(t, n); bits::<B64>(t, n); bits::<B1030>(t, n / 4);
    dynamic(t, n);
    helpers(t, n);
    println!("# {} lines, {} accepted, hash {:016x}", t.lines, t.ok, t.hash);
}

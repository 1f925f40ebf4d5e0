//! Offset tables (C09), manual encoder (C10), selectors (C15), limits (C16), legacy options (C17), helpers (C05).
use crate::alloc;
use crate::case::*;
use crate::codecs::{ensure, short};
use crate::model::*;
use smallvec::SmallVec;
use ssz::*;
use std::cell::Cell;
use std::collections::BTreeSet;

/// Variable-size item that records exactly the bytes it was given and counts decode calls.
#[derive(Debug, PartialEq, Clone, PartialOrd, Eq, Ord)]
pub struct Probe(pub Vec<u8>);
thread_local! { static CALLS: Cell<usize> = const { Cell::new(0) }; }
impl Decode for Probe {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
        CALLS.with(|c| c.set(c.get() + 1));
        if b == [0xEE] {
            return Err(DecodeError::BytesInvalid("probe".into()));
        }
        Ok(Probe(b.to_vec()))
    }
}

fn u64_of(b: &[u8]) -> u64 {
    b.iter()
        .take(8)
        .rev()
        .fold(0u64, |a, d| a.wrapping_mul(256).wrapping_add(*d as u64))
}

// descriptors for the builder: one byte each
const VAR_ANON: u8 = 255;
const VAR_TY: u8 = 254;
const HUGE: u8 = 253;
const FIX4: u8 = 252;
const HUGE2: u8 = 251;
const FIX2: u8 = 250;
const VAR_PAR: u8 = 249;
fn desc_len(d: u8) -> Option<usize> {
    match d {
        VAR_ANON | VAR_TY | VAR_PAR => None,
        HUGE => Some(usize::MAX),
        HUGE2 => Some(usize::MAX / 2),
        FIX4 => Some(4),
        FIX2 => Some(2),
        n => Some(n as usize),
    }
}
fn builder(input: &[u8]) -> Result<(), String> {
    let Some((&n, rest)) = input.split_first() else {
        return Ok(());
    };
    let n = (n as usize).min(rest.len());
    let (descs, bytes) = rest.split_at(n);
    let lens: Vec<_> = descs.iter().map(|d| desc_len(*d)).collect();
    let total: u128 = lens.iter().map(|l| l.unwrap_or(4) as u128).sum();
    let want = if total > bytes.len() as u128 {
        None
    } else {
        unpack(&lens, bytes)
    };
    let run = || -> Result<Vec<Vec<u8>>, DecodeError> {
        let mut b = SszDecoderBuilder::new(bytes);
        for d in descs {
            match *d {
                VAR_ANON => b.register_anonymous_variable_length_item()?,
                VAR_TY => b.register_type::<Vec<u16>>()?,
                FIX4 => b.register_type::<u32>()?,
                FIX2 => b.register_type::<u16>()?,
                VAR_PAR => b.register_type_parameterized(false, 4)?,
                _ => b.register_type_parameterized(true, desc_len(*d).unwrap())?,
            }
        }
        let mut dec = b.build()?;
        let mut out = vec![];
        for (i, _) in descs.iter().enumerate() {
            if i % 2 == 0 {
                out.push(dec.decode_next_with(|s| Ok(s.to_vec()))?)
            } else {
                out.push(dec.decode_next::<Vec<u8>>()?)
            }
        }
        Ok(out)
    };
    let got = run();
    match (&got, &want) {
        (Ok(g), Some(w)) => {
            let w: Vec<Vec<u8>> = w.iter().map(|(x, y)| bytes[*x..*y].to_vec()).collect();
            ensure!(
                *g == w,
                "items {:?} over {:02x?}: handed out {:02x?}, expected {:02x?}",
                lens,
                bytes,
                g,
                w
            );
        }
        (Err(e), Some(_)) => {
            return Err(format!(
                "items {:?} over {:02x?}: rejected a valid layout: {e:?}",
                lens, bytes
            ))
        }
        (Ok(g), None) => {
            return Err(format!(
                "items {:?} over {:02x?}: accepted an invalid layout as {:02x?}",
                lens, bytes, g
            ))
        }
        _ => {}
    }
    Ok(())
}
fn builder_input(i: u64, seed: u64) -> Vec<u8> {
    let r = &mut Rng::new(seed ^ i.wrapping_mul(0xA24BAED4963EE407));
    let n = if r.coin(30) {
        8 + r.below(20)
    } else {
        r.below(6)
    };
    let descs: Vec<u8> = (0..n)
        .map(|_| match r.below(12) {
            0..=2 => VAR_ANON,
            3 | 4 => VAR_TY,
            5 => FIX4,
            6 => FIX2,
            7 => VAR_PAR,
            8 => {
                if r.coin(12) {
                    [HUGE, HUGE2][r.below(2)]
                } else {
                    0
                }
            }
            _ => r.below(9) as u8,
        })
        .collect();
    let parts: Vec<_> = descs
        .iter()
        .map(|d| match desc_len(*d) {
            Some(k) => (true, r.bytes(k.min(64))),
            None => {
                let k = if r.coin(3) { 0 } else { r.below(6) };
                (false, r.bytes(k))
            }
        })
        .collect();
    let mut b = pack(&parts);
    for _ in 0..[0, 0, 1, 1, 1, 2, 3][r.below(7)] {
        mutate(&mut b, r);
    }
    let mut out = vec![n as u8];
    out.extend(descs);
    out.extend(b);
    out
}

fn list_layout(b: &[u8]) -> Result<(), String> {
    let want: Option<Vec<Probe>> = unpack_list(None, b).and_then(|v| {
        v.into_iter()
            .map(|(x, y)| {
                if b[x..y] == [0xEE] {
                    None
                } else {
                    Some(Probe(b[x..y].to_vec()))
                }
            })
            .collect()
    });
    let got: Result<Vec<Probe>, _> = decode_list_of_variable_length_items(b, None);
    match (&got, &want) {
        (Ok(g), Some(w)) => ensure!(
            g == w,
            "{:02x?}: items {:02x?}, expected {:02x?}",
            b,
            short(g),
            short(w)
        ),
        (Err(e), Some(w)) => {
            return Err(format!(
                "{:02x?}: rejected valid list of {} items: {e:?}",
                b,
                w.len()
            ))
        }
        (Ok(g), None) => return Err(format!("{:02x?}: accepted invalid list as {}", b, short(g))),
        _ => {}
    }
    Ok(())
}
fn list_input(i: u64, seed: u64) -> Vec<u8> {
    if i < N5 {
        return exhaustive(i);
    }
    let r = &mut Rng::new(seed ^ i.wrapping_mul(0xA24BAED4963EE407));
    let n = r.len(3);
    let parts: Vec<_> = (0..n)
        .map(|_| {
            let k = if r.coin(3) { 0 } else { r.below(5) };
            (false, r.bytes(k))
        })
        .collect();
    let mut b = pack(&parts);
    if r.coin(10) && b.len() > 4 {
        let k = b.len() - 1;
        b[k] = 0xEE;
    }
    for _ in 0..[0, 1, 1, 1, 2, 3][r.below(6)] {
        mutate(&mut b, r);
    }
    b
}

fn offset_word(b: &[u8]) -> Result<(), String> {
    let n = (u64_of(b) & 0xffff_ffff) as usize;
    let le = [
        (n % 256) as u8,
        (n / 256 % 256) as u8,
        (n / 65536 % 256) as u8,
        (n / 16777216) as u8,
    ];
    ensure!(
        encode_length(n) == le,
        "encode_length({n}) = {:02x?}",
        encode_length(n)
    );
    match read_offset(&le) {
        Ok(m) => ensure!(m == n, "read_offset({:02x?}) = {m}, expected {n}", le),
        Err(e) => return Err(format!("read_offset({:02x?}): {e:?}", le)),
    }
    let mut l2 = le.to_vec();
    l2.extend_from_slice(&b[..b.len().min(3)]);
    match read_offset(&l2) {
        Ok(m) => ensure!(m == n, "read_offset({:02x?}) = {m}, expected {n}", l2),
        Err(e) => return Err(format!("read_offset({:02x?}): {e:?}", l2)),
    }
    for k in 0..4 {
        ensure!(
            read_offset(&le[..k]).is_err(),
            "read_offset accepted {} bytes",
            k
        );
    }
    Ok(())
}

struct Raw(Vec<u8>);
impl Encode for Raw {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        buf.extend_from_slice(&self.0)
    }
    fn ssz_bytes_len(&self) -> usize {
        self.0.len()
    }
}

fn manual_encoder(b: &[u8]) -> Result<(), String> {
    let mut r = rng_of(b);
    let np = r.below(30);
    let pre = r.bytes(np);
    let n = if r.coin(20) { 20 } else { r.below(7) };
    let parts: Vec<(bool, Vec<u8>)> = (0..n)
        .map(|_| {
            let f = r.coin(2);
            let k = if r.coin(4) { 0 } else { r.below(9) };
            (f, r.bytes(k))
        })
        .collect();
    let fixed: usize = parts
        .iter()
        .map(|(f, p)| if *f { p.len() } else { 4 })
        .sum();
    let mut buf = pre.clone();
    let want = [&pre[..], &pack(&parts)[..]].concat();
    {
        let mut e = SszEncoder::container(&mut buf, fixed);
        for (i, (f, p)) in parts.iter().enumerate() {
            match (*f, p.len(), i % 3) {
                (true, 2, 0 | 1) => e.append(&[p[0], p[1]]),
                (true, 8, 0 | 1) => e.append(&u64::from_le_bytes(p[..].try_into().unwrap())),
                (false, _, 0) => e.append(&Raw(p.clone())),
                (false, _, 1) => e.append(&&Raw(p.clone())),
                _ => e.append_parameterized(*f, |buf| buf.extend_from_slice(p)),
            }
        }
        let out = e.finalize();
        ensure!(
            *out == want,
            "parts {:02x?} after prefix {:02x?}: finalize returned {:02x?}, expected {:02x?}",
            parts,
            pre,
            out,
            want
        );
    }
    ensure!(
        buf == want,
        "parts {:02x?} after prefix {:02x?}: wrote {:02x?}, expected {:02x?}",
        parts,
        pre,
        buf,
        want
    );
    Ok(())
}

fn selector(b: &[u8]) -> Result<(), String> {
    let got = split_union_bytes(b);
    let want = !b.is_empty() && b[0] <= 127;
    ensure!(
        got.is_ok() == want,
        "split_union_bytes({:02x?}) returned ok={}",
        b,
        got.is_ok()
    );
    if let Ok((s, body)) = got {
        ensure!(
            u8::from(s) == b[0] && s == b[0] && body == &b[1..],
            "split_union_bytes({:02x?}) = ({}, {:02x?})",
            b,
            u8::from(s),
            body
        );
        ensure!(
            s != b[0].wrapping_add(1),
            "selector equals a different byte"
        );
    }
    if let Some(x) = b.first() {
        let u = UnionSelector::new(*x);
        ensure!(
            u.is_ok() == (*x <= 127),
            "UnionSelector::new({x}) returned ok={}",
            u.is_ok()
        );
        if let Ok(u) = u {
            ensure!(
                u8::from(u) == *x,
                "UnionSelector::new({x}) holds {}",
                u8::from(u)
            );
        }
    }
    Ok(())
}

// ---- C16 ----
thread_local! { static REFUSE_AT: Cell<usize> = const { Cell::new(0) }; }
/// Takes items until REFUSE_AT, then refuses.
#[derive(Debug, PartialEq)]
struct Bounded(Vec<Probe>);
impl TryFromIter<Probe> for Bounded {
    type Error = String;
    fn try_from_iter<I: IntoIterator<Item = Probe>>(it: I) -> Result<Self, String> {
        let k = REFUSE_AT.with(|c| c.get());
        let mut v = vec![];
        for x in it {
            if v.len() == k {
                return Err(format!("more than {k}"));
            }
            v.push(x);
        }
        Ok(Bounded(v))
    }
}
/// Refuses everything without looking at the items.
#[derive(Debug, PartialEq)]
struct Refuse;
impl TryFromIter<Probe> for Refuse {
    type Error = ();
    fn try_from_iter<I: IntoIterator<Item = Probe>>(_: I) -> Result<Self, ()> {
        Err(())
    }
}
/// Drains everything, then refuses unless the count is even.
#[derive(Debug, PartialEq)]
struct Even(usize);
impl TryFromIter<Probe> for Even {
    type Error = usize;
    fn try_from_iter<I: IntoIterator<Item = Probe>>(it: I) -> Result<Self, usize> {
        let n = it.into_iter().count();
        if n % 2 == 0 {
            Ok(Even(n))
        } else {
            Err(n)
        }
    }
}

fn limits(input: &[u8]) -> Result<(), String> {
    if input.len() < 2 {
        return Ok(());
    }
    let (sel, at) = (input[0], input[1] as usize);
    let b = &input[2..];
    let announced = if b.len() >= 4 { word(b) / 4 } else { 0 };
    let max = match sel % 8 {
        0 => 0,
        1 => 1,
        2 => announced,
        3 => announced.saturating_sub(1),
        4 => announced + 1,
        5 => usize::MAX,
        6 => announced / 2,
        _ => at,
    };
    let layout = unpack_list(None, b);
    let items: Option<Vec<Probe>> = layout.as_ref().and_then(|v| {
        v.iter()
            .map(|(x, y)| {
                if b[*x..*y] == [0xEE] {
                    None
                } else {
                    Some(Probe(b[*x..*y].to_vec()))
                }
            })
            .collect()
    });
    let unl: Result<Vec<Probe>, _> = decode_list_of_variable_length_items(b, None);
    CALLS.with(|c| c.set(0));
    let (lim, p): (Result<Vec<Probe>, _>, usize) =
        alloc::peak(|| decode_list_of_variable_length_items(b, Some(max)));
    let calls = CALLS.with(|c| c.get());
    let exceeds = !b.is_empty() && b.len() >= 4 && announced > max;
    if exceeds {
        ensure!(
            lim.is_err(),
            "{:02x?}: announces {announced} items, limit {max}, decoded {}",
            b,
            short(&lim)
        );
        ensure!(
            calls == 0,
            "{:02x?}: announces {announced} items, limit {max}: {calls} items were decoded before failing",
            b
        );
        ensure!(
            p <= 4096,
            "{:02x?}: announces {announced} items, limit {max}: {p} heap bytes held before failing",
            short(b)
        );
    } else {
        ensure!(
            lim == unl,
            "{:02x?} with limit {max}: {} but unlimited {}",
            short(b),
            short(&lim),
            short(&unl)
        );
    }
    if exceeds {
        let r: Result<Bounded, _> = decode_list_of_variable_length_items(b, Some(max));
        ensure!(r.is_err(), "limit ignored by a fallible collection");
        let r: Result<SmallVec<[Probe; 2]>, _> = decode_list_of_variable_length_items(b, Some(max));
        ensure!(r.is_err(), "limit ignored for SmallVec");
        return Ok(());
    }
    ensure!(
        unl.as_ref().ok() == items.as_ref(),
        "{:02x?}: decoded {}, expected {}",
        short(b),
        short(&unl),
        short(&items)
    );
    if b.is_empty() {
        ensure!(
            lim.as_ref().is_ok_and(|v| v.is_empty()),
            "empty input gives {}",
            short(&lim)
        );
    }
    REFUSE_AT.with(|c| c.set(at));
    let r: Result<Bounded, _> = decode_list_of_variable_length_items(b, Some(max));
    match (&r, &items) {
        (Ok(Bounded(v)), Some(w)) => ensure!(
            v == w && w.len() <= at,
            "{:02x?}: collection bounded by {at} holds {} of {} items",
            short(b),
            v.len(),
            w.len()
        ),
        (Ok(_), None) => {
            return Err(format!(
                "{:02x?}: malformed list accepted by a bounded collection",
                short(b)
            ))
        }
        (Err(e), Some(w)) => ensure!(
            w.len() > at,
            "{:02x?}: {} items refused by a collection of {at}: {e:?}",
            short(b),
            w.len()
        ),
        _ => {}
    }
    let r: Result<Refuse, _> = decode_list_of_variable_length_items(b, Some(max));
    ensure!(
        r.is_err(),
        "{:02x?}: a refusing collection was returned",
        short(b)
    );
    let r: Result<Even, _> = decode_list_of_variable_length_items(b, None);
    match (&r, &items) {
        (Ok(Even(n)), Some(w)) => ensure!(
            *n == w.len() && n % 2 == 0,
            "{:02x?}: counted {n} of {} items",
            short(b),
            w.len()
        ),
        (Ok(_), None) => {
            return Err(format!(
                "{:02x?}: malformed list accepted by a counting collection",
                short(b)
            ))
        }
        (Err(_), Some(w)) => ensure!(w.len() % 2 == 1, "{:02x?}: even list refused", short(b)),
        _ => {}
    }
    let r: Result<SmallVec<[Probe; 2]>, _> = decode_list_of_variable_length_items(b, Some(max));
    ensure!(
        r.as_ref().ok().map(|v| v.to_vec()) == items,
        "{:02x?}: SmallVec holds {}",
        short(b),
        short(&r)
    );
    let r: Result<BTreeSet<Probe>, _> = decode_list_of_variable_length_items(b, Some(max));
    ensure!(
        r.ok() == items.map(|v| v.into_iter().collect()),
        "{:02x?}: BTreeSet differs",
        short(b)
    );
    Ok(())
}
fn limits_input(i: u64, seed: u64) -> Vec<u8> {
    let r = &mut Rng::new(seed ^ i.wrapping_mul(0xA24BAED4963EE407));
    let mut out = vec![r.below(8) as u8, r.below(10) as u8];
    if r.coin(8) {
        // announces a large, well-formed table of empty items
        let n = [100usize, 1000, 5000, 15000][r.below(4)];
        for _ in 0..n {
            out.extend_from_slice(&((4 * n) as u32).to_le_bytes());
        }
        let k = r.below(3);
        out.extend(r.bytes(k));
    } else {
        out.extend(list_input(N5 + r.next() % (1 << 40), seed));
    }
    out
}

// ---- C17 ----
mod leg {
    use crate::derived::Inner;
    ssz::four_byte_option_impl!(u8_, u8);
    ssz::four_byte_option_impl!(u16_, u16);
    ssz::four_byte_option_impl!(bool_, bool);
    ssz::four_byte_option_impl!(vec_, Vec<u8>);
    ssz::four_byte_option_impl!(vecvec_, Vec<Vec<u16>>);
    ssz::four_byte_option_impl!(inner_, Inner);
    ssz::four_byte_option_impl!(opt_, Option<u8>);
    ssz::four_byte_option_impl!(zero_, [u8; 0]);
    type P = (u8, Vec<u8>);
    ssz::four_byte_option_impl!(pair_, P);
    macro_rules! go {
        ($($m:ident $t:ty),*) => { pub fn all() -> Vec<super::Leg> { vec![$(super::Leg {
            name: stringify!($m),
            item: <$t as crate::types::Ty>::schema(),
            enc: |v| { let x = <Option<$t> as crate::types::Ty>::from_val(v);
                let buf = [3usize, 0, 65, 301].iter().map(|n| { let mut buf = vec![7; *n]; $m::encode::ssz_append(&x, &mut buf); buf }).collect();
                ($m::encode::as_ssz_bytes(&x), buf, $m::encode::ssz_bytes_len(&x)) },
            dec: |b| $m::decode::from_ssz_bytes(b).map(|x| { let r = $m::encode::as_ssz_bytes(&x); (crate::types::Ty::to_val(&x), r) }).map_err(|e| format!("{e:?}")),
            meta: || [$m::encode::is_ssz_fixed_len() as usize, $m::encode::ssz_fixed_len(), $m::decode::is_ssz_fixed_len() as usize, $m::decode::ssz_fixed_len()],
        }),*] } };
    }
    go!(u8_ u8, u16_ u16, bool_ bool, vec_ Vec<u8>, vecvec_ Vec<Vec<u16>>, inner_ Inner, opt_ Option<u8>, zero_ [u8; 0], pair_ P);
}
pub struct Leg {
    name: &'static str,
    item: Schema,
    enc: fn(&Val) -> (Vec<u8>, Vec<Vec<u8>>, usize),
    dec: fn(&[u8]) -> Result<(Val, Vec<u8>), String>,
    meta: fn() -> [usize; 4],
}
fn legacy_value(l: &Leg, s: &Schema, b: &[u8]) -> Result<(), String> {
    let v = gen(s, &mut rng_of(b), 3);
    let want = ser(s, &v);
    let (a, buf, n) = (l.enc)(&v);
    ensure!(
        a == want,
        "legacy {} {}: as_ssz_bytes {:02x?}, expected {:02x?}",
        l.name,
        short(&v),
        a,
        want
    );
    for (buf, pre) in buf.iter().zip([3usize, 0, 65, 301]) {
        ensure!(
            buf.len() >= pre && buf[..pre].iter().all(|x| *x == 7) && buf[pre..] == want[..],
            "legacy {} {}: ssz_append to {pre} bytes made {:02x?}",
            l.name,
            short(&v),
            buf
        );
    }
    ensure!(
        n == want.len(),
        "legacy {} {}: ssz_bytes_len {n}, encoded {}",
        l.name,
        short(&v),
        want.len()
    );
    ensure!(
        (l.meta)() == [0, 4, 0, 4],
        "legacy {} metadata {:?}",
        l.name,
        (l.meta)()
    );
    match (l.dec)(&want) {
        Ok((w, _)) => ensure!(
            w == v,
            "legacy {} {}: decodes to {}",
            l.name,
            short(&v),
            short(&w)
        ),
        Err(e) => {
            return Err(format!(
                "legacy {} {}: own encoding rejected: {e}",
                l.name,
                short(&v)
            ))
        }
    }
    Ok(())
}
fn legacy_bytes(l: &Leg, s: &Schema, b: &[u8]) -> Result<(), String> {
    match ((l.dec)(b), de(s, b)) {
        (Ok((v, re)), Some(w)) => ensure!(
            v == w && re == b,
            "legacy {} {:02x?}: decoded {}, expected {}; re-encoded {:02x?}",
            l.name,
            b,
            short(&v),
            short(&w),
            re
        ),
        (Ok((v, _)), None) => {
            return Err(format!(
                "legacy {}: accepted invalid {:02x?} as {}",
                l.name,
                b,
                short(&v)
            ))
        }
        (Err(e), Some(w)) => {
            return Err(format!(
                "legacy {}: rejected valid {:02x?} ({}): {e}",
                l.name,
                b,
                short(&w)
            ))
        }
        _ => {}
    }
    Ok(())
}

pub fn cases() -> Vec<Case> {
    let mut out = vec![];
    let mut add = |prop: &'static str,
                   name: &str,
                   fixed: u64,
                   random: u64,
                   input: fn(u64, u64) -> Vec<u8>,
                   run: fn(&[u8]) -> Result<(), String>| {
        out.push(Case {
            prop,
            name: format!("{prop}/{name}"),
            fixed,
            random,
            input: Box::new(input),
            run: Box::new(run),
        });
    };
    for p in ["C09", "C05", "C04"] {
        if p != "C04" {
            add(p, "builder", 0, 400_000, builder_input, builder);
        }
        add(p, "list", N5, 200_000, list_input, list_layout);
    }
    let word_in = |i: u64, s: u64| {
        let v = if i < 70000 {
            i
        } else if i < 70064 {
            (1u64 << (i - 70000)).wrapping_sub(1)
        } else {
            Rng::new(s ^ i).next()
        };
        v.to_le_bytes().to_vec()
    };
    add("C09", "offset-word", 70064, 200_000, word_in, offset_word);
    add("C03", "offset-word", 70064, 100_000, word_in, offset_word);
    add(
        "C05",
        "read_offset",
        N5,
        0,
        |i, _| exhaustive(i),
        |b| {
            let _ = read_offset(b);
            let _ = split_union_bytes(b);
            Ok(())
        },
    );
    let sd = |i: u64, s: u64| seed_bytes(s, i);
    add("C10", "SszEncoder", 0, 200_000, sd, manual_encoder);
    add("C03", "SszEncoder", 0, 50_000, sd, manual_encoder);
    add(
        "C15",
        "split_union_bytes",
        N5,
        2000,
        |i, s| {
            if i < N5 {
                exhaustive(i)
            } else {
                let r = &mut Rng::new(s ^ i);
                let n = r.below(30);
                r.bytes(n)
            }
        },
        selector,
    );
    add("C16", "limits", 0, 150_000, limits_input, limits);
    add(
        "C16",
        "limits-exhaustive",
        N5 * 8,
        0,
        |i, _| {
            let mut v = vec![(i % 8) as u8, (i % 3) as u8];
            v.extend(exhaustive(i / 8));
            v
        },
        limits,
    );
    add("C05", "limits", 0, 60_000, limits_input, limits);
    add("C06", "limits", 0, 60_000, limits_input, limits);
    for l in leg::all() {
        let s = Schema::Legacy(Box::new(l.item.clone()));
        let l = std::sync::Arc::new(l);
        for p in ["C17", "C05"] {
            let (l2, s2, s3) = (l.clone(), s.clone(), s.clone());
            out.push(Case {
                prop: p,
                name: format!("{p}/legacy-bytes/{}", l.name),
                fixed: N5,
                random: 30_000,
                input: Box::new(move |i, sd| {
                    if i < N5 {
                        exhaustive(i)
                    } else {
                        gen_bytes(&s2, &mut Rng::new(sd ^ i.wrapping_mul(0xA24BAED4963EE407)))
                    }
                }),
                run: Box::new(move |b| legacy_bytes(&l2, &s3, b)),
            });
        }
        let (l2, s2) = (l.clone(), s.clone());
        out.push(Case {
            prop: "C17",
            name: format!("C17/legacy-value/{}", l.name),
            fixed: 0,
            random: 10_000,
            input: Box::new(move |i, sd| seed_bytes(sd, i)),
            run: Box::new(move |b| legacy_value(&l2, &s2, b)),
        });
    }
    out
}

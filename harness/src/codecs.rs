//! Checks that apply to every codec in the registries.
use crate::alloc;
use crate::case::*;
use crate::model::*;
use crate::types::Codec;
use std::sync::Arc;

type Chk = fn(&Codec, &[u8]) -> Result<(), String>;

macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
pub(crate) use ensure;

pub fn short<T: std::fmt::Debug>(x: T) -> String {
    let s = format!("{x:?}");
    if s.len() > 600 {
        format!("{}...", &s.chars().take(600).collect::<String>())
    } else {
        s
    }
}

fn value(c: &Codec, b: &[u8]) -> Val {
    let mut r = rng_of(b);
    r.1 = r.coin(300);
    gen(&c.schema, &mut r, 3)
}

// ---- value checks: input is a generator seed ----
fn c01(c: &Codec, b: &[u8]) -> Result<(), String> {
    let v = value(c, b);
    let bytes = (c.as_bytes)(&v);
    match (c.decode)(&bytes) {
        Ok((w, _, _)) => ensure!(
            w == v,
            "value {} encodes to {:02x?} which decodes to {}",
            short(&v),
            bytes,
            short(&w)
        ),
        Err(e) => {
            return Err(format!(
                "value {} encodes to {:02x?} which fails to decode: {e}",
                short(&v),
                bytes
            ))
        }
    }
    if !c.name.contains("Skip") && !c.name.contains("Tr") {
        match (c.round)(&v) {
            Ok(t) => ensure!(t, "value {} does not equal its decoded encoding", short(&v)),
            Err(e) => {
                return Err(format!(
                    "value {}: decode of own encoding fails: {e}",
                    short(&v)
                ))
            }
        }
    }
    Ok(())
}
fn c03(c: &Codec, b: &[u8]) -> Result<(), String> {
    let v = value(c, b);
    let (got, want) = ((c.as_bytes)(&v), ser(&c.schema, &v));
    ensure!(
        got == want,
        "value {}: encoded {:02x?}, SSZ says {:02x?}",
        short(&v),
        got,
        want
    );
    Ok(())
}
fn c07v(c: &Codec, b: &[u8]) -> Result<(), String> {
    let v = value(c, b);
    let n = (c.as_bytes)(&v).len();
    let s = (c.size)(&v);
    ensure!(
        s == [n; 3],
        "value {}: {} bytes encoded but ssz_bytes_len (T, &T, Arc<T>) = {:?}",
        short(&v),
        n,
        s
    );
    let m = (c.meta)();
    ensure!(
        m[0] == m[2] && m[1] == m[3],
        "encoder/decoder metadata differ: {m:?}"
    );
    let f = fixed_len(&c.schema);
    ensure!(
        m[0] == f.is_some() as usize,
        "is_ssz_fixed_len = {} but the schema says {:?}",
        m[0],
        f
    );
    ensure!(
        m[1] == f.unwrap_or(4),
        "ssz_fixed_len = {} but the schema says {:?}",
        m[1],
        f.unwrap_or(4)
    );
    if m[0] == 1 {
        ensure!(
            n == m[1],
            "value {}: fixed length {} but encoded in {} bytes",
            short(&v),
            m[1],
            n
        );
    }
    Ok(())
}
fn c10(c: &Codec, b: &[u8]) -> Result<(), String> {
    let v = value(c, b);
    let want = (c.as_bytes)(&v);
    for (n, got) in (c.entries)(&v) {
        ensure!(
            got == want,
            "value {}: {n} gives {:02x?}, as_ssz_bytes gives {:02x?}",
            short(&v),
            got,
            want
        );
    }
    let mut r = rng_of(b);
    r.next();
    for k in 0..4 {
        let n = if k == 0 {
            r.below(40)
        } else {
            let most = [10, 300, 140, 70, 1500][r.below(5)];
            r.below(most)
        };
        let spare = [0, 0, 1, 7, want.len(), want.len() + 9][r.below(6)];
        let pre = r.bytes(n);
        for (got, by) in (c.append)(&v, &pre, spare)
            .iter()
            .zip(["the value", "&T", "Arc<T>"])
        {
            ensure!(
                got.starts_with(&pre),
                "value {}: ssz_append by {by} changed the {n} bytes already in the buffer",
                short(&v)
            );
            ensure!(
                got[n..] == want[..],
                "value {}: {by} appended {:02x?} to a {n}-byte buffer, standalone {:02x?}",
                short(&v),
                &got[n..],
                want
            );
        }
    }
    Ok(())
}
fn c15v(c: &Codec, b: &[u8]) -> Result<(), String> {
    let v = value(c, b);
    let got = (c.as_bytes)(&v);
    let Val::Var(i, p) = &v else { panic!() };
    let Schema::Union(vs) = &c.schema else {
        panic!()
    };
    let mut want = vec![*i as u8];
    if let (Some(t), Some(p)) = (&vs[*i], p) {
        want.extend(ser(t, p));
    }
    ensure!(
        got == want,
        "variant {i} of value {}: encoded {:02x?}, expected {:02x?}",
        short(&v),
        got,
        want
    );
    Ok(())
}
fn c19v(c: &Codec, b: &[u8]) -> Result<(), String> {
    c03(c, b)?;
    c01(c, b)
}

// ---- byte checks: input is the byte string ----
fn c02(c: &Codec, b: &[u8]) -> Result<(), String> {
    if let Ok((v, re, _)) = (c.decode)(b) {
        ensure!(
            re == b,
            "accepted {:02x?} as {} which encodes to {:02x?}",
            b,
            short(&v),
            re
        );
    }
    Ok(())
}
fn c04(c: &Codec, b: &[u8]) -> Result<(), String> {
    let want = de(&c.schema, b);
    let got = (c.decode)(b);
    match (&got, &want) {
        (Ok((v, _, sk)), Some(w)) => {
            ensure!(
                v == w,
                "{:02x?} decoded to {}, SSZ says {}",
                b,
                short(v),
                short(w)
            );
            ensure!(*sk, "{:02x?}: skipped fields are not their default", b);
        }
        (Ok((v, _, _)), None) => {
            return Err(format!("accepted invalid {:02x?} as {}", b, short(v)))
        }
        (Err(e), Some(w)) => {
            if !lenient_map(&c.schema) {
                return Err(format!(
                    "rejected valid {:02x?} (value {}): {e}",
                    b,
                    short(w)
                ));
            }
        }
        (Err(_), None) => (),
    }
    let a = (c.decode_arc)(b);
    ensure!(
        a == got.as_ref().ok().map(|x| x.0.clone()),
        "{:02x?}: Arc<T> decodes to {}, T to {}",
        b,
        short(a),
        short(got)
    );
    Ok(())
}
fn lenient_map(s: &Schema) -> bool {
    use Schema::*;
    match s {
        Map(..) | Set(..) => true,
        List(t) | Legacy(t) => lenient_map(t),
        Container(fs) | Transparent(fs) => fs.iter().any(lenient_map),
        Union(vs) => vs.iter().flatten().any(lenient_map),
        _ => false,
    }
}
fn exact(c: &Codec, b: &[u8]) -> Result<(), String> {
    let want = de(&c.schema, b);
    let got = (c.decode)(b);
    match (&got, &want) {
        (Ok((v, _, sk)), Some(w)) => {
            ensure!(
                v == w,
                "{:02x?} decoded to {}, schema says {}",
                b,
                short(v),
                short(w)
            );
            ensure!(*sk, "{:02x?}: skipped fields are not their default", b);
        }
        (Ok((v, _, _)), None) => {
            return Err(format!("accepted invalid {:02x?} as {}", b, short(v)))
        }
        (Err(e), Some(w)) => {
            return Err(format!(
                "rejected valid {:02x?} (value {}): {e}",
                b,
                short(w)
            ))
        }
        (Err(_), None) => (),
    }
    Ok(())
}
fn c05(c: &Codec, b: &[u8]) -> Result<(), String> {
    (c.decode_only)(b);
    Ok(())
}
fn c06(c: &Codec, b: &[u8]) -> Result<(), String> {
    let (_, p) = alloc::peak(|| (c.decode_only)(b));
    let bound = 8192 + 4 * c.mem * b.len();
    ensure!(
        p <= bound,
        "decoding {} bytes {} held {p} heap bytes (bound {bound})",
        b.len(),
        short(&b[..b.len().min(40)])
    );
    Ok(())
}
fn c07b(c: &Codec, b: &[u8]) -> Result<(), String> {
    let m = (c.meta)();
    if m[2] == 1 && (c.decode_only)(b) {
        ensure!(
            b.len() == m[3],
            "fixed length {} but accepted {:02x?}",
            m[3],
            b
        );
    }
    Ok(())
}
fn c19b(c: &Codec, b: &[u8]) -> Result<(), String> {
    exact(c, b)?;
    if let Ok((v, re, _)) = (c.decode)(b) {
        match (c.decode)(&re) {
            Ok((w, re2, _)) => ensure!(
                w == v && re2 == re,
                "re-encoding of {:02x?} is not a fixed point: {:02x?} then {:02x?}",
                b,
                re,
                re2
            ),
            Err(e) => {
                return Err(format!(
                    "re-encoding {:02x?} of {:02x?} fails to decode: {e}",
                    re, b
                ))
            }
        }
    }
    Ok(())
}
fn c08v(c: &Codec, b: &[u8]) -> Result<(), String> {
    c03(c, b)?;
    c07v(c, b)?;
    c10(c, b)
}
fn c15b(c: &Codec, b: &[u8]) -> Result<(), String> {
    exact(c, b)
}

/// Big inputs that stress memory: long offset tables, many items.
fn big_input(i: u64, seed: u64) -> Vec<u8> {
    let mut r = Rng::new(seed ^ (i << 20));
    let n = [64usize, 1000, 4096, 16384][r.below(4)];
    let mut b = vec![0u8; n];
    match r.below(9) {
        0 => {}
        1 => b.iter_mut().for_each(|x| *x = 255),
        2 => b.iter_mut().for_each(|x| *x = r.next() as u8),
        k => {
            // offset table covering the whole input (or part of it), optional prefix
            let pre = [0usize, 1, 4, 1, 0, 0][k - 3];
            let items = match k {
                3 | 4 => (n - pre) / 4,
                5 => (n - pre) / 8,
                _ => 1 + r.below(n / 4 - 2),
            };
            let first = items * 4;
            for j in 0..items {
                let o = first
                    + if k == 7 {
                        (j * (n - pre - first)) / items.max(1)
                    } else {
                        0
                    };
                b[pre + 4 * j..pre + 4 * j + 4].copy_from_slice(&(o as u32).to_le_bytes());
            }
            if pre > 0 {
                b[0] = r.below(3) as u8;
            }
            if k == 8 && pre == 0 {
                // announce far more than present
                let w = [0xffff_fffcu32, 0x4000_0000, 0x0100_0000, n as u32 + 4][r.below(4)];
                b[0..4].copy_from_slice(&w.to_le_bytes());
            }
        }
    }
    b
}

pub fn cases(lib: &[Arc<Codec>], derived: &[Arc<Codec>]) -> Vec<Case> {
    let mut out = vec![];
    let mut val = |p: &'static str, c: &Arc<Codec>, f: Chk, n: u64| {
        let c = c.clone();
        let name = format!("{p}/value/{}", c.name);
        out.push(Case {
            prop: p,
            name,
            fixed: 0,
            random: n,
            input: Box::new(move |i, seed| seed_bytes(seed, i)),
            run: Box::new(move |b| f(&c, b)),
        });
    };
    let all: Vec<_> = lib.iter().chain(derived).cloned().collect();
    for c in &all {
        if !has_transparent(&c.schema) && !has_zero_items(&c.schema) {
            val("C01", c, c01, 1500);
        }
        val("C03", c, c03, 1500);
        val("C07", c, c07v, 1200);
        val("C10", c, c10, 800);
        if matches!(c.schema, Schema::Union(_)) {
            val("C15", c, c15v, 4000);
        }
        if matches!(c.schema, Schema::Map(..) | Schema::Set(_)) && !has_zero_items(&c.schema) {
            val("C19", c, c19v, 6000);
        }
        if c.name.contains("WithLeg") || c.name == "TrWithT" {
            val(
                "C17",
                c,
                |c, b| {
                    c03(c, b)?;
                    c07v(c, b)?;
                    c01(c, b)
                },
                3000,
            );
        }
    }
    for c in derived {
        val("C08", c, c08v, 2000);
    }
    let mut byt = |p: &'static str, c: &Arc<Codec>, f: Chk, fixed: u64, n: u64| {
        let name = format!("{p}/bytes/{}", c.name);
        let c2 = c.clone();
        let c = c.clone();
        out.push(Case {
            prop: p,
            name,
            fixed,
            random: n,
            input: Box::new(move |i, seed| {
                if i < fixed {
                    exhaustive(i)
                } else {
                    gen_bytes(
                        &c2.schema,
                        &mut Rng::new(seed ^ i.wrapping_mul(0xA24BAED4963EE407)),
                    )
                }
            }),
            run: Box::new(move |b| f(&c, b)),
        });
    };
    for c in &all {
        if !lenient(&c.schema) {
            byt("C02", c, c02, N5, 6000);
        }
        byt("C04", c, c04, N5, 6000);
        byt("C05", c, c05, N5, 6000);
        byt("C06", c, c06, 257, 3000);
        byt("C07", c, c07b, N2, 1500);
        if matches!(c.schema, Schema::Union(_)) {
            byt("C15", c, c15b, N5, 8000);
        }
        if matches!(c.schema, Schema::Map(..) | Schema::Set(_)) {
            byt("C19", c, c19b, N5, 20000);
        }
        if c.name.contains("WithLeg") || c.name == "TrWithT" {
            byt(
                "C17",
                c,
                |c, b| {
                    exact(c, b)?;
                    c02(c, b)
                },
                N5,
                20000,
            );
        }
        if matches!(c.schema, Schema::Container(_)) {
            byt("C09", c, exact_if_strict, 257, 4000);
        }
        if let Schema::List(t) = &c.schema {
            if fixed_len(t).is_none() {
                byt("C09", c, exact_if_strict, N5, 6000);
            }
        }
    }
    for c in derived {
        byt("C08", c, exact, N5, 8000);
    }
    for c in &all {
        let c = c.clone();
        let c2 = c.clone();
        out.push(Case {
            prop: "C06",
            name: format!("C06/big/{}", c.name),
            fixed: 0,
            random: 60,
            input: Box::new(big_input),
            run: Box::new(move |b| c06(&c, b)),
        });
        out.push(Case {
            prop: "C05",
            name: format!("C05/big/{}", c2.name),
            fixed: 0,
            random: 20,
            input: Box::new(big_input),
            run: Box::new(move |b| c05(&c2, b)),
        });
    }
    out
}
/// Layout errors are errors, valid layouts are accepted (for containers of strictly decoded parts).
fn exact_if_strict(c: &Codec, b: &[u8]) -> Result<(), String> {
    c04(c, b)
}

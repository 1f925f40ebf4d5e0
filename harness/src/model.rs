//! Independent reference model of SSZ: schemas, values, strict serializer and deserializer.
//! Written from the SSZ specification; shares no code with the crate under test.
use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq)]
pub enum Schema {
    Bool,
    /// Unsigned integer of the given byte width.
    Uint(usize),
    /// uint64 that is never zero.
    NonZero,
    /// Vector[byte, N]
    Bytes(usize),
    /// List[byte]
    ByteList,
    List(Box<Schema>),
    Container(Vec<Schema>),
    /// Union; a `None` entry is the empty ("null") variant.
    Union(Vec<Option<Schema>>),
    /// uint8 restricted to 0..n
    Tag(usize),
    Bitvector(usize),
    Bitlist(usize),
    /// Bitvector whose size is a positive multiple of 8 taken from the input.
    BitDyn,
    /// Four-byte selector option.
    Legacy(Box<Schema>),
    /// Ordered map/set, leniently decoded.
    Map(Box<Schema>, Box<Schema>),
    Set(Box<Schema>),
    /// First variant that accepts.
    Transparent(Vec<Schema>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Bool(bool),
    /// little-endian base-256 digits
    Uint(Vec<u8>),
    Bytes(Vec<u8>),
    Bits(Vec<bool>),
    Seq(Vec<Val>),
    /// (variant index, payload)
    Var(usize, Option<Box<Val>>),
}

impl Val {
    pub fn seq(&self) -> &[Val] {
        match self {
            Val::Seq(v) => v,
            _ => panic!("model: not a sequence: {self:?}"),
        }
    }
    pub fn bytes(&self) -> &[u8] {
        match self {
            Val::Bytes(v) | Val::Uint(v) => v,
            _ => panic!("model: not bytes"),
        }
    }
    pub fn bits(&self) -> &[bool] {
        match self {
            Val::Bits(v) => v,
            _ => panic!("model: not bits"),
        }
    }
    pub fn u128(&self) -> u128 {
        let mut r = 0u128;
        for d in self.bytes().iter().rev() {
            r = r * 256 + *d as u128;
        }
        r
    }
    pub fn uint(mut x: u128, width: usize) -> Val {
        let mut out = vec![];
        for _ in 0..width {
            out.push((x % 256) as u8);
            x /= 256;
        }
        Val::Uint(out)
    }
    pub fn cmp(&self, o: &Val) -> Ordering {
        match (self, o) {
            (Val::Bool(a), Val::Bool(b)) => a.cmp(b),
            (Val::Uint(a), Val::Uint(b)) => {
                for i in (0..a.len()).rev() {
                    if a[i] != b[i] {
                        return a[i].cmp(&b[i]);
                    }
                }
                Ordering::Equal
            }
            (Val::Bytes(a), Val::Bytes(b)) => a.cmp(b),
            (Val::Seq(a), Val::Seq(b)) => {
                for (x, y) in a.iter().zip(b) {
                    let c = x.cmp(y);
                    if c != Ordering::Equal {
                        return c;
                    }
                }
                a.len().cmp(&b.len())
            }
            (Val::Var(a, p), Val::Var(b, q)) => a.cmp(b).then_with(|| match (p, q) {
                (Some(x), Some(y)) => x.cmp(y),
                _ => Ordering::Equal,
            }),
            _ => panic!("model: incomparable"),
        }
    }
}

pub fn fixed_len(s: &Schema) -> Option<usize> {
    use Schema::*;
    match s {
        Bool | Tag(_) => Some(1),
        Uint(n) | Bytes(n) => Some(*n),
        NonZero => Some(8),
        Bitvector(n) => Some(std::cmp::max(1, (n + 7) / 8)),
        Container(fs) => {
            let mut t = 0;
            for f in fs {
                t += fixed_len(f)?;
            }
            Some(t)
        }
        _ => None,
    }
}

fn le4(n: usize) -> [u8; 4] {
    [
        (n % 256) as u8,
        (n / 256 % 256) as u8,
        (n / 65536 % 256) as u8,
        (n / 16777216 % 256) as u8,
    ]
}

pub fn word(b: &[u8]) -> usize {
    b[0] as usize + 256 * b[1] as usize + 65536 * b[2] as usize + 16777216 * b[3] as usize
}

/// fixed parts / offsets, then variable parts
pub fn pack(parts: &[(bool, Vec<u8>)]) -> Vec<u8> {
    let head: usize = parts
        .iter()
        .map(|(f, b)| if *f { b.len() } else { 4 })
        .sum();
    let mut fixed = vec![];
    let mut var = vec![];
    for (f, b) in parts {
        if *f {
            fixed.extend_from_slice(b);
        } else {
            fixed.extend_from_slice(&le4(head + var.len()));
            var.extend_from_slice(b);
        }
    }
    fixed.extend(var);
    fixed
}

/// Strict inverse of `pack`: `lens[i] = Some(n)` for a fixed part of n bytes. Returns (start, end).
pub fn unpack(lens: &[Option<usize>], b: &[u8]) -> Option<Vec<(usize, usize)>> {
    let head: usize = lens.iter().map(|l| l.unwrap_or(4)).sum();
    if b.len() < head {
        return None;
    }
    let mut pos = 0;
    let mut offs = vec![];
    let mut out = vec![(0, 0); lens.len()];
    for (i, l) in lens.iter().enumerate() {
        match l {
            Some(n) => {
                out[i] = (pos, pos + n);
                pos += n;
            }
            None => {
                offs.push((i, word(&b[pos..])));
                pos += 4;
            }
        }
    }
    if offs.is_empty() {
        return if b.len() == head { Some(out) } else { None };
    }
    if offs[0].1 != head {
        return None;
    }
    for k in 0..offs.len() {
        let end = if k + 1 < offs.len() {
            offs[k + 1].1
        } else {
            b.len()
        };
        if offs[k].1 > end || end > b.len() {
            return None;
        }
        out[offs[k].0] = (offs[k].1, end);
    }
    Some(out)
}

pub fn unpack_list(item: Option<usize>, b: &[u8]) -> Option<Vec<(usize, usize)>> {
    if b.is_empty() {
        return Some(vec![]);
    }
    match item {
        Some(0) => None,
        Some(n) => {
            if b.len() % n != 0 {
                return None;
            }
            Some((0..b.len() / n).map(|i| (i * n, i * n + n)).collect())
        }
        None => {
            if b.len() < 4 {
                return None;
            }
            let first = word(b);
            if first == 0 || first % 4 != 0 || first > b.len() {
                return None;
            }
            unpack(&vec![None; first / 4], b)
        }
    }
}

pub fn bits_to_bytes(bits: &[bool]) -> Vec<u8> {
    let mut out = vec![0u8; std::cmp::max(1, (bits.len() + 7) / 8)];
    for (i, b) in bits.iter().enumerate() {
        if *b {
            out[i / 8] |= [1, 2, 4, 8, 16, 32, 64, 128][i % 8];
        }
    }
    out
}

pub fn bytes_to_bits(b: &[u8]) -> Vec<bool> {
    let mut v = vec![];
    for x in b {
        let mut x = *x;
        for _ in 0..8 {
            v.push(x % 2 == 1);
            x /= 2;
        }
    }
    v
}

pub fn ser(s: &Schema, v: &Val) -> Vec<u8> {
    use Schema::*;
    match s {
        Bool => vec![if *v == Val::Bool(true) { 1 } else { 0 }],
        Uint(n) => {
            assert_eq!(v.bytes().len(), *n);
            v.bytes().to_vec()
        }
        NonZero => v.bytes().to_vec(),
        Bytes(n) => {
            assert_eq!(v.bytes().len(), *n);
            v.bytes().to_vec()
        }
        ByteList => v.bytes().to_vec(),
        List(t) | Set(t) => ser_list(t, v.seq()),
        Map(k, x) => ser_list(&Container(vec![(**k).clone(), (**x).clone()]), v.seq()),
        Container(fs) => {
            let parts: Vec<_> = fs
                .iter()
                .zip(v.seq())
                .map(|(f, x)| (fixed_len(f).is_some(), ser(f, x)))
                .collect();
            pack(&parts)
        }
        Union(vs) => match v {
            Val::Var(i, p) => {
                let mut out = vec![*i as u8];
                if let Some(t) = &vs[*i] {
                    out.extend(ser(t, p.as_ref().unwrap()));
                }
                out
            }
            _ => panic!("model"),
        },
        Transparent(vs) => match v {
            Val::Var(i, p) => ser(&vs[*i], p.as_ref().unwrap()),
            _ => panic!("model"),
        },
        Legacy(t) => match v {
            Val::Var(0, _) => vec![0, 0, 0, 0],
            Val::Var(_, p) => {
                let mut out = vec![1, 0, 0, 0];
                out.extend(ser(t, p.as_ref().unwrap()));
                out
            }
            _ => panic!("model"),
        },
        Tag(_) => match v {
            Val::Var(i, _) => vec![*i as u8],
            _ => panic!("model"),
        },
        Bitvector(n) => {
            assert_eq!(v.bits().len(), *n);
            bits_to_bytes(v.bits())
        }
        Bitlist(_) => {
            let mut b = v.bits().to_vec();
            b.push(true);
            bits_to_bytes(&b)
        }
        BitDyn => bits_to_bytes(v.bits()),
    }
}

fn ser_list(t: &Schema, vs: &[Val]) -> Vec<u8> {
    let f = fixed_len(t).is_some();
    pack(&vs.iter().map(|x| (f, ser(t, x))).collect::<Vec<_>>())
}

fn de_list(t: &Schema, b: &[u8]) -> Option<Vec<Val>> {
    unpack_list(fixed_len(t), b)?
        .into_iter()
        .map(|(x, y)| de(t, &b[x..y]))
        .collect()
}

pub fn de(s: &Schema, b: &[u8]) -> Option<Val> {
    use Schema::*;
    match s {
        Bool => match b {
            [0] => Some(Val::Bool(false)),
            [1] => Some(Val::Bool(true)),
            _ => None,
        },
        Uint(n) => (b.len() == *n).then(|| Val::Uint(b.to_vec())),
        NonZero => (b.len() == 8 && b.iter().any(|x| *x != 0)).then(|| Val::Uint(b.to_vec())),
        Bytes(n) => (b.len() == *n).then(|| Val::Bytes(b.to_vec())),
        ByteList => Some(Val::Bytes(b.to_vec())),
        List(t) => de_list(t, b).map(Val::Seq),
        Set(t) => {
            let mut out: Vec<Val> = vec![];
            for e in de_list(t, b)? {
                if !out.contains(&e) {
                    out.push(e);
                }
            }
            out.sort_by(|x, y| x.cmp(y));
            Some(Val::Seq(out))
        }
        Map(k, x) => {
            let mut out: Vec<Val> = vec![];
            for e in de_list(&Container(vec![(**k).clone(), (**x).clone()]), b)? {
                out.retain(|o| o.seq()[0] != e.seq()[0]);
                out.push(e);
            }
            out.sort_by(|x, y| x.seq()[0].cmp(&y.seq()[0]));
            Some(Val::Seq(out))
        }
        Container(fs) => {
            let lens: Vec<_> = fs.iter().map(fixed_len).collect();
            let p = unpack(&lens, b)?;
            let mut out = vec![];
            for (f, (x, y)) in fs.iter().zip(p) {
                out.push(de(f, &b[x..y])?);
            }
            Some(Val::Seq(out))
        }
        Union(vs) => {
            let (sel, body) = b.split_first()?;
            let t = vs.get(*sel as usize)?;
            match t {
                None => body.is_empty().then_some(Val::Var(*sel as usize, None)),
                Some(t) => Some(Val::Var(*sel as usize, Some(Box::new(de(t, body)?)))),
            }
        }
        Transparent(vs) => {
            for (i, t) in vs.iter().enumerate() {
                if let Some(v) = de(t, b) {
                    return Some(Val::Var(i, Some(Box::new(v))));
                }
            }
            None
        }
        Legacy(t) => {
            if b.len() < 4 {
                return None;
            }
            match word(b) {
                0 => (b.len() == 4).then_some(Val::Var(0, None)),
                1 => Some(Val::Var(1, Some(Box::new(de(t, &b[4..])?)))),
                _ => None,
            }
        }
        Tag(n) => match b {
            [x] if (*x as usize) < *n => Some(Val::Var(*x as usize, None)),
            _ => None,
        },
        Bitvector(n) => {
            if b.len() != std::cmp::max(1, (n + 7) / 8) {
                return None;
            }
            let bits = bytes_to_bits(b);
            if bits[*n..].iter().any(|x| *x) {
                return None;
            }
            Some(Val::Bits(bits[..*n].to_vec()))
        }
        Bitlist(n) => {
            if b.is_empty() || b[b.len() - 1] == 0 {
                return None;
            }
            let bits = bytes_to_bits(b);
            let top = (0..bits.len()).rev().find(|i| bits[*i]).unwrap();
            (top <= *n).then(|| Val::Bits(bits[..top].to_vec()))
        }
        BitDyn => (!b.is_empty()).then(|| Val::Bits(bytes_to_bits(b))),
    }
}

/// Does the schema contain an ordered map/set or a transparent enum (non-canonical on purpose)?
pub fn lenient(s: &Schema) -> bool {
    use Schema::*;
    match s {
        Map(..) | Set(..) | Transparent(..) => true,
        List(t) | Legacy(t) => lenient(t),
        Container(fs) => fs.iter().any(lenient),
        Union(vs) => vs.iter().flatten().any(lenient),
        _ => false,
    }
}
pub fn has_transparent(s: &Schema) -> bool {
    use Schema::*;
    match s {
        Transparent(..) => true,
        List(t) | Legacy(t) | Set(t) => has_transparent(t),
        Map(k, v) => has_transparent(k) || has_transparent(v),
        Container(fs) => fs.iter().any(has_transparent),
        Union(vs) => vs.iter().flatten().any(has_transparent),
        _ => false,
    }
}
/// Contains a list whose items have zero encoded length?
pub fn has_zero_items(s: &Schema) -> bool {
    use Schema::*;
    match s {
        List(t) | Set(t) => fixed_len(t) == Some(0) || has_zero_items(t),
        Map(k, v) => {
            (fixed_len(k) == Some(0) && fixed_len(v) == Some(0))
                || has_zero_items(k)
                || has_zero_items(v)
        }
        Legacy(t) => has_zero_items(t),
        Container(fs) => fs.iter().any(has_zero_items),
        Union(vs) => vs.iter().flatten().any(has_zero_items),
        Transparent(vs) => vs.iter().any(has_zero_items),
        _ => false,
    }
}

// ---------------------------------------------------------------------------------------------

#[derive(Clone)]
pub struct Rng(pub u64, /** one long list, please */ pub bool);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(
            seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03,
            false,
        )
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn coin(&mut self, one_in: usize) -> bool {
        self.below(one_in) == 0
    }
    pub fn byte(&mut self) -> u8 {
        match self.below(8) {
            0 => 0,
            1 => 255,
            2 => 1,
            3 => 1 << self.below(8),
            4 => self.below(12) as u8,
            _ => self.next() as u8,
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        match self.below(6) {
            0 => vec![0; n],
            1 => vec![255; n],
            _ => (0..n).map(|_| self.byte()).collect(),
        }
    }
    pub fn bits(&mut self, n: usize) -> Vec<bool> {
        match self.below(8) {
            0 => vec![false; n],
            1 => vec![true; n],
            2 => {
                let k = self.below(n);
                (0..n).map(|i| i == k).collect()
            }
            3 => (0..n).map(|i| i + 1 == n).collect(),
            _ => (0..n).map(|_| self.next() & 1 == 1).collect(),
        }
    }
    /// the length of the one long list of a value: around the sizes at which a byte, two bytes or an inline buffer overflow
    pub fn long(&mut self, item: usize) -> Option<usize> {
        if !self.1 || self.coin(3) {
            return None;
        }
        self.1 = false;
        let bytes = [
            255usize, 256, 257, 1023, 1024, 4096, 32768, 65535, 65536, 65537, 70000, 131_072,
        ][self.below(12)];
        Some((bytes / item + self.below(2)).min(20_000.max(bytes * (item == 1) as usize)))
    }
    /// biased length
    pub fn len(&mut self, budget: usize) -> usize {
        let n = match self.below(10) {
            0 | 1 => 0,
            2 | 3 => 1,
            4 | 5 => 2,
            6 => 3,
            7 => self.below(6),
            8 => self.below(20),
            _ => {
                if budget >= 3 {
                    self.below(80)
                } else {
                    self.below(8)
                }
            }
        };
        if budget == 0 {
            n.min(3)
        } else if budget == 1 {
            n.min(6)
        } else {
            n
        }
    }
}

pub fn gen(s: &Schema, r: &mut Rng, depth: usize) -> Val {
    use Schema::*;
    let d = depth.saturating_sub(1);
    match s {
        Bool => Val::Bool(r.coin(2)),
        Uint(n) => Val::Uint(r.bytes(*n)),
        NonZero => {
            let mut b = r.bytes(8);
            if b.iter().all(|x| *x == 0) {
                let k = r.below(8);
                b[k] = 1 + r.below(255) as u8;
            }
            Val::Uint(b)
        }
        Bytes(n) => Val::Bytes(r.bytes(*n)),
        ByteList => {
            let n = if let Some(n) = r.long(1) {
                n
            } else if r.coin(40) {
                200 + r.below(300)
            } else {
                r.len(depth)
            };
            Val::Bytes(r.bytes(n))
        }
        List(t) => {
            let mut n = r.len(depth);
            if r.coin(60) && matches!(**t, Uint(_) | Bool) {
                n = 250 + r.below(20);
            }
            // sometimes the items are long, sometimes the list
            if r.1 && (matches!(**t, Uint(_) | Bool | Bytes(_)) || r.coin(2)) {
                n = r.long(fixed_len(t).map_or(64, |n| n.max(1))).unwrap_or(n);
            } else if r.1 {
                n = n.max(1);
            }
            Val::Seq((0..n).map(|_| gen(t, r, d)).collect())
        }
        Set(t) => {
            let n = r.len(depth);
            let mut out: Vec<Val> = vec![];
            for _ in 0..n {
                let e = gen(t, r, d);
                if !out.contains(&e) {
                    out.push(e);
                }
            }
            out.sort_by(|x, y| x.cmp(y));
            Val::Seq(out)
        }
        Map(k, x) => {
            let n = r.len(depth);
            let mut out: Vec<Val> = vec![];
            for _ in 0..n {
                let e = Val::Seq(vec![gen(k, r, d), gen(x, r, d)]);
                if out.iter().all(|o| o.seq()[0] != e.seq()[0]) {
                    out.push(e);
                }
            }
            out.sort_by(|x, y| x.seq()[0].cmp(&y.seq()[0]));
            Val::Seq(out)
        }
        Container(fs) => Val::Seq(fs.iter().map(|f| gen(f, r, d)).collect()),
        Union(vs) => {
            let i = if r.coin(4) {
                vs.len() - 1
            } else {
                r.below(vs.len())
            };
            Val::Var(i, vs[i].as_ref().map(|t| Box::new(gen(t, r, d))))
        }
        Transparent(vs) => {
            let i = r.below(vs.len());
            Val::Var(i, Some(Box::new(gen(&vs[i], r, d))))
        }
        Legacy(t) => {
            if r.coin(3) {
                Val::Var(0, None)
            } else {
                Val::Var(1, Some(Box::new(gen(t, r, d))))
            }
        }
        Tag(n) => Val::Var(if r.coin(4) { n - 1 } else { r.below(*n) }, None),
        Bitvector(n) => Val::Bits(r.bits(*n)),
        Bitlist(n) => {
            let k = match r.below(4) {
                0 => *n,
                1 => r.below((*n).min(20) + 1),
                2 => (r.below((*n).min(4000) / 8 + 1) * 8).min(*n),
                _ => r.below((*n).min(4000) + 1),
            }
            .min(5000);
            Val::Bits(r.bits(k))
        }
        BitDyn => {
            let big = r.coin(8);
            let n = 8 * (1 + r.below(if big { 140 } else { 4 }));
            Val::Bits(r.bits(n))
        }
    }
}

/// Structured corruption of an encoding.
pub fn mutate(b: &mut Vec<u8>, r: &mut Rng) {
    match r.below(14) {
        0 => {
            let k = 1 + r.below(4);
            b.truncate(b.len().saturating_sub(k));
        }
        1 => {
            let n = 1 + r.below(5);
            for _ in 0..n {
                let x = r.byte();
                b.push(x);
            }
        }
        2 => b.push(0),
        3 | 4 => {
            if !b.is_empty() {
                let i = r.below(b.len());
                b[i] = r.byte();
            }
        }
        5 => {
            if !b.is_empty() {
                let i = r.below(b.len());
                b[i] ^= 1 << r.below(8);
            }
        }
        6 | 7 | 8 => {
            if b.len() >= 4 {
                let i = match r.below(3) {
                    0 => 0,
                    1 => r.below((b.len() - 4).min(40) / 4 + 1) * 4,
                    _ => r.below((b.len() - 3).min(40)),
                };
                if i + 4 <= b.len() {
                    let old = word(&b[i..]);
                    let n = match r.below(16) {
                        0 => 0,
                        1 => 1,
                        2 => 4,
                        3 => 8,
                        4 => b.len().wrapping_sub(1),
                        5 => b.len(),
                        6 => b.len() + 1,
                        7 => old.wrapping_sub(1),
                        8 => old.wrapping_add(1),
                        9 => old.wrapping_sub(4),
                        10 => old.wrapping_add(4),
                        11 => 0xffff_ffff,
                        12 => 0xffff_fffc,
                        13 => old.wrapping_add(1 << (8 * r.below(4))),
                        14 => {
                            let j = r.below(b.len() - 3);
                            word(&b[j..])
                        }
                        _ => r.below(b.len() + 8),
                    };
                    b[i..i + 4].copy_from_slice(&le4(n));
                }
            }
        }
        9 => {
            if !b.is_empty() {
                let i = r.below(b.len());
                b.remove(i);
            }
        }
        10 => {
            let i = r.below(b.len() + 1);
            let x = r.byte();
            b.insert(i, x);
        }
        11 => {
            // shift an offset and pad: keeps later offsets consistent more often
            if b.len() >= 4 {
                let k = 1 + r.below(4);
                let old = word(b);
                b[0..4].copy_from_slice(&le4(old.wrapping_add(k)));
                for _ in 0..k {
                    b.push(0);
                }
            }
        }
        12 => {
            if b.len() >= 8 {
                let i = r.below((b.len() - 4) / 4) * 4;
                for k in 0..4 {
                    b.swap(i + k, i + 4 + k);
                }
            }
        }
        _ => {
            if let Some(x) = b.last_mut() {
                *x = match r.below(4) {
                    0 => 0,
                    1 => 1,
                    2 => x.wrapping_add(1),
                    _ => x.wrapping_mul(2),
                };
            }
        }
    }
}

/// Byte strings to feed a decoder of schema `s`.
pub fn gen_bytes(s: &Schema, r: &mut Rng) -> Vec<u8> {
    match r.below(10) {
        0 => {
            let n = r.below(12);
            r.bytes(n)
        }
        1 => {
            // random offset-table-like string
            let n = 1 + r.below(4);
            let mut b = vec![];
            let mut o = 4 * n;
            for i in 0..n {
                if i > 0 || r.coin(5) {
                    o += r.below(4);
                }
                if r.coin(12) {
                    o = o.saturating_sub(r.below(5));
                }
                b.extend_from_slice(&le4(o));
            }
            let k = r.below(10);
            b.extend(r.bytes(k));
            b
        }
        _ => {
            r.1 = r.coin(150);
            let v = gen(s, r, 3);
            r.1 = false;
            let mut b = ser(s, &v);
            let n = match r.below(8) {
                0 => 0,
                1..=5 => 1,
                6 => 2,
                _ => 3,
            };
            for _ in 0..n {
                mutate(&mut b, r);
            }
            b.truncate(200_000);
            b
        }
    }
}

"""Type definitions that the derive macros must reject or accept (C08, C15): compiled one by one against the built crates."""
import random


def enum(n, behaviour, payload):
    vs = ", ".join(f"V{i}{payload}" for i in range(n))
    return f'#[derive(Encode, Decode)]\n#[ssz(enum_behaviour = "{behaviour}")]\npub enum E {{ {vs} }}\n'


SKIP = "#[ssz(skip_serializing, skip_deserializing)]"
REJECT = {}
ACCEPT = {}
for side in ("Encode", "Decode", "Encode, Decode"):
    tag = side.lower().replace(", ", "_")

    def d(s, side=side):
        return s.replace("derive(Encode, Decode)", f"derive({side})")

    R = lambda k, s: REJECT.__setitem__(f"{k}/{tag}", d(s))
    A = lambda k, s: ACCEPT.__setitem__(f"{k}/{tag}", d(s))
    for n in (129, 130, 200, 255, 256, 257, 258, 300):
        R(f"union_{n}_variants", enum(n, "union", "(u8)"))
        R(f"tag_{n}_variants", enum(n, "tag", ""))
    R("union_0_variants", enum(0, "union", ""))
    for n in (1, 2, 3, 64, 126, 127, 128):
        A(f"union_{n}_variants", enum(n, "union", "(u8)"))
        A(f"tag_{n}_variants", enum(n, "tag", ""))
    D = "#[derive(Encode, Decode)]\n"
    T = D + '#[ssz(struct_behaviour = "transparent")]\n'
    R("transparent_struct_0_fields", T + "pub struct S {}")
    R("transparent_struct_unit", T + "pub struct S;")
    R("transparent_struct_all_skipped", T + f"pub struct S {{ {SKIP} a: u8 }}")
    R("transparent_struct_all_skipped_tuple", T + f"pub struct S({SKIP} u8, {SKIP} u16);")
    R("transparent_struct_2_fields", T + "pub struct S { a: Vec<u8>, b: u8 }")
    R("transparent_struct_2_fields_tuple", T + "pub struct S(Vec<u8>, u8);")
    R("transparent_struct_3_fields_1_skipped", T + f"pub struct S {{ a: u8, {SKIP} b: u8, c: u16 }}")
    R("enum_without_behaviour", D + "pub enum E { A(u8), B(u16) }")
    R("unit_enum_without_behaviour", D + "pub enum E { A, B }")
    R("union_enum_unit_variant", D + '#[ssz(enum_behaviour = "union")]\npub enum E { A(u8), B }')
    R("union_enum_two_payloads", D + '#[ssz(enum_behaviour = "union")]\npub enum E { A(u8), B(u8, u8) }')
    R("tag_enum_payload", D + '#[ssz(enum_behaviour = "tag")]\npub enum E { A, B(u8) }')
    R("transparent_enum_unit_variant", D + '#[ssz(enum_behaviour = "transparent")]\npub enum E { A(Vec<u8>), B }')
    R("transparent_enum_two_payloads", D + '#[ssz(enum_behaviour = "transparent")]\npub enum E { A(Vec<u8>), B(Vec<u8>, u8) }')
    R("struct_unknown_behaviour", D + '#[ssz(struct_behaviour = "union")]\npub struct S { a: u8 }')
    R("enum_unknown_behaviour", D + '#[ssz(enum_behaviour = "container")]\npub enum E { A(u8) }')
    R("union_type", D + "pub union U { a: u8, b: u8 }")
    A("transparent_struct_1_field", T + "pub struct S { a: Vec<u8> }")
    A("transparent_struct_1_live", T + f"pub struct S {{ {SKIP} a: u8, b: Vec<u8>, {SKIP} c: u64 }}")
    A("transparent_tuple_1_live", T + f"pub struct S({SKIP} u8, Vec<u8>);")
    A("empty_container", D + "pub struct S {}")
    A("container", D + f"pub struct S {{ a: u8, {SKIP} b: u64, c: Vec<u8> }}")
    A("container_explicit", D + '#[ssz(struct_behaviour = "container")]\npub struct S { a: u8 }')
    A("transparent_enum", D + '#[ssz(enum_behaviour = "transparent")]\npub enum E { A(Vec<u8>), B(Vec<u16>) }')

for own, (side, e, d) in {"encode": ("Encode", "skip_serializing", "skip_deserializing"), "decode": ("Decode", "skip_deserializing", "skip_serializing")}.items():
    T = f'#[derive({side})]\n#[ssz(struct_behaviour = "transparent")]\n'
    REJECT[f"transparent_struct_skip_of_other_half/{own}"] = T + f"pub struct S {{ a: Vec<u8>, #[ssz({d})] b: u8 }}"
    REJECT[f"transparent_struct_only_field_skipped/{own}"] = T + f"pub struct S {{ #[ssz({e})] a: u8 }}"
    REJECT[f"transparent_tuple_skip_of_other_half/{own}"] = T + f"pub struct S(#[ssz({d})] u8, Vec<u8>);"
    ACCEPT[f"transparent_struct_skip_of_own_half/{own}"] = T + f"pub struct S {{ #[ssz({d})] a: Vec<u8>, #[ssz({e})] b: u8 }}"
    ACCEPT[f"transparent_tuple_skip_of_own_half/{own}"] = T + f"pub struct S(#[ssz({e})] u8, Vec<u8>);"

HEAD = "#![allow(unused)]\nuse ssz::{Encode, Decode};\nuse ssz_derive::{Encode, Decode};\n"

# z, b, h, B: fixed size; v, w: variable size; s, d: skipped; K: with a fixed-size codec; k, V: with a variable-size codec
TY = dict(z="[u8; 0]", b="u8", h="u16", B="[u8; 3]", v="Vec<u8>", w="Vec<u16>", s="u32", d="String", K="u16", k="String", V="u8")
ATTR = dict(s=SKIP + " ", d=SKIP + " ", K='#[ssz(with = "be")] ', k='#[ssz(with = "text")] ', V='#[ssz(with = "unary")] ')
VAL = dict(z="[0u8; 0]", b="#u8", h="#u16", B="[#u8, 0, 255]", v="vec![#u8; # % 4]", w="vec![#u16, 9]", s="0", d="String::new()", K="#", k='"x".repeat(# % 3)', V="#")
PART = dict(z="vec![]", b="vec![#]", h="vec![#, 0]", B="vec![#, 0, 255]", v="vec![#; # % 4]", w="vec![#, 0, 9, 0]", K="vec![0, #]", k='"x".repeat(# % 3).into_bytes()', V="vec![1; #]")
STRUCTS = """
macro_rules! codec { ($name:ident, $t:ty, $fixed:expr, $len:expr, $bl:expr, $enc:expr, $dec:expr) => {
    pub mod $name {
        pub mod encode {
            pub fn is_ssz_fixed_len() -> bool { $fixed }
            pub fn ssz_fixed_len() -> usize { $len }
            pub fn ssz_bytes_len(x: &$t) -> usize { ($bl)(x) }
            pub fn ssz_append(x: &$t, buf: &mut Vec<u8>) { let b: Vec<u8> = ($enc)(x); buf.extend(b) }
        }
        pub mod decode {
            pub fn is_ssz_fixed_len() -> bool { $fixed }
            pub fn ssz_fixed_len() -> usize { $len }
            pub fn from_ssz_bytes(b: &[u8]) -> Result<$t, ssz::DecodeError> { ($dec)(b).ok_or(ssz::DecodeError::NoMatchingVariant) }
        }
    }
} }
codec!(be, u16, true, 2, |_: &u16| 2, |x: &u16| x.to_be_bytes().to_vec(), |b: &[u8]| Some(u16::from_be_bytes(b.try_into().ok()?)));
codec!(text, String, false, 4, |x: &String| x.len(), |x: &String| x.clone().into_bytes(), |b: &[u8]| String::from_utf8(b.to_vec()).ok());
codec!(unary, u8, false, 4, |x: &u8| usize::from(*x), |x: &u8| vec![1; usize::from(*x)], |b: &[u8]| if b.iter().all(|x| *x == 1) { u8::try_from(b.len()).ok() } else { None });
fn enc<T: Debug + Encode>(k: &str, x: &T, b: &[u8]) {
    if x.as_ssz_bytes() != b { println!("FAIL C03 C08:{k} {x:?} encodes to {:?}, expected {b:?}", x.as_ssz_bytes()); }
    if x.ssz_bytes_len() != x.as_ssz_bytes().len() { println!("FAIL C07 C08:{k} {x:?} encodes to {:?}, predicted {} bytes", x.as_ssz_bytes(), x.ssz_bytes_len()); }
    let mut buf = vec![9; 67];
    x.ssz_append(&mut buf);
    if buf[..67] != [9; 67] || buf[67..] != x.as_ssz_bytes() { println!("FAIL C10 C08:{k} {x:?} appended to 67 bytes: {buf:?}"); }
}
fn body<T: Debug + PartialEq + Encode + Decode>(k: usize, x: T, parts: Vec<(bool, Vec<u8>)>) {
    let head: usize = parts.iter().map(|(f, b)| if *f { b.len() } else { 4 }).sum();
    let (mut a, mut z, mut offs) = (vec![], vec![], vec![]);
    for (f, b) in &parts {
        if *f { a.extend(b) } else { offs.push(a.len()); a.extend(((head + z.len()) as u32).to_le_bytes()); z.extend(b) }
    }
    let b = [a, z].concat();
    enc(&format!("struct{k}"), &x, &b);
    if T::from_ssz_bytes(&b).as_ref() != Ok(&x) { println!("FAIL C01 C04 C08:struct{k} {b:?} decodes to {:?}, expected {x:?}", T::from_ssz_bytes(&b)); }
    let want = (offs.is_empty(), if offs.is_empty() { head } else { 4 });
    if (<T as Encode>::is_ssz_fixed_len(), <T as Encode>::ssz_fixed_len()) != want || (<T as Decode>::is_ssz_fixed_len(), <T as Decode>::ssz_fixed_len()) != want { println!("FAIL C07 C08:struct{k} {x:?} size metadata"); }
    for n in 0..head { if T::from_ssz_bytes(&b[..n]).is_ok() { println!("FAIL C02 C04 C08:struct{k} {:?} is accepted", &b[..n]); } }
    if offs.is_empty() && T::from_ssz_bytes(&[&b[..], &[0]].concat()).is_ok() { println!("FAIL C02 C04 C08:struct{k} {b:?} and a zero byte is accepted"); }
    for (i, o) in offs.iter().enumerate() {
        for d in [1u32, u32::MAX, 1 << 31] {
            let mut c = b.clone();
            let w = u32::from_le_bytes(c[*o..*o + 4].try_into().unwrap()).wrapping_add(d);
            c[*o..*o + 4].copy_from_slice(&w.to_le_bytes());
            match T::from_ssz_bytes(&c) {
                Ok(y) if i == 0 || y.as_ssz_bytes() != c => println!("FAIL C02 C04 C08:struct{k} {c:?} is accepted as {y:?}"),
                _ => {}
            }
        }
    }
}
// a definition whose two halves skip different fields
fn pack(parts: &[(bool, Vec<u8>)]) -> (Vec<u8>, bool, usize) {
    let head: usize = parts.iter().map(|(f, b)| if *f { b.len() } else { 4 }).sum();
    let (mut a, mut z) = (vec![], vec![]);
    for (f, b) in parts { if *f { a.extend(b) } else { a.extend(((head + z.len()) as u32).to_le_bytes()); z.extend(b) } }
    let fixed = parts.iter().all(|(f, _)| *f);
    ([a, z].concat(), fixed, if fixed { head } else { 4 })
}
fn halves<E: Debug + Encode, D: Debug + PartialEq + Decode>(k: &str, x: E, enc: Vec<(bool, Vec<u8>)>, y: D, dec: Vec<(bool, Vec<u8>)>) {
    let (b, fixed, len) = pack(&enc);
    self::enc(k, &x, &b);
    if (E::is_ssz_fixed_len(), E::ssz_fixed_len()) != (fixed, len) { println!("FAIL C07 C08:{k} {x:?} size metadata of the encoder"); }
    let (b, fixed, len) = pack(&dec);
    if D::from_ssz_bytes(&b).as_ref() != Ok(&y) { println!("FAIL C01 C04 C08:{k} {b:?} decodes to {:?}, expected {y:?}", D::from_ssz_bytes(&b)); }
    if (D::is_ssz_fixed_len(), D::ssz_fixed_len()) != (fixed, len) { println!("FAIL C07 C08:{k} {y:?} size metadata of the decoder"); }
}
fn only<T: Debug + PartialEq + Encode + Decode>(k: &str, x: T, enc: (bool, Vec<u8>), y: T, dec: (bool, Vec<u8>)) {
    let len = |p: &(bool, Vec<u8>)| (p.0, if p.0 { p.1.len() } else { 4 });
    self::enc(k, &x, &enc.1);
    if T::from_ssz_bytes(&dec.1).as_ref() != Ok(&y) { println!("FAIL C01 C04 C08:{k} {:?} decodes to {:?}, expected {y:?}", dec.1, T::from_ssz_bytes(&dec.1)); }
    if (<T as Encode>::is_ssz_fixed_len(), <T as Encode>::ssz_fixed_len()) != len(&enc) || (<T as Decode>::is_ssz_fixed_len(), <T as Decode>::ssz_fixed_len()) != len(&dec) { println!("FAIL C07 C08:{k} {x:?} size metadata"); }
}
fn first<T: Debug + PartialEq + Encode + Decode>(k: &str, b: &[u8], want: Option<(T, Vec<u8>)>) {
    let r = T::from_ssz_bytes(b);
    if r.as_ref().ok() != want.as_ref().map(|w| &w.0) { println!("FAIL C04 C08:{k} {b:?} decodes to {r:?}, expected {want:?}"); }
    if let Some((x, e)) = want { enc(k, &x, &e); }
    if <T as Encode>::is_ssz_fixed_len() || <T as Decode>::is_ssz_fixed_len() { println!("FAIL C07 C08:{k} size metadata"); }
}
fn wrap<T: Debug + PartialEq + Encode + Decode, I: Encode + Decode>(k: &str, x: T, inner: I) {
    let b = inner.as_ssz_bytes();
    enc(k, &x, &b);
    if T::from_ssz_bytes(&b).as_ref() != Ok(&x) { println!("FAIL C01 C04 C08:{k} {b:?} decodes to {:?}, expected {x:?}", T::from_ssz_bytes(&b)); }
    if <T as Encode>::is_ssz_fixed_len() != <I as Encode>::is_ssz_fixed_len() || <T as Encode>::ssz_fixed_len() != <I as Encode>::ssz_fixed_len()
        || <T as Decode>::is_ssz_fixed_len() != <I as Decode>::is_ssz_fixed_len() || <T as Decode>::ssz_fixed_len() != <I as Decode>::ssz_fixed_len() { println!("FAIL C07 C08:{k} {x:?} size metadata"); }
    for n in 0..b.len() + 3 {
        let c = vec![3u8; n];
        if T::from_ssz_bytes(&c).is_ok() != I::from_ssz_bytes(&c).is_ok() { println!("FAIL C04 C08:{k} {c:?} accepted by one of wrapper and inner type"); }
    }
}
"""


def counts(seed=1):
    """A program: unions and tag enums of every variant count from 1 to 128, all selectors; containers and transparent structs of
    many shapes; compared with what the definition says."""
    o = HEAD + """use std::fmt::Debug;
fn dec<T: Debug + Encode + Decode>(what: &str, n: usize, b: &[u8], want: Option<String>) {
    let r = T::from_ssz_bytes(b);
    let got = r.as_ref().ok().map(|x| format!("{x:?}"));
    let u = if what == "union" { " C15" } else { "" };
    if got != want { println!("FAIL C04 C08{}{u}:{what}{n} {b:?} decodes to {got:?}, expected {want:?}", if want.is_some() { " C01" } else { "" }); }
    if let Ok(x) = r {
        if x.as_ssz_bytes() != b { println!("FAIL C02 C03 C08{u}:{what}{n} {x:?} encodes to {:?}, expected {b:?}", x.as_ssz_bytes()); }
        if x.ssz_bytes_len() != x.as_ssz_bytes().len() { println!("FAIL C07 C08:{what}{n} {x:?} encodes to {:?}, predicted {} bytes", x.as_ssz_bytes(), x.ssz_bytes_len()); }
    }
}
fn nm(i: u8) -> String { format!("{}{i}", ["Q", "M", "X", "A", "T", "E", "Z", "B"][usize::from(i) % 8]) }
fn union<T: Debug + Encode + Decode>(n: usize) {
    dec::<T>("union", n, &[], None);
    for s in 0..=255u8 {
        dec::<T>("union", n, &[s, 77], (usize::from(s) < n).then(|| format!("{}(77)", nm(s))));
        dec::<T>("union", n, &[s], None);
        dec::<T>("union", n, &[s, 77, 0], None);
    }
    if <T as Encode>::is_ssz_fixed_len() || <T as Decode>::is_ssz_fixed_len() || <T as Encode>::ssz_fixed_len() != 4 || <T as Decode>::ssz_fixed_len() != 4 { println!("FAIL C07 C08:union{n} size metadata"); }
}
fn tag<T: Debug + Encode + Decode>(n: usize) {
    dec::<T>("tag", n, &[], None);
    for s in 0..=255u8 {
        dec::<T>("tag", n, &[s], (usize::from(s) < n).then(|| nm(s)));
        dec::<T>("tag", n, &[s, 0], None);
    }
    if !<T as Encode>::is_ssz_fixed_len() || !<T as Decode>::is_ssz_fixed_len() || <T as Encode>::ssz_fixed_len() != 1 || <T as Decode>::ssz_fixed_len() != 1 { println!("FAIL C07 C08:tag{n} size metadata"); }
}
"""
    # variants of one letter and a number, declared in no alphabetical order
    nm = lambda i: "QMXATEZB"[i % 8] + str(i)
    for n in range(1, 129):
        o += f'#[derive(Debug, Encode, Decode)]\n#[ssz(enum_behaviour = "union")]\npub enum U{n} {{ ' + ", ".join(f"{nm(i)}(u8)" for i in range(n)) + " }\n"
        o += f'#[derive(Debug, Encode, Decode)]\n#[ssz(enum_behaviour = "tag")]\npub enum T{n} {{ ' + ", ".join(nm(i) for i in range(n)) + " }\n"
    o += STRUCTS
    r = random.Random(seed)
    calls = []
    for k in range(96):
        n = k // 2 + 1 if k < 64 else r.randrange(1, 24)
        kinds = "zbhB" if k % 4 == 0 else "vw" if k % 4 == 2 and k > 32 else "bhvBws" if k % 4 == 1 else "bhvBwsKkVd"
        fs = [r.choice(kinds) for _ in range(n)]
        name = f"S{k}"
        o += "#[derive(Debug, PartialEq, Encode, Decode)]\npub struct " + name + " { " + ", ".join(f"{ATTR.get(f, '')}f{i}: {TY[f]}" for i, f in enumerate(fs)) + " }\n"
        vals = [VAL[f].replace("#", str(i + 1)) for i, f in enumerate(fs)]
        parts = "".join(f"({'false' if f in 'vwkV' else 'true'}, {PART[f].replace('#', str(i + 1))}), " for i, f in enumerate(fs) if f not in "sd")
        calls.append(f"    body({k}, {name} {{ " + ", ".join(f"f{i}: {v}" for i, v in enumerate(vals)) + f" }}, vec![{parts}]);\n")
    for k in range(64):  # fields skipped by one half only: one type with both derives, or one type for each
        fs = [(r.choice("zbhBvwKkV" if k % 4 else "bhBK"), r.choice(["", "e", "d", "ed"])) for _ in range(k // 4 % 8 + 1)]
        attrs = lambda f, w: "".join(f"#[ssz({', '.join(x)})] " for x in [[n for c, n in (("e", "skip_serializing"), ("d", "skip_deserializing")) if c in w] +
                                                                          ([ATTR[f][6:-3]] if f in "KkV" else [])] if x)
        name = f"H{k}"
        body = " { " + ", ".join(f"{attrs(f, w)}f{i}: {TY[f]}" for i, (f, w) in enumerate(fs)) + " }\n"
        names = [name, name] if k % 2 else [name + "e", name + "d"]
        o += "".join(f"#[derive(Debug, PartialEq, {t})]\npub struct {nm}{body}" for nm, t in ([(name, "Encode, Decode")] if k % 2 else [(name + "e", "Encode"), (name + "d", "Decode")]))
        v = [VAL[f].replace("#", str(i + 1)) for i, (f, _) in enumerate(fs)]
        half = lambda w: ", ".join(f"({'false' if f in 'vwkV' else 'true'}, {PART[f].replace('#', str(i + 1))})" for i, (f, u) in enumerate(fs) if w not in u)
        calls.append(f"    halves(\"{name}\", {names[0]} {{ " + ", ".join(f"f{i}: {x}" for i, x in enumerate(v)) + f" }}, vec![{half('e')}], {names[1]} {{ " +
                     ", ".join(f"f{i}: " + ("Default::default()" if "d" in u else x) for i, (x, (_, u)) in enumerate(zip(v, fs))) + f" }}, vec![{half('d')}]);\n")
    for n in (2, 3, 4):
        for le in range(n):
            for ld in range(n):
                name = f"Y{n}{le}{ld}"
                t = [("h", "w")[(i + n) % 2] for i in range(n)]
                skips = [", ".join(a for a, l in (("skip_serializing", le), ("skip_deserializing", ld)) if i != l) for i in range(n)]
                fld = [(f"#[ssz({skips[i]})] " if skips[i] else "") + ("" if n == 3 else f"f{i}: ") + TY[t[i]] for i in range(n)]
                o += '#[derive(Debug, PartialEq, Encode, Decode)]\n#[ssz(struct_behaviour = "transparent")]\npub struct ' + name + ("(" if n == 3 else " { ") + ", ".join(fld) + (");\n" if n == 3 else " }\n")
                val = lambda z: name + ("(" if n == 3 else " { ") + ", ".join(("" if n == 3 else f"f{i}: ") + (VAL[t[i]].replace("#", str(i + 1)) if z is None or i == z else "Default::default()") for i in range(n)) + (")" if n == 3 else " }")
                one = lambda i: f"({'false' if t[i] == 'w' else 'true'}, {PART[t[i]].replace('#', str(i + 1))})"
                calls.append(f"    only(\"{name}\", {val(None)}, {one(le)}, {val(ld)}, {one(ld)});\n")
    # transparent enums: the first variant that accepts, whatever the order
    alts = [("u64", 8), ("u32", 4), ("u16", 2), ("[u8; 3]", 3), ("bool", 1), ("u8", 1)]
    for k in range(24):
        n = k % 6 + 1
        vs = [r.choice(alts) for _ in range(n)]
        o += f'#[derive(Debug, PartialEq, Encode, Decode)]\n#[ssz(enum_behaviour = "transparent")]\npub enum E{k} {{ ' + ", ".join(f"{nm(i)}(Vec<{t}>)" for i, (t, _) in enumerate(vs)) + " }\n"
        calls.append("    for n in 0..18usize { for x in [0u8, 1, 7] { let b = vec![x; n]; let mut w: Option<(E%d, Vec<u8>)> = None;\n" % k + "".join(
            f"        if w.is_none() {{ if let Ok(y) = Vec::<{t}>::from_ssz_bytes(&b) {{ let z = y.as_ssz_bytes(); w = Some((E{k}::{nm(i)}(y), z)); }} }}\n" for i, (t, _) in enumerate(vs)) +
            f"        first(\"enum{k}\", &b, w); }} }}\n")
    for n in range(1, 13):
        for live in sorted({0, n // 2, n - 1}):
            for t in "zhwKkV":
                name = f"X{n}{live}{t}".replace("-", "")
                fs = [(ATTR.get(t, "") if i == live else SKIP + " ") + ("" if n % 2 else f"f{i}: ") + (TY[t] if i == live else "u32") for i in range(n)]
                o += '#[derive(Debug, PartialEq, Encode, Decode)]\n#[ssz(struct_behaviour = "transparent")]\npub struct ' + name + ("(" if n % 2 else " { ") + ", ".join(fs) + (");\n" if n % 2 else " }\n")
                v = ", ".join(("" if n % 2 else f"f{i}: ") + (VAL[t].replace("#", "5") if i == live else "0") for i in range(n))
                v = name + (f"({v})" if n % 2 else f" {{ {v} }}")
                one = f"({'false' if t in 'kV' else 'true'}, {PART.get(t, '').replace('#', '5')})"
                calls.append(f"    only(\"{name}\", {v}, {one}, {v}, {one});\n" if t in "KkV" else f"    wrap(\"{name}\", {v}, {VAL[t].replace('#', '5')});\n")
    return o + "fn main() {\n" + "".join(calls) + "".join(f"    union::<U{n}>({n}); tag::<T{n}>({n});\n" for n in range(1, 129)) + "}\n"

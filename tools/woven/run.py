"""The extracted text that Verus verifies, compiled by Verus and run, against the real crate: one driver, two transcripts.

  python3 tools/woven/run.py [ROUNDS]      prints both, exit 1 when they differ

This tests what the proof takes on trust: that the extraction keeps the meaning, and that the library functions behave as the
bodies verified in their place do.
"""
import os, re, subprocess, sys, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
sys.path[:0] = [VERIF, os.path.join(VERIF, "tools")]
import prover

BODIES = {      # external bodies of the preludes
    "pub fn v_panic()": "panic!()",
    "pub fn v_fmt()": "String::new()",
    "pub fn v_rejects() -> !": "panic!()",
    "pub fn hex_encode(": """b.iter().fold(String::from("0x"), |s, x| s + &format!("{x:02x}"))""",
    "pub fn len(&self) -> (r: usize)\n        ensures r == self.data().len()": "self.data.len()",
    "pub fn v_clone(&self)": "Bitfield { bytes: self.bytes.clone(), len: self.len, _phantom: self._phantom.clone() }",
}


def woven():
    items = prover.prepare(True)
    if items.derived:
        sys.exit(items.derived)
    mods, byfn = prover.contracts(True)[:2]
    t = prover.Program(items, mods, byfn, set()).out.text().replace("proof fn v_canary() ensures false {}\n", "")
    for k, b in BODIES.items():
        i = t.index(k)
        j = t.index("unimplemented!()", i)
        assert j - i < 300, k
        t = t[:j] + b + t[j + len("unimplemented!()"):]
    # what reads and writes strings in the stand-ins
    assert "pub trait Visitor: Sized {" in t and "pub fn len(&self) -> (r: usize)\n        ensures r == self.data().len()" in t
    t = t.replace("pub trait Visitor: Sized {", "pub trait Visitor: Sized {\n    #[verifier::external_body]\n    fn v_visit(s: &str) -> Option<Self::Value> { unimplemented!() }\n")
    t = t.replace("impl Visitor for PrefixedHexVisitor {", """impl Visitor for PrefixedHexVisitor {
    #[verifier::external_body]
    fn v_visit(s: &str) -> Option<Vec<u8>> {
        let s = s.strip_prefix("0x")?.as_bytes();
        if s.len() % 2 == 1 { return None; }
        (0..s.len() / 2).map(|i| Some(((s[2 * i] as char).to_digit(16)? * 16 + (s[2 * i + 1] as char).to_digit(16)?) as u8)).collect()
    }
""")
    t = t.replace("pub struct Unstructured<'a> {\n    data", "pub struct Unstructured<'a> {\n    pub data")
    for f in ("eq(&self", "serialize<", "serialize <", "deserialize<", "deserialize <", "arbitrary("):
        t = t.replace("\nfn " + f, "\npub fn " + f)
    end = "}\nfn main() {}"
    assert t.rstrip().endswith(end)
    inside = "pub mod m_driver { use super::*;\n"
    for n in (0, 1, 7, 8, 9, 64, 1030):
        inside += f"""#[derive(Clone)] pub struct B{n};
impl Unsigned for B{n} {{ open spec fn n() -> nat {{ {n} }} proof fn law_n() {{ }} fn to_usize() -> (r: usize) {{ {n} }} }}
"""
    for k in ("u8", "u16", "Vec<u8>", "[u8; 0]", "Vec<Vec<u8>>"):
        inside += f"impl VOrd for {k} {{ open spec fn lt(a: Self::V, b: Self::V) -> bool {{ arbitrary() }} proof fn law_lt() {{ }} fn v_less(&self, o: &Self) -> (r: bool) {{ self < o }} }}\n"
    inside += """pub struct Str(pub String);
pub struct StrErr;
impl DeError for StrErr { fn custom(s: String) -> Self { StrErr } }
impl Serializer for Str {
    type Ok = String; type Error = StrErr;
    uninterp spec fn written(self, s: Seq<char>) -> Result<String, StrErr>;
    uninterp spec fn written_bytes(self, s: Seq<u8>) -> Result<String, StrErr>;
    #[verifier::external_body] fn serialize_str(self, s: &String) -> (r: Result<String, StrErr>) { Ok(s.clone()) }
    #[verifier::external_body] fn serialize_bytes(self, s: &[u8]) -> (r: Result<String, StrErr>) { unimplemented!() }
}
impl<'de> Deserializer<'de> for Str {
    type Error = StrErr;
    uninterp spec fn input(self) -> Option<Seq<char>>;
    #[verifier::external_body] fn deserialize_str<V: Visitor>(self, v: V) -> (r: Result<V::Value, StrErr>) { V::v_visit(&self.0).ok_or(StrErr) }
}
"""
    inside += "}\npub use m_driver::*;\n"
    t = t.rstrip()[:-len(end)] + inside + """}
mod v_driver { use super::*;
""" + "".join(f"use crate::{m}::*;\n" for m in sorted(set(re.findall(r"mod (m_dv\w+)", t)))) + """type SmV<T, const N: usize> = SVec<T, N>;
type Map<K, V> = BTreeMap<K, V>;
type Set<T> = BTreeSet<T>;
fn sv(b: &[u8]) -> Vec<u8> { b.to_vec() }
fn u8_of(x: UnionSelector) -> u8 { x.0 }
trait Text: Sized { fn to_str(&self) -> Option<String>; fn of_str(s: &str) -> Option<Self>; }
macro_rules! text { ($x:ty $(, $n:ident)?) => { impl$(<$n: Unsigned + Clone>)? Text for $x {
    fn to_str(&self) -> Option<String> { self.serialize(Str(String::new())).ok() }
    fn of_str(s: &str) -> Option<Self> { Self::deserialize(Str(s.to_string())).ok() }
} } }
text! { Bitfield<Variable<N>>, N } text! { Bitfield<Fixed<N>>, N } text! { Bitfield<Dynamic> }
fn unstructured(b: &[u8]) -> Unstructured<'_> { Unstructured { data: b } }
trait Made: Sized { fn made(u: &mut Unstructured<'_>) -> ArbResult<Self>; }
impl<N: 'static + Unsigned + Clone> Made for Bitfield<Variable<N>> { fn made(u: &mut Unstructured<'_>) -> ArbResult<Self> { Self::arbitrary(u) } }
impl<N: 'static + Unsigned + Clone> Made for Bitfield<Fixed<N>> { fn made(u: &mut Unstructured<'_>) -> ArbResult<Self> { Self::arbitrary(u) } }
trait V2: Sized { fn v2clone(&self) -> Self; }
impl<N: Unsigned + Clone> V2 for Bitfield<Variable<N>> { fn v2clone(&self) -> Self { self.v_clone() } }
""" + open(os.path.join(HERE, "driver.rs")).read() + "pub fn start() { run() }\n}\nfn main() { v_driver::start() }\n"
    return t


CARGO = f"""[package]
name = "real"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
ethereum_ssz = {{ path = "{prover.REPO}/ssz", features = ["arbitrary"] }}
derive-corpus = {{ path = "{VERIF}/derive" }}
serde = "1"
serde_json = "1"
arbitrary = "1"
typenum = "1"
smallvec = "1"
alloy-primitives = {{ version = "1", default-features = false }}
"""


def main():
    d = tempfile.mkdtemp(prefix="woven")
    try:
        e = dict(prover.env())
        open(d + "/w.rs", "w").write(woven())
        p = subprocess.run(["verus", "--no-verify", "--compile", d + "/w.rs", "-o", d + "/w", "--", "-C", "opt-level=1"], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=d)
        if not os.path.exists(d + "/w"):
            sys.exit("the woven text does not compile: " + p.stdout[-9000:])
        os.makedirs(d + "/r/src")
        open(d + "/r/Cargo.toml", "w").write(CARGO)
        shutil.copy(prover.REPO + "/Cargo.lock", d + "/r/Cargo.lock")
        shutil.copy(HERE + "/real.rs", d + "/r/src/main.rs")
        shutil.copy(HERE + "/driver.rs", d + "/r/src/driver.rs")
        e["CARGO_TARGET_DIR"] = os.path.join(prover.BUILD, "woven")
        p = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=d + "/r", env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            sys.exit("the driver does not compile: " + p.stdout[-9000:])
        out = []
        for x in (d + "/w", e["CARGO_TARGET_DIR"] + "/debug/real"):
            p = subprocess.run([x] + sys.argv[1:], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
            out.append(p.stdout.splitlines() + ([] if p.returncode == 0 else [p.stderr[-500:]]))
        diff = [(a, b) for a, b in zip(*out) if a != b]
        print(out[0][-1], "|", out[1][-1], "| equal" if out[0] == out[1] else "| DIFFERENT: " + str(diff[:2]))
        return out[0] != out[1]
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())

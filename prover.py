"""Stage 1: the contracts in verus/ woven into the functions extracted from /repo, discharged by Verus.

    rustc -Zunpretty=expanded   the crate's own source with its macros expanded
    weaver/                     prints each function in Verus' dialect of Rust (see DESIGN.md for what it rewrites)
    tools/weave.py              puts the contracts, invariants and ghost code next to it
    verus                       discharges the obligations

A function whose obligations are not discharged is a violation; a function that cannot be brought before the verifier any
more (an anchor of its annotations is gone, or it uses something the extraction does not know) is assumed in this run and
named in the evidence as undecided: for it the bounded stage decides alone.
"""
import fcntl, glob, hashlib, json, os, re, subprocess, sys, time
from collections import Counter

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, os.path.join(VERIF, "tools"))
import weave  # noqa: E402

PRELUDES = ["p1_math", "p2_std", "p3_codec", "p4_list", "p5_ext", "p6_bits", "p7_serde", "p8_derive"]
CONTRACTS = ["core", "builder", "list", "tuples", "basic", "maps", "misc", "bitfield"]
# the derive macros: what they generate for the definitions in derive/, and their selector function
DERIVED = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C15", "C17"]
TEXTS = os.path.join(VERIF, "verus", "texts.json")
KNOWN = os.path.join(VERIF, "verus", "known.txt")
LOCALS = os.path.join(VERIF, "verus", "locals.json")
SHAPES = os.path.join(VERIF, "verus", "shapes.json")
HEAD = """#![allow(unused, non_camel_case_types, non_snake_case)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;"""
FAILED = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
          "possible arithmetic underflow/overflow", "possible division by zero", "decreases not satisfied", "unreachable",
          "possible bit shift underflow/overflow", "recursive function", "could not prove termination", "assert_by", "loop",
          "unable to prove", "constructed value may fail", "cannot show", "type invariant")


def env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:/opt/veriftools/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", RUST_MIN_STACK="1000000000")
    for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "RUSTC_WRAPPER", "RUSTC", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN"):
        e.pop(k, None)
    return e


def cargo_env(target):
    e = env()
    e.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_TARGET_DIR=os.path.join(BUILD, target))
    return e


class Undecided(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def weaver():
    p = sh(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(VERIF, "weaver"), env=cargo_env("weaver"))
    if p.returncode != 0:
        raise Undecided("the extraction does not build: " + p.stderr[-1500:])
    return os.path.join(BUILD, "weaver", "debug", "weaver")


def expand():
    """/repo's library with its macros expanded"""
    e = cargo_env("expand")
    e["RUSTC_BOOTSTRAP"] = "1"
    p = sh(["cargo", "rustc", "--offline", "--lib", "--features", "arbitrary", "--", "-Zunpretty=expanded"],
           cwd=os.path.join(REPO, "ssz"), env=e)
    if p.returncode != 0 or "pub trait Encode" not in p.stdout:
        raise Undecided("cannot expand the source: " + p.stderr[-1500:])
    return p.stdout


def expand_derive():
    """the definitions in derive/ with the derive macros of /repo applied, and the source of the macros themselves"""
    e = cargo_env("expand")
    e["RUSTC_BOOTSTRAP"] = "1"
    out = []
    for d, probe in ((os.path.join(VERIF, "derive"), "DvC1"), (os.path.join(REPO, "ssz_derive"), "compute_union_selectors")):
        p = sh(["cargo", "rustc", "--offline", "--lib", "--", "-Zunpretty=expanded"], cwd=d, env=e)
        if p.returncode != 0 or probe not in p.stdout:
            raise Undecided("cannot expand the derived code: " + p.stderr[-1500:])
        out.append(p.stdout)
    return out


def extract(wv, source, name):
    f = os.path.join(BUILD, name + ".rs")
    with open(f, "w") as fh:
        fh.write(source)
    p = sh([wv, f] + [KNOWN] * os.path.exists(KNOWN))
    os.remove(f)
    if p.returncode != 0:
        raise Undecided("extraction failed: " + p.stderr[-1500:])
    return json.loads(p.stdout)


def prepare(derived=True, recording=False):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "prover.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        wv = weaver()
        items = weave.Items(extract(wv, expand(), f"expanded-{os.getpid()}"))
        items.derived, items.consts = None, []
        if derived:
            try:
                for c, s in zip(("derive", "ssz_derive"), expand_derive()):
                    items.merge(extract(wv, s, f"{c}-{os.getpid()}"), c)
            except Undecided as x:
                items.derived = str(x)
        if os.path.exists(KNOWN) and not recording:
            now, known = Counter(items.raw), Counter(open(KNOWN).read().splitlines())
            twice = [k for k in now if "::" not in k and known.get(k) and now[k] > known[k]]
            if twice:
                raise Undecided("two functions of one name: " + ", ".join(twice))
            items.consts = [k[6:] for k in now if k.startswith("const ") and k not in known]
        return items


def contracts(derived=True):
    """[(module, entries)], {function: entry}"""
    mods, byfn = [], {}
    for c in CONTRACTS + ["derive"] * derived:
        p = os.path.join(VERIF, "verus", "contracts", c + ".vc")
        es = weave.parse(open(p).read(), os.path.basename(p))
        for e in es:
            if e.kind in ("fn", "again"):
                byfn[e.key] = e
        mods += weave.split(c, es)
    return mods, byfn


BY_NAME = {"is_ssz_fixed_len": "C01 C02 C03 C04 C07 C10", "ssz_fixed_len": "C01 C02 C03 C04 C07 C10", "ssz_bytes_len": "C07",
           "ssz_append": "C01 C03 C07 C10", "as_ssz_bytes": "C01 C03 C07 C10", "from_ssz_bytes": "C01 C02 C04 C05 C06 C07"}


def props_of(e, key=None):
    t = next((a for n, a, _ in e.sect if n == "props"), None) if e is not None else None
    if t is None:
        t = BY_NAME.get((key or e.key).rsplit("::", 1)[-1])
    return t.split() if t else None


def text_of(items, key):
    f = items.fn(key)
    return hashlib.sha256(json.dumps(f, sort_keys=True).encode()).hexdigest()[:16] if f is not None else None


def shape(f):
    """what the annotations of a function hang on: its loops and closures"""
    return [[l["kind"] for l in f.get("loops") or []], len(f.get("closures") or [])]


class Program:
    def __init__(self, items, mods, byfn, assume, smoke=None, smoke_end=None):
        out = weave.Out(assume)
        out.smoke, out.smoke_end = smoke, smoke_end
        out.locals = json.load(open(LOCALS)) if os.path.exists(LOCALS) else {}
        out.add(HEAD)
        self.modof, self.nested = {}, {}
        for m in PRELUDES:
            out.add(f"pub mod m_{m} {{ use super::*;")
            out.add(open(os.path.join(VERIF, "verus", m + ".rs")).read())
            out.add("}\npub use m_%s::*;" % m)
        for m, es in mods:
            n = len(out.bodies)
            m, *more = m.split()        # name [private] [modules inside it with functions to verify]
            private = "private" in more
            self.nested[m] = [f"{m}::{x}" for x in more if x != "private"]
            out.add(f"pub mod m_{m} {{ use super::*;")
            weave.weave_module(es, items, out, [], byfn)
            out.add("proof fn v_canary() ensures false {}\n}" + (f"\npub use m_{m}::*;" if not private else ""))
            for k in out.bodies[n:]:
                self.modof[k] = m
        fresh = [items.by[("const", k)] for k in items.consts if ("const", k) in items.by]
        fresh = [c for c in fresh if c["ty"] in ("usize", "u8", "u16", "u32", "u64", "bool")]
        if fresh:
            out.add("pub mod m_fresh { use super::*;")
            for c in fresh:
                out.add(f"pub const {c['key']}: {c['ty']} = {c['expr']};", ("const " + c["key"], None, None, None))
            out.add("}\npub use m_fresh::*;")
        out.add("}\nfn main() {}")
        self.out = out
        self.assume = out.assume

    def place(self, d):
        """the function a diagnostic belongs to: (key, in the extracted code?)"""
        best = None
        for s in d["spans"] if is_failed(d) else sorted(d["spans"], key=lambda s: not s.get("is_primary")):
            if s.get("label") in ("failed precondition", "failed this postcondition") and len(d["spans"]) > 1:
                continue
            n = s["line_start"] - 1
            if 0 <= n < len(self.out.map):
                t = self.out.map[n]
                if t is not None and t[0] and len(t) > 3 and t[3] in ("body", "spec"):
                    return t[0], True
                for k in range(n, max(0, n - 400), -1):
                    m = re.match(r"\s*(?:pub |broadcast |open |closed |proof |exec |axiom |spec )*fn (\w+)", self.out.lines[k])
                    if m:
                        best = best or m.group(1)
                        break
        return best, False


def verus(prog, path, only, extra=()):
    with open(path, "w") as f:
        f.write(prog.out.text())
    cmd = ["verus", path, "--triggers-mode", "silent", "--multiple-errors", "2", "--error-format=json", "--output-json", "--time-expanded",
           "--num-threads", "8"] + list(extra)
    for m in only or []:
        for x in [m] + prog.nested.get(m, []):
            cmd += ["--verify-only-module", "m_" + x]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env(), timeout=max(20, min(400, DEADLINE - time.time())))
    except subprocess.TimeoutExpired:
        raise Undecided("the verifier did not end in time")
    diags = []
    for l in p.stderr.splitlines():
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") == "error" and not d["message"].startswith("aborting"):
                diags.append(d)
    try:
        res = json.loads(p.stdout)
    except ValueError:
        res = {}
    return res, diags, cmd, p.stderr


DEADLINE = float("inf")


def breakdown(res):
    fs = {}
    try:
        for m in res["times-ms"]["smt"]["smt-run-module-times"]:
            for f in m.get("function-breakdown", []):
                fs.setdefault(f["function"], []).append(f)
    except KeyError:
        pass
    return fs


SKIPPED = {"Decode for Anonymous::from_ssz_bytes"}      # not nameable outside the crate, and never called: its body is `unreachable!`
SMOKE = "assert(false); // v_smoke\n"


def vacuous(items, mods, byfn, assume, only, path, end=False):
    """the functions in which `false` is provable at the start (their precondition is contradictory) or the end (a contract they
    rely on is); and how many were looked at"""
    prog = Program(items, mods, byfn, assume, *((None, SMOKE) if end else (SMOKE, None)))
    res, diags, _, err = verus(prog, path, PRELUDES + only)
    if not breakdown(res):
        raise Undecided("no result from the verifier: " + err[-600:])
    hit = set()
    for d in diags:
        if "rlimit" in d["message"]:
            hit.add(prog.place(d)[0])
        for s in d["spans"]:
            n = s["line_start"] - 1
            if 0 <= n < len(prog.out.lines) and "v_smoke" in prog.out.lines[n]:
                hit.add(prog.out.map[n][0])
    texts = json.load(open(TEXTS)) if os.path.exists(TEXTS) else {}
    ks = [k for k in prog.out.bodies if prog.modof.get(k) in only and k not in prog.assume and k not in SKIPPED
          and (not end or texts.get(k) == text_of(items, k))]
    return [k for k in ks if k not in hit], len(ks)


def is_failed(d):
    return any(d["message"].startswith(x) or x in d["message"] for x in FAILED)


def run(prop, thorough=False):
    global DEADLINE
    t0 = time.time()
    DEADLINE = t0 + (3000 if thorough else 740)
    try:
        return _run(prop, thorough, t0)
    except Undecided as x:
        return {"status": "undecided", "failed": [], "coverage": {"proof_status": "undecided: " + str(x)[:600], "obligations": 0, "discharged": 0,
                "checker_cmd": "verus", "trusted_base": []}, "assumptions": [], "undecided": {"*": str(x)[:600]}}
    except weave.Lost as x:
        return {"status": "undecided", "failed": [], "coverage": {"proof_status": "undecided: " + str(x)[:600], "obligations": 0, "discharged": 0,
                "checker_cmd": "verus", "trusted_base": []}, "assumptions": [], "undecided": {"*": str(x)[:600]}}


def modules_for(prop, mods, byfn, items):
    sel = []
    for m, es in mods:
        ps = set()
        for e in es:
            if e.kind == "props":
                ps |= set(e.key.split())
            if e.kind in ("fn", "again"):
                ps |= set(props_of(e) or [])
        if prop is None or prop in ps:
            sel.append(m.split()[0])
    return sel


def relevant(prop, key, byfn):
    e = byfn.get(key)
    p = props_of(e, key)
    return prop is None or p is None or prop in p


def _run(prop, thorough, t0):
    derived = prop is None or prop in DERIVED
    items = prepare(derived)
    mods, byfn = contracts(derived and items.derived is None)
    shapes = json.load(open(SHAPES)) if os.path.exists(SHAPES) else {}
    only = modules_for(prop, mods, byfn, items)
    if not only:
        return None
    path = os.path.join(BUILD, f"woven-{prop}.rs")
    assume = {}
    for _ in range(6):
        prog = Program(items, mods, byfn, assume)
        res, diags, cmd, err = verus(prog, path, PRELUDES + only)
        tool = [d for d in diags if not is_failed(d) and "rlimit" not in d["message"]]
        new = {}
        if not tool and not breakdown(res):
            # the verifier crashed: on a function that is not the one the contracts were written for
            texts = json.load(open(TEXTS)) if os.path.exists(TEXTS) else {}
            new = {k: "the verifier crashes on it" for k in prog.out.bodies if texts.get(k) != text_of(items, k) and k not in prog.assume}
            if not new:
                raise Undecided("no result from the verifier: " + err[-600:])
        elif not tool:
            break
        for d in tool:
            k, code = prog.place(d)
            if code:
                new[k] = d["message"][:300]
        if not new:
            raise Undecided("verifier: " + "; ".join(d["message"] for d in tool)[:600] + err[-400:] * (not tool))
        assume = dict(prog.assume, **new)
    else:
        raise Undecided("the verifier rejects the extracted code")
    fs = breakdown(res)
    if not fs:
        raise Undecided("no result from the verifier: " + err[-600:])
    assume = prog.assume

    # what failed
    failed, undecided, canaries = {}, dict(assume), set()
    limit = {}
    for d in diags:
        k, code = prog.place(d)
        if not code and k == "v_canary":
            canaries.add(d["spans"][0]["line_start"])
            continue
        if "rlimit" in d["message"]:
            limit[k] = (d, code)
        else:
            failed.setdefault(k, []).append((d, code))
    # a failure that goes away under another random seed or a larger limit is not one
    retry = set(failed) | set(limit)
    first = sorted(x or "?" for x in retry)
    if retry:
        for seed in (1, 2):
            if time.time() > DEADLINE - 60:
                raise Undecided("out of time while retrying")
            res2, diags2, _, _ = verus(prog, path, PRELUDES + sorted({prog.modof[k] for k in retry if k in prog.modof}),
                                       ["--rlimit", "40", "--smt-option", f"smt.random_seed={seed}", "--smt-option", f"sat.random_seed={seed}"])
            if not breakdown(res2):
                continue
            still = {}
            for d in diags2:
                k, code = prog.place(d)
                still.setdefault(k, []).append(d)
            for k in list(retry):
                if k not in still:
                    retry.discard(k)
                    failed.pop(k, None)
                    limit.pop(k, None)
                elif k in limit and all("rlimit" not in d["message"] for d in still[k]):
                    failed.setdefault(k, []).append((still[k][0], limit[k][1]))
                    limit.pop(k)
            if not retry:
                break
    for k, (d, code) in limit.items():
        undecided[k] = "resource limit exceeded"
    alarms = []
    for k, ds in failed.items():
        code = any(c for _, c in ds)
        f = items.fn(k) if code else None
        msg = "; ".join(dict.fromkeys(d["message"] + at(prog, d) for d, _ in ds))[:900]
        if not code:
            undecided[k or "?"] = "lemma no longer holds: " + msg
        elif k in shapes and f is not None and shape(f) != shapes[k]:
            undecided[k] = "its loops or closures are not the annotated ones any more, and: " + msg
        elif all(only_witness(d) for d, _ in ds):
            undecided[k] = "the chosen witness of reachability does not generate a value any more: " + msg
        elif relevant(prop, k, byfn):
            alarms.append({"function": k, "message": msg, "output": "".join(d.get("rendered") or "" for d, _ in ds)[:3000]})
        else:
            undecided[k] = "fails, but says nothing about this property: " + msg
    todo = Counter(k.rsplit("::", 1)[-1].split(" as ")[-1].removesuffix("@default") for k in prog.out.bodies
                   if prog.modof.get(k) in only and k not in assume and k not in SKIPPED)
    seen = Counter()
    for f, l in fs.items():
        seen[f.rsplit("::", 1)[-1]] += len(l)
    lost = [k for k in todo if seen[k] < todo[k]]
    if lost:
        raise Undecided("functions the verifier did not report on: " + ", ".join(lost)[:400])
    ncan = sum(1 for m, _ in mods if m.split()[0] in only)
    if len(canaries) < ncan:
        raise Undecided(f"vacuous: `ensures false` is provable in {ncan - len(canaries)} of {ncan} modules")
    smoked = 0
    for end in (False, True) if thorough else ():
        bad, num = vacuous(items, mods, byfn, assume, only, path[:-3] + "-smoke.rs", end)
        smoked += num
        if bad:
            raise Undecided(f"vacuous: `false` is provable at the {'end' if end else 'start'} of " + ", ".join(bad)[:400])
    n = ok = 0
    ms = 0.0
    under = sorted(k for k in prog.out.bodies if prog.modof.get(k) in only and relevant(prop, k, byfn))
    for f, l in fs.items():
        if f.endswith("::v_canary"):
            continue
        n += len(l)
        ok += sum(1 for x in l if x["success"])
        ms += sum(x["time-micros"] for x in l) / 1000
    ok = min(n, ok + sum(1 for k in first if k not in failed and k not in limit))
    mine = [k for k in under if k not in assume]
    if items.derived is not None:
        undecided["*derived code*"] = items.derived[:400]
    und = {k: v for k, v in undecided.items() if k.startswith("*") or relevant(prop, k, byfn)}
    trusted = trusted_base(prog)
    cov = {
        "obligations": n, "discharged": ok,
        "checker_cmd": " ".join(cmd[:1] + [os.path.relpath(path, VERIF)] + cmd[2:])[:600],
        "backend": "Verus 0.2026.09.13 (Z3)",
        "solver_ms": round(ms), "prover_wall_s": round(time.time() - t0, 1),
        "functions_under_contract": len(under), "functions": [short(k) for k in mine][:220],
        "retried": first[:10],
        "modules": only, "canaries_refuted": len(canaries), "false_refuted_at_start_or_end_of_functions": smoked,
        "proof_status": "discharged" if not alarms and not und else ("failed" if alarms else "degraded"),
        "undecided_functions": {short(k): v[:200] for k, v in list(und.items())[:30]},
        "obligation_unit": "one verification condition per function, lemma, loop-isolated query or const of the woven program",
        "trusted_base": trusted,
    }
    return {"status": cov["proof_status"], "failed": alarms, "coverage": cov, "assumptions": ASSUMPTIONS, "undecided": und}


def only_witness(d):
    """an existence claim proved by a fixed input: the claim may hold for another one"""
    return any(s.get("label") == "failed this postcondition" and any("// witness" in t["text"] for t in s.get("text") or []) for s in d["spans"])


def at(prog, d):
    """the clause and the code line of a diagnostic"""
    s = ""
    for sp in d["spans"]:
        n = sp["line_start"] - 1
        if 0 <= n < len(prog.out.lines) and sp.get("text"):
            t = " ".join(x["text"].strip() for x in sp["text"][:3])[:160]
            s += f" [{sp.get('label') or 'at'}: {t}]"
    return s


def short(k):
    return k if len(k) < 90 else k[:87] + "..."


def trusted_base(prog):
    """the assumed contracts: bodiless shadow functions and axioms of the woven program"""
    t, lines = [], prog.out.lines
    for i, l in enumerate(lines):
        if "external_body" in l or re.match(r"\s*(pub )?(broadcast )?axiom fn", l):
            for j in range(i, min(i + 5, len(lines))):
                m = re.search(r"(?:axiom )?fn (\w+)|struct (\w+)", lines[j])
                if m:
                    t.append(m.group(1) or m.group(2))
                    break
    c = dict.fromkeys(x for x in t if x)
    return ["assumed contract: " + ", ".join(list(c))[:4000],
            "the extraction (rustc macro expansion, weaver/, tools/weave.py) and the rewrites listed in DESIGN.md",
            "Verus, vstd, rustc and Z3"]


ASSUMPTIONS = [
    "usize is 64 bits wide; no slice is longer than 2^59 bytes",
    "the standard library, smallvec, itertools and alloy behave as the contracts in verus/p2_std.rs say",
    "heap use is accounted for through the reservations (with_capacity, reserve, from_elem) only; collections grow with the items pushed",
]


def record():
    """writes verus/shapes.json for the current tree"""
    if os.path.exists(KNOWN):
        os.remove(KNOWN)
    items = prepare(recording=True)
    mods, byfn = contracts()
    open(KNOWN, "w").write("\n".join(sorted(items.raw)) + "\n")
    prog = Program(items, mods, byfn, {})
    assert not prog.assume, prog.assume
    s = {}
    for k in prog.out.bodies:
        e = byfn.get(k)
        if e is not None and items.fn(k) is not None and any(n in ("loop", "closure", "before", "body", "end", "after", "cbody", "cend", "at") for n, _, _ in e.sect):
            s[k] = shape(items.fn(k))
    json.dump({k: weave.names(items.fn(k)) for k in prog.out.bodies if byfn.get(k) is not None and items.fn(k) is not None}, open(LOCALS, "w"), indent=0, sort_keys=True)
    json.dump({k: text_of(items, k) for k in prog.out.bodies}, open(TEXTS, "w"), indent=0, sort_keys=True)
    json.dump(s, open(SHAPES, "w"), indent=0, sort_keys=True)


if __name__ == "__main__":
    if sys.argv[1:] == ["--record"]:
        record()
    else:
        r = run(sys.argv[1] if len(sys.argv) > 1 else None)
        print(json.dumps(r, indent=1))

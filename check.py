#!/usr/bin/env python3
"""check.py ID -- decide one property on /repo's current working tree.

Stage 1 (prover.py): contracts woven into the code extracted from /repo are discharged by Verus.
Stage 2 (harness/): bounded search for a concrete failing input on the real crate; replays what stage 1 reports.
"""
import fcntl, hashlib, json, os, subprocess, sys, time, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
TARGET = os.path.join(BUILD, "harness")
HARNESS = os.path.join(TARGET, "debug", "ssz-harness")
sys.path.insert(0, VERIF)
import defs  # noqa: E402

try:
    import prover
except ImportError:
    prover = None

T0 = time.time()


def env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:/opt/veriftools/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    e.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             CARGO_INCREMENTAL="0", CARGO_TARGET_DIR=TARGET)
    for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "RUSTC_WRAPPER", "RUSTC"):
        e.pop(k, None)
    return e


def tree_hash(roots):
    h = hashlib.sha256()
    for root in roots:
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "build", "__pycache__"))
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


def build_harness():
    """Returns (ok, compiler output). Rebuilds whenever the content of /repo or of the harness differs."""
    os.makedirs(BUILD, exist_ok=True)
    stamp = os.path.join(BUILD, "harness.stamp")
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = tree_hash([REPO, os.path.join(VERIF, "harness")])
        if os.path.exists(stamp) and open(stamp).read() == h and os.path.exists(HARNESS):
            return True, ""
        fp = os.path.join(TARGET, "debug", ".fingerprint")
        if os.path.isdir(fp):  # cargo compares mtimes; content is what counts here
            for n in os.listdir(fp):
                if n.startswith(("ethereum_ssz", "ssz-harness")):
                    shutil.rmtree(os.path.join(fp, n))
        if os.path.exists(stamp):
            os.remove(stamp)
        p = subprocess.run(["cargo", "build", "--offline"], cwd=os.path.join(VERIF, "harness"), env=env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            with open(stamp, "w") as f:
                f.write(h)
        return p.returncode == 0, p.stdout


def newest(prefix, suffix):
    d = os.path.join(TARGET, "debug", "deps")
    c = [os.path.join(d, n) for n in os.listdir(d) if n.startswith(prefix) and n.endswith(suffix)]
    return max(c, key=os.path.getmtime) if c else None


GENERATED = ("C01", "C02", "C03", "C04", "C05", "C07", "C08", "C10", "C15")


def check_definitions(prop, seed=1):
    """Definitions that must be rejected / accepted at compile time (C08, C15), and generated definitions, compiled and run.
    Returns (count, failures)."""
    ssz, der = newest("libssz-", ".rmeta"), newest("libssz_derive-", ".so")
    work = os.path.join(BUILD, "defs")
    os.makedirs(work, exist_ok=True)

    def one(item):
        name, src, want = item
        f = os.path.join(work, name.replace("/", "_") + ".rs")
        with open(f, "w") as fh:
            fh.write(defs.HEAD + src + "\n")
        p = subprocess.run(["rustc", "--edition", "2021", "--crate-type", "lib", "--emit", "metadata", "-o", f[:-3] + ".rmeta",
                            "--extern", "ssz=" + ssz, "--extern", "ssz_derive=" + der,
                            "-L", "dependency=" + os.path.join(TARGET, "debug", "deps"), f],
                           env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        ok = p.returncode == 0
        if ok != want:
            return {"case": "definition/" + name, "input": src, "why":
                    ("definition without SSZ meaning is accepted" if ok else "valid definition is rejected: " + p.stdout[-800:])}
        return None

    def counts(_):
        f = os.path.join(work, "counts")
        with open(f + ".rs", "w") as fh:
            fh.write(defs.counts(seed))
        p = subprocess.run(["rustc", "--edition", "2021", "-o", f, "--extern", "ssz=" + newest("libssz-", ".rlib"), "--extern", "ssz_derive=" + der,
                            "-L", "dependency=" + os.path.join(TARGET, "debug", "deps"), f + ".rs"],
                           env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        built = p.returncode == 0
        if built:
            try:
                p = subprocess.run([f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
            except subprocess.TimeoutExpired:
                return {"case": "counts/program", "input": "", "why": "does not end"}
        l = [x.split(":", 1)[1] for x in p.stdout.splitlines() if x.startswith("FAIL ") and prop in x.split(":")[0].split(" ")]
        if l or (p.returncode and prop in ("C08", "C15")) or (prop == "C05" and "panicked at" in p.stdout):
            w = (l[0] if l else "program -").split(" ")
            w.insert(0, "")
            return {"case": "counts/" + w[1], "input": " ".join(w[2:])[:200], "why": "generated definitions: " + (l[0] if l else p.stdout[-800:])}
        return None if built else "not built"

    n = 256 + 96 + 64 + 29 + 200
    if prop not in ("C08", "C15"):
        r = counts(None)
        return (0, []) if r == "not built" else (n, [r] if r else [])
    items = [(k, s, False) for k, s in defs.REJECT.items()] + [(k, s, True) for k, s in defs.ACCEPT.items()]
    with ThreadPoolExecutor(8) as ex:
        c = ex.submit(counts, None)  # not built: a failure for these properties
        fails = [x for x in ex.map(one, items) if x] + [x for x in [c.result()] if x]
    return len(items) + n, fails


def run_harness(prop, seed, rounds, secs):
    out = os.path.join(BUILD, f"run-{prop}.json")
    if os.path.exists(out):
        os.remove(out)
    try:
        p = subprocess.run([HARNESS, "run", "--prop", prop, "--seed", str(seed), "--rounds", str(rounds), "--secs", str(secs),
                            "--out", out], env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=secs + 120)
    except subprocess.TimeoutExpired:
        return None, [{"case": "?", "input": "", "why": "harness did not end"}]
    if os.path.exists(out):
        d = json.load(open(out))
        return d, d["failures"]
    for line in p.stdout.splitlines():
        w = line.split(" ")
        if w[0] in ("OVERCAP", "HANG", "CRASH"):
            why = {"OVERCAP": "allocates more than 256 MiB", "HANG": "does not end within 20 s", "CRASH": "aborts the process"}[w[0]]
            name = " ".join(w[1:-1])
            return None, [{"property": prop, "case": name, "input": w[-1], "why": why}]
    return None, [{"property": prop, "case": "?", "input": "", "why": f"harness died (exit {p.returncode}): {p.stdout[-500:]}"}]


def known_findings(prop):
    res = []
    path = os.path.join(VERIF, "known_findings.txt")
    for line in open(path):
        line = line.strip()
        if line.startswith("finding:"):
            d = dict(x.split("=", 1) for x in line[8:].split("  ") if "=" in x)
            d = {k.strip(): v.strip() for k, v in d.items()}
            if d.get("property") == prop:
                res.append(d)
    return res


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    thorough = tier == "thorough"
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)

    pool = ThreadPoolExecutor(1)
    fut = pool.submit(prover.run, prop, thorough) if prover else None

    ok, log = build_harness()
    fails, stats, ndefs = [], None, 0
    if not ok:
        print(log[-4000:])
        # does the crate itself still build?  then a definition of the harness corpus is no longer accepted
        e = env()
        e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "crate")
        q = subprocess.run(["cargo", "build", "--offline", "--manifest-path", os.path.join(REPO, "Cargo.toml")], env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if q.returncode != 0:
            print("the crate itself does not build")
            sys.exit(2)
        fails.append({"property": prop, "case": "corpus/build", "input": "", "why": "a valid type definition or use of the public API no longer compiles:\n" + log[-3000:]})
        if prop not in ("C08", "C15"):
            # no inputs can be tried; what the proof says still counts
            print("the harness does not build against the current tree")
            fails = []
            if not fut or fut.result()["status"] in ("undecided", "degraded"):
                sys.exit(2)
    else:
        with ThreadPoolExecutor(1) as ex:
            df = ex.submit(check_definitions, prop, seed) if prop in GENERATED else None
            stats, fails = run_harness(prop, seed, 40 if thorough else 1, 600 if thorough else 240)
            if df:
                ndefs, fails = df.result()[0], fails + df.result()[1]
    proof = fut.result() if fut else None

    text_run = None
    if proof and thorough and not proof["failed"]:
        # the text that was verified, compiled and run next to the crate
        try:
            p = subprocess.run([sys.executable, os.path.join(VERIF, "tools", "woven", "run.py"), "60"], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=1500)
            text_run = (p.returncode, p.stdout.strip()[-600:])
        except subprocess.TimeoutExpired:
            text_run = (2, "did not end in time")
        if text_run[0] == 1 and "DIFFERENT" in text_run[1]:
            proof["status"] = "undecided"    # what was proved is not what runs
            print("the extracted text behaves differently from the crate: " + text_run[1])

    known = known_findings(prop)
    report = []
    for f in fails:
        k = [x for x in known if x.get("case") == f["case"] and x.get("input", f["input"]) == f["input"]]
        if k:
            print(f"KNOWN-FINDING: property={prop} {f['case']} {f['input']}: {f['why']}")
        else:
            report.append(f)

    failed_obl = proof["failed"] if proof else []
    violation = bool(report) or bool(failed_obl)
    cov = {
        "evaluations": (stats or {}).get("evaluations", 0) + ndefs,
        "distinct_nontrivial": (stats or {}).get("distinct", 0) + ndefs,
        "rule": "bounded part: every case is a deterministic check of the real crate on one input; inputs are the exhaustive short byte strings, "
                "schema-aware mutated encodings and generated values (seeded); non-trivial = non-empty input; distinct (case, input) pairs are counted"
                + ("; plus the generated definitions, compiled and run (for C08 and C15 also those that must be rejected or accepted, compiled one by one)" if ndefs else ""),
        "samples": (stats or {}).get("samples", [])[:8] or [json.dumps(f)[:300] for f in fails[:3]],
        "bounded_cases": (stats or {}).get("cases", 0),
        "bounded_cut_by_time": (stats or {}).get("cut_by_time", False),
    }
    if text_run:
        cov["verified_text_run_against_crate"] = text_run[1]
    level = "exploration"
    assumptions = []
    if proof:
        cov.update(proof["coverage"])
        assumptions = proof["assumptions"]
        if proof["status"] != "undecided":
            level = next(c["level"] for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"] if c["property"] == prop)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions,
          "wall_s": round(time.time() - T0, 2), "violations": len(report) + len(failed_obl)}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    if violation:
        path = os.path.join(BUILD, "replay", f"{prop}.json")
        rep = {"property": prop, "concrete": report, "failed_obligations": failed_obl,
               "replay_cmd": [f"{HARNESS} one '{f['case']}' {f['input']}" for f in report if "/" in f["case"] and not f["case"].startswith(("definition/", "corpus/", "counts/"))]}
        with open(path, "w") as f:
            json.dump(rep, f, indent=1)
        for f in report[:5]:
            print(f"FAILING INPUT {f['case']} {f['input'][:400]}: {f['why'][:600]}")
        for o in failed_obl[:10]:
            print(f"FAILED OBLIGATION {o['function']}: {o['message']}")
        print(f"VIOLATION property={prop} replay={path}" + ("" if report else " no-failing-input-found"))
        sys.exit(1)
    if proof:
        print(f"{prop}: {cov.get('obligations')} obligations, {cov.get('discharged')} discharged; status {proof['status']}")
    print(f"{prop}: held; bounded: {cov['evaluations']} evaluations; {ev['wall_s']} s")


if __name__ == "__main__":
    main()

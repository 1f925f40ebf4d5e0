"""Small changes to the source, to find out what the checks do not see.

  python3 tools/mutate.py survivors OUT.json [WORKERS]   which of them build and pass the tests (in copies under /tmp)
  python3 tools/mutate.py checks IN.json OUT.jsonl       what the prover and the harness say to each survivor (in /repo, undone)
"""
import json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

VERIF = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
FILES = ["ssz/src/bitfield.rs", "ssz/src/bitfield/bitvector_dynamic.rs", "ssz/src/decode.rs", "ssz/src/decode/impls.rs",
         "ssz/src/decode/try_from_iter.rs", "ssz/src/encode.rs", "ssz/src/encode/impls.rs", "ssz/src/legacy.rs", "ssz/src/lib.rs",
         "ssz/src/union_selector.rs", "ssz_derive/src/lib.rs"]
OPS = [(r"<=", ["<", "=="]), (r"(?<=\s)<(?=\s)", ["<=", ">"]), (r">=", [">"]), (r"(?<=\s)>(?=\s)", [">=", "<"]), (r"==", ["!="]), (r"!=", ["=="]),
       (r"&&", ["||"]), (r"\|\|(?=\s)", ["&&"]), (r"(?<=\s)\+(?=\s)", ["-"]), (r"(?<=\s)-(?=\s)", ["+"]), (r"(?<=\s)\*(?=\s)", ["+"]),
       (r"(?<=\s)/(?=\s)", ["%"]), (r"(?<=\s)%(?=\s)", ["/"]), (r"(?<=\s)&(?=\s)", ["|"]), (r"(?<=\s)\|(?=\s)(?!\|)", ["&"]), (r"<<", [">>"]), (r"\|=", ["&=", "="]),
       (r"&=", ["|="]), (r"\+=", ["-=", "="]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"(?<=[\s(])!(?=[\w(<])", [""]),
       (r"\bmin\b", ["max"]), (r"\bmax\b", ["min"]), (r"\bfirst\b", ["last"]), (r"\blast\b", ["first"]), (r"(?<![\w.])\d+(?:usize|u8)?(?![\w.]|\s*->)", ["@inc", "@dec"]),
       (r"\.rev\(\)", [""]), (r"saturating_add", ["wrapping_add"]), (r"checked_add\(1\)", ["checked_add(0)", "checked_add(2)"]),
       (r"leading_zeros", ["trailing_zeros"]), (r"\.is_empty\(\)", [".is_empty() == false"]), (r"skip_serializing", ["skip_deserializing"]),
       (r"skip_deserializing", ["skip_serializing"]), (r"::encode\b", ["::decode"]), (r"1\.\.", ["0.."]), (r"\bn\.\.", ["0.."])]


def code_lines(src):
    """the line numbers of non-test code"""
    out, skip = [], False
    for n, l in enumerate(src.split("\n")):
        if re.match(r"#\[cfg\(test\)\]", l) or re.match(r"\s+#\[cfg\(test\)\]", l):
            break
        s = l.strip()
        if not s or s.startswith("//") or s.startswith("#[") or s.startswith("use ") or s.startswith("mod ") or s.startswith("pub mod") or re.match(r"\(\d+\) -> \w|Tuple\d+|impl_\w+_for_uint!", s):
            continue
        out.append(n)
    return out


def mutants():
    for f in FILES:
        src = open(os.path.join("/repo", f)).read()
        lines = src.split("\n")
        for n in code_lines(src):
            l = lines[n]
            seen = set()
            for rx, reps in OPS:
                for m in re.finditer(rx, l):
                    if "//" in l[:m.start()] or l[:m.start()].count('"') % 2:
                        continue
                    for rp in reps:
                        t = m.group(0)
                        if rp in ("@inc", "@dec"):
                            d = re.match(r"\d+", t).group(0)
                            v = int(d) + (1 if rp == "@inc" else -1)
                            if v < 0:
                                continue
                            rp = str(v) + t[len(d):]
                        new = l[:m.start()] + rp + l[m.end():]
                        if new != l and new not in seen:
                            seen.add(new)
                            yield {"file": f, "line": n, "old": l, "new": new}
            s = l.strip()
            if re.match(r"[\w.*#\[\]]+(\(.*\)|\s[&|+-]?=\s.*)\??;$", s) and not s.startswith("return") and not s.startswith("let"):
                yield {"file": f, "line": n, "old": l, "new": ""}
            if re.match(r"return .*;$", s):
                yield {"file": f, "line": n, "old": l, "new": ""}


def env():
    sys.path.insert(0, VERIF)
    import prover
    e = prover.env()
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    return e


def survivors(out, workers):
    ms = list(mutants())
    print(len(ms), "mutants", flush=True)
    q = Queue()
    for w in range(workers):
        d = f"/tmp/mut{w}"
        if not os.path.exists(d):
            shutil.copytree("/repo", d, symlinks=True)
        q.put(d)
    e = env()
    res = []

    def one(m):
        d = q.get()
        try:
            p = os.path.join(d, m["file"])
            src = open(os.path.join("/repo", m["file"])).read()
            lines = src.split("\n")
            assert lines[m["line"]] == m["old"]
            lines[m["line"]] = m["new"]
            open(p, "w").write("\n".join(lines))
            try:
                r = subprocess.run(["cargo", "test", "--offline", "--workspace", "--features", "arbitrary", "-q", "-j", "2"], cwd=d, env=e,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=180)
                m["status"] = "survives" if r.returncode == 0 else ("build" if "could not compile" in r.stdout else "killed")
            except subprocess.TimeoutExpired:
                m["status"] = "timeout"
            open(p, "w").write(src)
        finally:
            q.put(d)
        res.append(m)
        if len(res) % 50 == 0:
            print(len(res), sum(x["status"] == "survives" for x in res), flush=True)
            json.dump(res, open(out, "w"), indent=0)

    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(one, ms))
    json.dump(res, open(out, "w"), indent=0)


PROPS = [f"C{n:02d}" for n in range(1, 21)]


def checks(inp, out, skip_prover=False):
    ms = [m for m in json.load(open(inp)) if m["status"] == "survives"]
    done = set()
    if os.path.exists(out):
        done = {tuple(json.loads(l)["id"]) for l in open(out)}
    for m in ms:
        i = (m["file"], m["line"], m["new"])
        if i in done:
            continue
        p = os.path.join("/repo", m["file"])
        src = open(p).read()
        lines = src.split("\n")
        assert lines[m["line"]] == m["old"]
        lines[m["line"]] = m["new"]
        t = time.time()
        try:
            open(p, "w").write("\n".join(lines))
            r = {"id": i, "old": m["old"].strip()}
            h = subprocess.run([sys.executable, "tools/harness_all.py"], cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            r["harness"] = h.stdout.strip().split("\n")[-1][-400:]
            if not skip_prover:
                v = subprocess.run([sys.executable, "prover.py"], cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
                try:
                    x = json.loads(v.stdout)
                    r["prover"] = x["status"]
                    r["failed"] = [(f["function"], f["message"][:120]) for f in x["failed"]]
                    r["undecided"] = {k: w[:100] for k, w in x["undecided"].items()}
                except ValueError:
                    r["prover"] = "crash " + v.stderr[-200:]
        finally:
            open(p, "w").write(src)
        r["s"] = round(time.time() - t)
        with open(out, "a") as fh:
            fh.write(json.dumps(r) + "\n")


if __name__ == "__main__":
    if sys.argv[1] == "survivors":
        survivors(sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 4)
    else:
        checks(sys.argv[2], sys.argv[3], "--no-prover" in sys.argv)

"""Runs edits of the source through the checks in copies of /repo and /verif under /tmp, several at a time.

  python3 tools/parallel.py refactors|seeds|mutants[=SURVIVORS.json] OUT.jsonl [--stage prover|check|harness|tests|demo] [--workers N] [--all] [--whole] [ids]

stage prover: the prover for the edit's (first) property, or with --whole for the whole program; check: the whole check of the
(first) property; harness: the bounded stage of all properties.  Appends one line per run to OUT; runs already there are skipped.
"""
import json, os, re, shutil, subprocess, sys, threading, time
from queue import Queue, Empty

VERIF = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.path.insert(0, os.path.join(VERIF, "tools"))
BASE = os.environ.get("PWBASE", "/tmp/pw")


def setup(i, src):
    d = f"{BASE}{i}"
    os.makedirs(d, exist_ok=True)
    if not os.path.exists(d + "/repo"):
        shutil.copytree("/repo", d + "/repo", symlinks=True, ignore=shutil.ignore_patterns("target"))
    subprocess.run(["git", "-C", d + "/repo", "checkout", "-q", "--", "."], check=True)
    subprocess.run(["git", "-C", d + "/repo", "fetch", "-q", "/repo", "HEAD"], check=True)
    subprocess.run(["git", "-C", d + "/repo", "reset", "-q", "--hard", "FETCH_HEAD"], check=True)
    os.makedirs(d + "/verif", exist_ok=True)
    for n in os.listdir(VERIF):
        if n in (".git", "seeded", "evidence", "__pycache__", ".verus-solver-log"):
            continue
        p, q = os.path.join(VERIF, n), os.path.join(d, "verif", n)
        if n == "build":
            if not os.path.exists(q):
                shutil.copytree(p, q, symlinks=True)
        elif os.path.isdir(p):
            shutil.rmtree(q, ignore_errors=True)
            shutil.copytree(p, q)
        else:
            shutil.copy(p, q)
    for f in ("prover.py", "check.py", "harness/Cargo.toml", "derive/Cargo.toml"):
        q = os.path.join(d, "verif", f)
        s = open(q).read().replace('"/repo', f'"{d}/repo')
        open(q, "w").write(s)
    return d


def jobs(kind, ids):
    if kind == "refactors":
        import refactors
        for k, (props, edits) in refactors.R.items():
            if not ids or k in ids:
                yield k, props, ("edits", edits)
    elif kind == "seeds":
        for k in sorted(os.listdir(os.path.join(VERIF, "seeded"))):
            if not ids or k in ids:
                d = os.path.join(VERIF, "seeded", k)
                yield k, [json.load(open(d + "/meta.json"))["property"]], ("patch", d + "/patch.diff")
    else:
        for m in json.load(open(kind.split("=")[1])):
            if m["status"] == "survives":
                k = f"{m['file']}:{m['line'] + 1}: {m['old'].strip()}  ==>  {m['new'].strip()}"
                if not ids or any(i in k for i in ids):
                    yield k, [os.environ.get("MUTPROP")], ("line", m)


def apply(d, e):
    kind, x = e
    if kind == "edits":
        for f, old, new in x:
            p = os.path.join(d, "repo", f)
            s = open(p).read()
            assert old in s, (f, old[:80])
            open(p, "w").write(s.replace(old, new, 1))
    elif kind == "patch":
        subprocess.run(["git", "-C", d + "/repo", "apply", x], check=True)
    else:
        p = os.path.join(d, "repo", x["file"])
        lines = open(p).read().split("\n")
        assert lines[x["line"]] == x["old"]
        lines[x["line"]] = x["new"]
        open(p, "w").write("\n".join(lines))


def stage(d, st, prop):
    t = time.time()
    v = d + "/verif"
    r = {}
    if st == "prover":
        p = subprocess.run([sys.executable, "prover.py"] + [prop] * (prop is not None), cwd=v, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        try:
            x = json.loads(p.stdout)
            r = {"status": x["status"], "failed": [(f["function"], f["message"][:400]) for f in x["failed"]],
                 "undecided": {k: w[:200] for k, w in x["undecided"].items()}}
        except ValueError:
            r = {"status": "crash", "err": p.stderr[-600:]}
    elif st == "tests":
        e = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true")
        p = subprocess.run(["cargo", "test", "--offline", "--workspace", "--features", "arbitrary", "-q", "-j", "3"], cwd=d + "/repo", env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        r = {"status": "pass" if p.returncode == 0 else "FAIL", "err": "" if p.returncode == 0 else p.stdout[-900:]}
    elif st == "demo":
        import mkseeds
        demo = os.path.join(VERIF, "seeded", prop)
        c = d + "/demo"
        os.makedirs(c + "/src", exist_ok=True)
        toml = mkseeds.DEMO_SH.split("<<T\n")[1].split("\nT\n")[0].replace("$repo", d + "/repo")
        open(c + "/Cargo.toml", "w").write(toml)
        shutil.copy(demo + "/demo.rs", c + "/src/main.rs")
        shutil.copy("/repo/Cargo.lock", c + "/Cargo.lock")
        e = dict(os.environ, CARGO_NET_OFFLINE="true")
        got = []
        for changed in (True, False):
            if not changed:
                subprocess.run(["git", "-C", d + "/repo", "checkout", "-q", "--", "."], check=True)
            p = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=c, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            got.append("build: " + p.stdout[-700:] if p.returncode else None)
            if p.returncode == 0:
                p = subprocess.run(["timeout", "60", "target/debug/demo"], cwd=c, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                got[-1] = p.stdout[-300:] or f"rc {p.returncode}" if p.returncode else None
        r = {"status": "ok" if got[0] and not got[0].startswith("build") and got[1] is None else "BAD", "err": f"{got[0]} | {got[1]}"}
    elif st == "check":
        p = subprocess.run([sys.executable, "check.py", prop], cwd=v, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        r = {"status": f"exit {p.returncode}", "proof": p.stdout.count("FAILED OBLIGATION"), "inputs": p.stdout.count("FAILING INPUT"),
             "nfi": "no-failing-input-found" in p.stdout, "out": p.stdout[-700:]}
    else:
        p = subprocess.run([sys.executable, "tools/harness_all.py"], cwd=v, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        r = {"status": (p.stdout.strip().split("\n") or [""])[-1][-400:]}
    r["s"] = round(time.time() - t)
    return r


def main():
    a = sys.argv[1:]
    opt = {"--stage": "prover", "--workers": "3"}
    for o in list(opt):
        if o in a:
            i = a.index(o)
            opt[o] = a[i + 1]
            del a[i:i + 2]
    every, whole = "--all" in a, "--whole" in a
    a = [x for x in a if not x.startswith("--")]
    kind, out, ids = a[0], a[1], a[2:]
    done = set()
    if os.path.exists(out):
        done = {(x["id"], x["prop"], x["stage"]) for x in map(json.loads, open(out))}
    q = Queue()
    for k, props, e in jobs(kind, ids):
        ps = [None] if whole or opt["--stage"] == "harness" else (props if every else props[:1])
        for p in ps:
            if (k, p, opt["--stage"]) not in done:
                q.put((k, p, e))
    print(q.qsize(), "runs", flush=True)
    lock = threading.Lock()

    def work(i):
        with lock:
            d = setup(i, None)
        while True:
            try:
                k, p, e = q.get_nowait()
            except Empty:
                return
            try:
                try:
                    apply(d, e)
                    r = stage(d, opt["--stage"], k if opt["--stage"] == "demo" else p)
                except Exception as x:  # noqa: BLE001
                    r = {"status": "error", "err": repr(x)[:400]}
            finally:
                subprocess.run(["git", "-C", d + "/repo", "checkout", "-q", "--", "."], check=True)
            r = dict({"id": k, "prop": p, "stage": opt["--stage"]}, **r)
            with lock:
                open(out, "a").write(json.dumps(r) + "\n")
                print(k[:120], p, r["status"], r["s"] if "s" in r else "", f"proof {r['proof']} inputs {r['inputs']}" if "proof" in r else "", r.get("failed") or "", r.get("undecided") or "", r.get("err") or "", flush=True)

    ts = [threading.Thread(target=work, args=(i,)) for i in range(int(opt["--workers"]))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


if __name__ == "__main__":
    main()

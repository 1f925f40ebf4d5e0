#!/usr/bin/env python3
"""Builds seeded/<id>/ from tools/seeds.py and validates each in a scratch copy of /repo:
compiles, stable tests pass, demo passes without and fails with the change, check of its property catches it.
  mkseeds.py [--gen] [--check] [ids...]"""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from seeds import SEEDS
from seeds2 import S as MORE
from seeds3 import S as YET
SEEDS = SEEDS + MORE + YET
DEMO_SH = r'''#!/bin/bash
# Exit 0 when the behaviour is right, non-zero when it is not.  Run with the repository as working directory.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
ethereum_ssz = { path = "$repo/ssz", features = ["arbitrary"] }
ethereum_ssz_derive = { path = "$repo/ssz_derive" }
typenum = "1"
smallvec = "1"
serde_json = "1"
arbitrary = "1"
alloy-primitives = { version = "1", default-features = false }
T
export PATH="/root/.cargo/bin:$PATH" CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true
cd "$d"
timeout 280 cargo build --offline -q 2>"$d/err" || { cat "$d/err"; exit 1; }
timeout 60 "$d/target/debug/demo"
'''
def sh(cmd, cwd=None, t=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)
def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    check = "--check" in sys.argv
    for s in SEEDS:
        if ids and s["id"] not in ids: continue
        d = os.path.join(V, "seeded", s["id"])
        work = tempfile.mkdtemp(prefix="seed")
        try:
            sh(f"cp -a /repo/. {work}/")
            ok = True
            for f, old, new in s["edits"]:
                p = os.path.join(work, f); src = open(p).read()
                if src.count(old) != s.get("count", 1):
                    print(s["id"], "EDIT MISMATCH", f, src.count(old)); ok = False; break
                open(p, "w").write(src.replace(old, new))
            if not ok: continue
            diff = sh("git diff", cwd=work).stdout
            os.makedirs(d, exist_ok=True)
            open(f"{d}/patch.diff", "w").write(diff)
            open(f"{d}/demo.rs", "w").write(s["demo"])
            open(f"{d}/demo.sh", "w").write(DEMO_SH); os.chmod(f"{d}/demo.sh", 0o755)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
            if "--gen" in sys.argv: continue
            r0 = sh(f"bash {d}/demo.sh", cwd="/repo"); r1 = sh(f"bash {d}/demo.sh", cwd=work)
            t = sh("git -C /repo apply %s/patch.diff && bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1 && bash /opt/vp/test.sh /tmp/seed_t.json" % d, t=900)
            base = json.load(open("/opt/vp/BASELINE.json"))
            res = json.load(open("/tmp/seed_t.json")) if os.path.exists("/tmp/seed_t.json") else {}
            stable = base.get("stable") or base.get("passed") or base.get("tests") or base
            passed = set(res.get("passed", []))
            missing = [x for x in stable if x not in passed] if isinstance(stable, list) else "?"
            msg = f"{s['id']}: demo base={r0.returncode} seeded={r1.returncode} failing tests={missing if missing=='?' else missing[:4]}"
            if r0.returncode or not r1.returncode: msg += "\n   BASE: " + (r0.stdout + r0.stderr)[-600:] + "\n   SEEDED: " + (r1.stdout + r1.stderr)[-600:]
            if check:
                c = sh(f"python3 check.py {s['property']}", cwd=V)
                v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
                msg += f"  check={c.returncode} {v[:1]}"
            print(msg, flush=True)
        finally:
            sh("git -C /repo checkout -q -- .")
            if os.path.exists("/tmp/seed_t.json"): os.remove("/tmp/seed_t.json")
            shutil.rmtree(work, ignore_errors=True)
if __name__ == "__main__":
    main()

"""which functions verify only under some random seeds: python3 tools/stability.py [seeds] [prop]"""
import os, sys, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import prover
n = int(sys.argv[1]) if len(sys.argv) > 1 else 4
items = prover.prepare()
mods, byfn = prover.contracts()
prog = prover.Program(items, mods, byfn, {})
worst = {}
for seed in range(n):
    res, diags, _, err = prover.verus(prog, f"/tmp/stab.rs", None, ["--smt-option", f"smt.random_seed={seed}", "--smt-option", f"sat.random_seed={seed}"])
    for d in diags:
        k, code = prog.place(d)
        if k != "v_canary":
            print(seed, k, d["message"], flush=True)
    for f, l in prover.breakdown(res).items():
        w = max(x.get("rlimit", 0) for x in l)
        worst[f] = max(worst.get(f, 0), w)
for f, w in sorted(worst.items(), key=lambda x: -x[1])[:12]:
    print(w, f)

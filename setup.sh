#!/bin/bash
# Builds the machinery from the committed files, offline.
cd "$(dirname "$0")" || exit 1
. ./env.sh
python3 - <<'P' || exit 1
import check
ok, log = check.build_harness()
print(log[-2000:])
if ok:
    import prover
    prover.prepare()
raise SystemExit(0 if ok else 1)
P

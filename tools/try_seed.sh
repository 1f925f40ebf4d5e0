#!/bin/bash
# try_seed.sh SEED [PROP]: the prover on a copy of the tree with one planted change (prints what fails or is undecided)
set -eu
d=/tmp/try_seed; v=$(cd "$(dirname "$0")/.." && pwd)
PWBASE=$d timeout 1200 python3 "$v/tools/parallel.py" seeds $d.jsonl --stage prover --workers 1 "$1" | cut -c1-1500
/bin/rm -f /tmp/try_seed.jsonl

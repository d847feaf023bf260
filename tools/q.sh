#!/bin/bash
# brief run: tools/q.sh seed C10 C11 ...
s=$1; shift
cd "$(dirname "$0")/.."
for p in "$@"; do VERIF_SEED=$s python3 run.py check $p | grep -v '^  ' | cut -c1-700; done

#!/bin/bash
# tools/mut.sh FILE SED CHECK: one quick run of a check against an edited /repo, which is restored.
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
sed -i "$2" "$1"; git diff --stat | tail -1
cd /verif && tools/q.sh "${SEED:-1}" "$3" 2>&1 | tail -4 | cut -c1-500
git -C /repo checkout -q -- .

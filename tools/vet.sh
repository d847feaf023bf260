#!/bin/bash
# type-check the harness packages: tools/vet.sh pkg...
. /opt/vp/env.sh
W=$(mktemp -d /tmp/vet.XXXX)
python3 - "$W" <<'PY'
import sys; sys.path.insert(0,'/verif'); import run; run.make_overlay(sys.argv[1])
PY
export GOFLAGS="-mod=readonly -buildvcs=false"; cd /repo && for p in "$@"; do go test -c -vet=off -overlay $W/overlay.json -o /dev/null ./internal/verifpbt/$p; done
rm -rf "$W"

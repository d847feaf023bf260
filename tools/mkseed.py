#!/usr/bin/env python3
"""Plant a bug: tools/mkseed.py DIR...

DIR (under /verif/seeded) holds edit.py-less material: spec.json with
{"property", "needs", "what_it_breaks", "pkg", "edits": [[file, old, new], ...]}
and demo_test.go. Writes patch.diff, demo.sh and meta.json after checking, in a
scratch copy of /repo, that the patch changes original lines, builds, passes the
stable tests, and that the demo tells the trees apart. spec.json is removed.
"""
import json, os, shutil, subprocess, sys, tempfile

BASE = "dce832d"
DEMO = """#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export GOFLAGS="-mod=readonly -buildvcs=false"
overlay=$(mktemp)
trap 'rm -f "$overlay"' EXIT
echo "{\\"Replace\\":{\\"$PWD/PKG/zz_seeded_test.go\\":\\"$here/demo_test.go\\"}}" > "$overlay"
go test -overlay "$overlay" -vet=off -count=1 -timeout 240s -run '^TestSeeded' ./PKG
"""
ENV = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off",
           GOFLAGS="-mod=readonly -buildvcs=false", GOWORK="off", GOPATH="/root/go", GOCACHE="/root/.cache/go-build")


def sh(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, env=ENV, shell=isinstance(cmd, str), capture_output=True, text=True, timeout=600)


def main():
    bad = []
    for d in sys.argv[1:]:
        d = os.path.abspath(d)
        spec = json.load(open(d + "/spec.json"))
        wt = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
        try:
            why = make(d, spec, wt + "/repo")
        finally:
            shutil.rmtree(wt)
        print(os.path.basename(d), "OK" if not why else "REJECTED: " + why, flush=True)
        if why:
            bad.append(d)
        else:
            os.remove(d + "/spec.json")
    return 1 if bad else 0


def make(d, spec, wt):
    sh(["cp", "-a", "/repo", wt], "/tmp")
    for f, old, new in spec["edits"]:
        s = open(wt + "/" + f).read()
        if s.count(old) != 1:
            return "%s: old text occurs %d times: %s" % (f, s.count(old), old)
        blame = sh(["git", "blame", "-s", f], wt).stdout.splitlines()
        at = s[:s.index(old)].count("\n")
        lines = blame[at:at + old.count("\n") + 1]
        if not any(b.startswith("^") or b.startswith(BASE) for b in lines):
            return "none of these lines is original: %s" % lines
        open(wt + "/" + f, "w").write(s.replace(old, new))
    patch = sh(["git", "diff"], wt).stdout
    r = sh("go build ./... && go test -vet=off -count=1 ./...", wt)
    if r.returncode:
        return "tests: " + r.stdout[-1500:] + r.stderr[-1500:]
    if not os.path.exists(d + "/demo.sh"):
        open(d + "/demo.sh", "w").write(DEMO.replace("PKG", spec["pkg"]))
    r = sh(["bash", d + "/demo.sh"], wt)
    if r.returncode == 0:
        return "demo passes with the patch"
    out = (r.stdout + r.stderr)[-700:]
    if "[build failed]" in out or "[setup failed]" in out:
        return "demo: " + out
    sh(["git", "checkout", "--", "."], wt)
    r = sh(["bash", d + "/demo.sh"], wt)
    if r.returncode:
        return "demo fails without the patch: " + r.stdout[-1500:] + r.stderr[-1500:]
    print(out)
    open(d + "/patch.diff", "w").write(patch)
    json.dump({k: spec[k] for k in ("property", "needs", "what_it_breaks")}, open(d + "/meta.json", "w"), indent=1)
    return ""


sys.exit(main())

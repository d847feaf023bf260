#!/usr/bin/env python3
"""Driver of the property checks.

  run.py check C21            run the check of one property (VERIF_SEED, VERIF_TIER)
  run.py replay FILE [-v]     run one saved case again, without the generator
  run.py setup                build everything once (sanity check)
  run.py all [IDs...]         every registered check in turn (for development)

A check compiles the harness packages of /verif/harness *inside* the module in
/repo by means of a build overlay (nothing is written to /repo), runs them as
an unprivileged user in a scratch directory and gathers the evidence.
"""
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
MODULE = "github.com/bigbluebutton/bbb-webrtc-recorder"
sys.path.insert(0, os.path.join(VERIF, "tools"))
from registry import CHECKS  # noqa: E402

NOBODY = 65534


def goenv(work):
    env = {
        "HOME": "/root", "PATH": "/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "GOTOOLCHAIN": "local", "GOPROXY": "off", "GOFLAGS": "-mod=readonly -buildvcs=false", "GOWORK": "off",
        "GOPATH": "/root/go", "GOMODCACHE": "/root/go/pkg/mod",
        "GOCACHE": os.environ.get("VERIF_GOCACHE", "/root/.cache/go-build"),
        "GOTMPDIR": work, "TMPDIR": work,
    }
    return env


def die(msg, code=2):
    print(msg)
    sys.stdout.flush()
    sys.exit(code)


def make_overlay(work):
    rep = {}
    for f in glob.glob(os.path.join(VERIF, "harness", "*", "*.go")):
        pkg = os.path.basename(os.path.dirname(f))
        rep[os.path.join(REPO, "internal/verifpbt", pkg, os.path.basename(f))] = f
    p = os.path.join(work, "overlay.json")
    with open(p, "w") as fh:
        json.dump({"Replace": rep}, fh)
    return p


def build(work, pkg, binary=False):
    ov = make_overlay(work)
    env = goenv(work)
    out = os.path.join(work, pkg + ".test")
    cmds = [["go", "test", "-c", "-vet=off", "-overlay", ov, "-o", out, "./internal/verifpbt/" + pkg]]
    if binary:
        cmds.append(["go", "build", "-o", os.path.join(work, "recorder"), "./cmd/bbb-webrtc-recorder"])
    procs = [(c, subprocess.Popen(c, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for c in cmds]
    for c, p in procs:
        o, _ = p.communicate()
        if p.returncode != 0:
            for _, q in procs:
                if q.poll() is None:
                    q.kill()
            die("BUILD-ERROR %s\n%s" % (" ".join(c), o[-6000:]))
    return out


def own(path):
    try:
        os.chown(path, NOBODY, NOBODY)
    except PermissionError:
        pass


def can_setuid():
    try:
        return subprocess.run(["/bin/true"], user=NOBODY, group=NOBODY, extra_groups=[]).returncode == 0
    except Exception:
        return False


SETUID = os.geteuid() == 0 and can_setuid()


def pkgs(c):
    return [c["pkg"]] if isinstance(c["pkg"], str) else list(c["pkg"])


def spawn(work, test, prop, out, extra):
    os.makedirs(out, exist_ok=True)
    own(out)
    scratch = os.path.join(out, "scratch")
    os.makedirs(scratch, exist_ok=True)
    own(scratch)
    env = {
        "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "HOME": scratch, "TMPDIR": scratch, "VERIF_OUT": out, "VERIF_SCRATCH": scratch,
        "VERIF_SEED": os.environ.get("VERIF_SEED", "1"),
        "VERIF_TIER": os.environ.get("VERIF_TIER", "quick"),
        "VERIF_BIN": os.path.join(work, "recorder"), "VERIF_REPO": REPO, "GOTRACEBACK": "all",
    }
    for k in ("VERIF_FACET", "VERIF_LOG", "VERIF_SCALE", "VERIF_KEEP", "GOMAXPROCS"):
        if k in os.environ:
            env[k] = os.environ[k]
    env.update(extra)
    kw = {"user": NOBODY, "group": NOBODY, "extra_groups": []} if SETUID else {}
    log = open(os.path.join(out, "log"), "wb")
    p = subprocess.Popen([test, "-test.run", "^Test%s$" % prop, "-test.timeout", "0", "-test.v"], cwd=scratch, env=env,
                         stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True, **kw)
    return p


def killgroup(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass


def crash_kind(log):
    """Who crashed? Returns (kind, message): target, harness or None."""
    m = re.search(r"^(panic: .*|fatal error: .*)$", log, re.M)
    if not m:
        return None, ""
    tail = log[m.start():]
    # only the first goroutine dump (the one that crashed)
    first = tail.split("\n\ngoroutine ")
    body = "\n\ngoroutine ".join(first[:2])
    for line in body.split("\n"):
        if line.startswith(MODULE + "/internal/verifpbt/"):
            return "harness", tail[:5000]
        if line.startswith(MODULE + "/"):
            return "target", tail[:5000]
    if "deadlock" in m.group(1) or "out of memory" in m.group(1):
        return "harness", tail[:5000]
    # a dependency crashed in a goroutine of its own, driven by the code under test
    if re.search(r"^github\.com/", body, re.M):
        return "target", tail[:5000]
    return "harness", tail[:5000]


def collect(prop, outs, procs, timeout, names=None):
    deadline = time.time() + timeout
    timed = False
    for p in procs:
        left = deadline - time.time()
        try:
            p.wait(max(0.1, left))
        except subprocess.TimeoutExpired:
            timed = True
            killgroup(p)
            p.wait()
    for p in procs:
        killgroup(p)
    violations, errors, facets, distinct = [], [], {}, set()
    for i, (out, p) in enumerate(zip(outs, procs)):
        pkg = names[i] if names else None
        with open(os.path.join(out, "log"), "rb") as fh:
            log = fh.read().decode("utf-8", "replace")
        res = {}
        try:
            res = json.load(open(os.path.join(out, "result.json")))
        except Exception:
            pass
        for f in res.get("facets") or []:
            g = facets.setdefault(f["facet"], {"facet": f["facet"], "evaluations": 0, "inconclusive": 0, "labels": {}, "samples": [], "wall_s": 0})
            g["evaluations"] += f["evaluations"]
            g["inconclusive"] += f["inconclusive"]
            g["wall_s"] = max(g["wall_s"], f["wall_s"])
            for k, v in (f["labels"] or {}).items():
                g["labels"][k] = g["labels"].get(k, 0) + v
            g["samples"] = (g["samples"] + (f["samples"] or []))[:3]
        distinct.update(res.get("distinct") or [])
        violations += [dict(v, pkg=pkg) for v in res.get("violations") or []]
        errors += res.get("harness_errors") or []
        if not res.get("done"):
            kind, msg = crash_kind(log)
            cur = os.path.join(out, "current.json")
            if timed and p.returncode == -signal.SIGKILL:
                errors.append("timed out; last case in %s\n%s" % (cur, log[-1500:]))
            elif kind == "target" and os.path.exists(cur):
                v = json.load(open(cur))
                v["message"] = "the process crashed: " + msg
                v["pkg"] = pkg
                violations.append(v)
            else:
                errors.append("run ended early (rc=%s): %s" % (p.returncode, msg or log[-3000:]))
    return violations, errors, facets, distinct


def save_replay(v):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    b = json.dumps(v, indent=1, sort_keys=True)
    h = hashlib.sha1(json.dumps(v.get("case")).encode()).hexdigest()[:10]
    p = os.path.join(d, "%s-%s-%s.json" % (v["property"], v["facet"], h))
    with open(p, "w") as fh:
        fh.write(b)
    return p


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("fixed:") and not line.startswith("#"):
                d = json.loads(line)
                if d["property"] == prop:
                    out.append(d)
    return out


def run_replays(work, test, prop, paths, timeout=120):
    """Run saved cases; returns {path: violation-or-None}."""
    outs, procs, res = [], [], {}
    for i, path in enumerate(paths):
        out = os.path.join(work, "replay%d" % i)
        os.makedirs(out, exist_ok=True)
        own(out)
        local = os.path.join(out, "case.json")
        shutil.copy(path, local)
        os.chmod(local, 0o644)
        procs.append(spawn(work, test, prop, out, {"VERIF_REPLAY": local}))
        outs.append(out)
        v, e, _, _ = collect(prop, outs[-1:], procs[-1:], timeout)
        res[path] = (v, e)
    return res


def check(prop, tier):
    c = CHECKS[prop]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop, dir=os.environ.get("VERIF_WORK", "/tmp"))
    os.chmod(work, 0o755)
    try:
        tests = {p: build(work, p, c.get("binary", False)) for p in pkgs(c)}
        tb = time.time() - t0
        shards = c.get("shards", {}).get(tier, 1 if tier == "quick" else 4)
        timeout = c.get("timeout", {}).get(tier, 600 if tier == "quick" else 3000)
        known_lines = []
        kf = known_findings(prop)
        if kf:
            res = run_replays(work, tests[pkgs(c)[0]], prop, [os.path.join(VERIF, k["case"]) for k in kf])
            for k in kf:
                v, e = res[os.path.join(VERIF, k["case"])]
                if v:
                    known_lines.append("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
                elif e:
                    known_lines.append("note: known finding %s could not be re-run: %s" % (k["case"], e[0][:500]))
                else:
                    known_lines.append("note: known finding %s no longer fails" % k["case"])
        outs, procs, names = [], [], []
        env = {"VERIF_SHARDS": str(shards), "VERIF_TIER": tier}
        if "scale" in c and tier in c["scale"] and "VERIF_SCALE" not in os.environ:
            env["VERIF_SCALE"] = str(c["scale"][tier])
        for p in pkgs(c):
            for i in range(shards):
                out = os.path.join(work, "shard-%s-%d" % (p, i))
                procs.append(spawn(work, tests[p], prop, out, dict(env, VERIF_SHARD=str(i))))
                outs.append(out)
                names.append(p)
        violations, errors, facets, distinct = collect(prop, outs, procs, timeout, names)
        ev = {
            "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": c["level"],
            "coverage": {
                "evaluations": sum(f["evaluations"] for f in facets.values()),
                "distinct_nontrivial": len(distinct),
                "inconclusive": sum(f["inconclusive"] for f in facets.values()),
                "rule": c["rule"],
                "samples": [{"facet": f["facet"], "case": s} for f in facets.values() for s in f["samples"][:2]][:10],
                "facets": [{k: f[k] for k in ("facet", "evaluations", "inconclusive", "labels", "wall_s")} for f in facets.values()],
                "known_findings": known_lines,
            },
            "assumptions": c.get("assumptions", []),
            "wall_s": round(time.time() - t0, 2), "build_s": round(tb, 2), "violations": len(violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        for l in known_lines:
            print(l)
        cov = ev["coverage"]
        print("%s %s: %d cases, %d distinct non-trivial, %d inconclusive, build %.1fs, total %.1fs" % (
            prop, tier, cov["evaluations"], cov["distinct_nontrivial"], cov["inconclusive"], tb, ev["wall_s"]))
        for f in cov["facets"]:
            print("  %s: %d cases %.1fs %s" % (f["facet"], f["evaluations"], f["wall_s"], json.dumps(f["labels"], sort_keys=True)))
        if violations:
            seen = set()
            for v in violations:
                if v["facet"] in seen:
                    continue
                seen.add(v["facet"])
                path = save_replay(v)
                print("%s/%s: %s" % (prop, v["facet"], v["message"][:3000]))
                print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        if errors:
            for e in errors[:4]:
                print("ERROR %s: %s" % (prop, e[:4000]))
            return 2
        if cov["evaluations"] == 0:
            print("ERROR %s: nothing was evaluated" % prop)
            return 2
        if cov["inconclusive"] * 2 > cov["evaluations"]:
            print("ERROR %s: more than half of the cases were inconclusive" % prop)
            return 2
        return 0
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True) if not os.environ.get("VERIF_KEEP") else print("kept", work)


def replay(path, verbose):
    v = json.load(open(path))
    prop = v["property"]
    c = CHECKS[prop]
    work = tempfile.mkdtemp(prefix="verif-replay-", dir="/tmp")
    os.chmod(work, 0o755)
    try:
        test = build(work, v.get("pkg") or pkgs(c)[0], c.get("binary", False))
        viol, err = run_replays(work, test, prop, [path])[path]
        if verbose:
            print(open(os.path.join(work, "replay0", "log"), errors="replace").read()[-20000:])
        for x in viol:
            print("%s/%s: %s" % (prop, x["facet"], x["message"][:4000]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        for e in err:
            print("ERROR", e[:4000])
        return 1 if viol else 2 if err else 0
    finally:
        shutil.rmtree(work, ignore_errors=True) if not os.environ.get("VERIF_KEEP") else print("kept", work)


def main(a):
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(a) > 2 and a[0] == "check":
        tier = a[2]
    if a[0] == "check":
        return check(a[1], tier)
    if a[0] == "replay":
        return replay(a[1], "-v" in a)
    if a[0] == "setup":
        work = tempfile.mkdtemp(prefix="verif-setup-", dir="/tmp")
        try:
            for pkg in sorted({p for c in CHECKS.values() for p in pkgs(c)}):
                build(work, pkg, True)
        finally:
            shutil.rmtree(work, ignore_errors=True) if not os.environ.get("VERIF_KEEP") else print("kept", work)
        print("setup ok")
        return 0
    if a[0] == "all":
        rc = {}
        for p in a[1:] or sorted(CHECKS):
            rc[p] = subprocess.run([sys.executable, os.path.abspath(__file__), "check", p, tier]).returncode
        print(rc)
        return max(rc.values())
    die(__doc__)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))

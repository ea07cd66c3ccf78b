#!/usr/bin/env python3
"""mkseed.py [--check] SPEC.py... : makes and validates /verif/seeded/<id>/ from a spec file.
A spec sets: id, prop, needs, breaks, edits=[(file, old, new)...], pkg (directory of the demo test),
test (Go source of the demo test, function TestDemo...), race (optional)."""
import sys, os, subprocess, json, runpy, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
ENV = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOWORK="off")
DEMO = '''#!/bin/bash
# Runs the test beside this file as part of package {pkg}: passes on a correct tree, fails with the change.
D=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
cat > "$T/overlay.json" <<EOF
{{"Replace": {{"$PWD/{pkg}/zz_demo_test.go": "$D/demo.go.txt"}}}}
EOF
go test -vet=off -count=1 -timeout 120s {flags}-overlay "$T/overlay.json" -run '^TestDemo' ./{pkg} > "$T/out" 2>&1
rc=$?
tail -40 "$T/out"
grep -q "no tests to run" "$T/out" && exit 2
exit $rc
'''
def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
def clean(): sh("git", "-C", REPO, "checkout", "-q", "--", ".")
def stable():
    b = sh("bash", "/opt/vp/build.sh")
    if b.returncode: return "build failed: " + b.stderr[-400:]
    sh("bash", "/opt/vp/test.sh", "/tmp/seed_out.json")
    want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); got = set(json.load(open("/tmp/seed_out.json"))["passed"])
    return "tests fail: %s" % sorted(want - got)[:5] if want - got else ""
def one(spec, check):
    s = runpy.run_path(spec); i = s["id"]; d = os.path.join(V, "seeded", i)
    assert sh("git", "-C", REPO, "status", "--short").stdout == "", "repo not clean"
    os.makedirs(d, exist_ok=True)
    try:
        demo = os.path.join(d, "demo.sh")
        open(demo, "w").write(s["demo"] if "demo" in s else DEMO.format(pkg=s["pkg"], flags="-race " if s.get("race") else ""))
        os.chmod(demo, 0o755)
        if "test" in s: open(os.path.join(d, "demo.go.txt"), "w").write(s["test"])
        for n, c in s.get("files", {}).items(): open(os.path.join(d, n), "w").write(c)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        r = sh("bash", demo, cwd=REPO)
        if r.returncode: return "DEMO FAILS ON CLEAN TREE\n" + r.stdout[-1500:]
        for f, old, new in s["edits"]:
            p = os.path.join(REPO, f); t = open(p).read()
            if old not in t: return "not found: " + old
            open(p, "w").write(t.replace(old, new, 1))
        diff = sh("git", "-C", REPO, "diff").stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        e = stable()
        if e: return e
        r = sh("bash", demo, cwd=REPO)
        if r.returncode == 0: return "DEMO PASSES WITH THE CHANGE"
        if "FAIL" not in r.stdout: return "demo does not run: " + r.stdout[-800:]
        c = sh(os.path.join(V, "run.sh"), s["prop"], cwd=V)
        hit = c.returncode == 1 and ("VIOLATION property=" + s["prop"]) in c.stdout
        lines = [l for l in c.stdout.splitlines() if "[" in l and not l.startswith("VIOLATION")]
        return ("CAUGHT " if hit else "MISSED ") + (lines[0][:220] if lines else c.stdout[-200:])
    finally:
        clean()
for sp in sys.argv[1:]:
    print(os.path.basename(sp), "->", one(sp, True), flush=True)
sh("bash", "/opt/vp/build.sh")

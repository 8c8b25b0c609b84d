#!/usr/bin/env python3
"""Development helper: makes /verif/seeded/<id> from a file describing a change,
confirms it in a scratch copy (builds, stable tests pass, demo fails with it and
passes without it), and runs the property's check against the copy.

usage: plant.py SPECFILE...     a spec file is python: id, prop, edits, needs, breaks, demo"""
import json, os, shutil, subprocess, sys, tempfile
V = os.environ.get("PLANT_V", "/verif")
DEMO = '''#!/bin/bash
# exit 0: the property holds on this input; 1: it is broken
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export GOROOT=/opt/veriftools/go1.23.12
export PATH=$GOROOT/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off GOENV=off TZ=UTC
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
cp "$here/main.go" "$d/" || exit 2
printf 'module demo\\n\\ngo 1.23\\n\\nrequire github.com/wI2L/jettison v0.0.0\\n\\nreplace github.com/wI2L/jettison => %s\\n' "$repo" > "$d/go.mod"
cd "$d" && go build -o demo . || exit 2
timeout 120 ./demo
'''
def sh(cmd, cwd, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, env=env)
for f in sys.argv[1:]:
    s = {}
    exec(open(f).read(), s)
    wt = tempfile.mkdtemp(prefix="seedwt")
    r = wt + "/repo"
    try:
        shutil.copytree("/repo", r, symlinks=True)
        for fn, old, new in s["edits"]:
            t = open(f"{r}/{fn}").read()
            assert t.count(old) == 1, (s["id"], fn, t.count(old), old)
            open(f"{r}/{fn}", "w").write(t.replace(old, new))
        d = f"{V}/seeded/{s['id']}"
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(sh("git diff", r).stdout)
        open(d + "/demo.sh", "w").write(s.get("demo_sh", DEMO)); os.chmod(d + "/demo.sh", 0o755)
        open(d + "/main.go", "w").write(s["demo"])
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        good = sh(f"{d}/demo.sh", "/repo")
        bad = sh(f"{d}/demo.sh", r)
        tst = sh(r"""sed 's#cd /repo#cd %s#' /opt/vp/env.sh > %s/env.sh; . %s/env.sh; go build ./... && go test -json -race -vet=off -count=1 ./... > %s/t.json; python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))
ps=set()
for l in open('%s/t.json'):
    e=json.loads(l)
    if e.get('Action')=='pass' and 'Test' in e: ps.add(e['Package']+'/'+e['Test'])
names=b.get('stable') or b.get('tests') or b.get('passed') or list(b)
miss=[n for n in names if n not in ps]
print('missing',len(miss),miss[:3])
P""" % (r, wt, wt, wt, wt), r)
        if good.returncode or not bad.returncode or 'missing 0' not in tst.stdout: shutil.rmtree(d)
        print(s["id"], "demo unchanged:", good.returncode, "changed:", bad.returncode, (bad.stdout + bad.stderr).strip()[-200:], "|", tst.stdout.strip()[-200:], tst.stderr[-200:])
        if good.returncode: print("   UNCHANGED:", (good.stdout + good.stderr)[-500:])
        for p in [s["prop"]] + s.get("also", []):
            e = dict(os.environ, VERIF_REPO=r)
            c = sh(f"{V}/check.sh {p}", V, e)
            print("   check", p, c.returncode, c.stdout.strip().splitlines()[-1][:200] if c.stdout.strip() else c.stderr[-300:])
    finally:
        shutil.rmtree(wt, ignore_errors=True)

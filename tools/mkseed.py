#!/usr/bin/env python3
"""mkseed.py FILE.seed...: turns a compact description of a planted bug into /verif/seeded/<id>/ after
confirming it in a scratch copy of /repo: applies, builds, stable tests pass, demo passes without and fails with it."""
import json, os, re, shutil, subprocess, sys, tempfile
verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run with cwd = the repository root
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
export TMPDIR=$tmp
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%(pkg)s/zz_demo_test.go" "$here/demo_test.go" > "$tmp/o.json"
timeout 200 go test -overlay "$tmp/o.json" -vet=off -count=1 -timeout 150s -run '^TestDemo$' ./%(pkg)s
'''
def sh(cmd, cwd, **kw): return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)
ENV = "export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly;"
base = json.load(open("/opt/vp/BASELINE.json"))
for f in sys.argv[1:]:
  for txt in re.split(r"(?m)^#{8,}\s*$", open(f).read()):
    if not txt.strip(): continue
    head, demo = txt.split("\ndemo:\n", 1)
    m = dict(re.findall(r"(?m)^(id|property|needs|breaks|pkg): (.*)$", head))
    edits = []
    for b in re.split(r"(?m)^file: ", head)[1:]:
        fn, rest = b.split("\n", 1)
        for o, n in re.findall(r"(?s)<<<<\n(.*?)====\n(.*?)>>>>", rest): edits.append((fn.strip(), o, n))
    d = tempfile.mkdtemp(prefix="seed"); r = d + "/repo"
    try:
        subprocess.run(["cp", "-a", "/repo", r], check=True)
        sh("git checkout -q -- .", r)
        out = d + "/out"; os.mkdir(out)
        open(out + "/demo_test.go", "w").write(demo)
        open(out + "/demo.sh", "w").write(DEMO % m); os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": m["property"], "needs": m["needs"], "what_it_breaks": m["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        c = sh(out + "/demo.sh", r)
        if c.returncode: print(m["id"], "DEMO FAILS ON UNCHANGED TREE\n", (c.stdout + c.stderr)[-2500:]); continue
        bad = False
        for fn, o, n in edits:
            s = open(r + "/" + fn).read()
            if s.count(o) != 1: print(m["id"], "edit does not match once:", fn, s.count(o), repr(o[:80])); bad = True; break
            open(r + "/" + fn, "w").write(s.replace(o, n))
        if bad: continue
        g = sh("git diff", r); open(out + "/patch.diff", "w").write(g.stdout)
        c = sh(ENV + "go build ./... && go vet ./data ./gcode >/dev/null; go test ./data/... ./gcode/... ", r)
        if c.returncode: print(m["id"], "TESTS FAIL\n", (c.stdout + c.stderr)[-2500:]); continue
        c = sh(out + "/demo.sh", r)
        if not c.returncode: print(m["id"], "DEMO PASSES WITH THE CHANGE"); continue
        dst = verif + "/seeded/" + m["id"]
        shutil.rmtree(dst, ignore_errors=True); shutil.copytree(out, dst)
        print(m["id"], "ok:", [l for l in (c.stdout + c.stderr).split("\n") if "demo" in l.lower() or "panic" in l][:3])
    finally: shutil.rmtree(d)

#!/bin/bash
# usage: harness.sh PROPERTY   runs only the bounded cross-check of a property on the real code of /repo
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
export VERIF_TMP=$tmp TMPDIR=$tmp
python3 - "$here" "$repo" "$1" "$tmp/overlay.json" > "$tmp/pkgs" <<'P'
import json, os, sys
here, repo, pid, out = sys.argv[1:]
rep, pk = {}, set()
for root in (here + "/harness/common", here + "/harness/" + pid):
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith(".go"):
                rel = os.path.relpath(os.path.join(d, f), root)
                rep[os.path.join(repo, rel)] = os.path.join(d, f)
                if rel.endswith("_test.go") and root.endswith(pid):
                    pk.add("./" + os.path.dirname(rel))
json.dump({"Replace": rep}, open(out, "w"))
print(*sorted(pk))
P
cd "$repo" && go test -overlay "$tmp/overlay.json" -vet=off -count=1 -v -run '^TestVerif' $(cat "$tmp/pkgs")

#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]   builds the verifier and checks one property of /repo
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=0
here=$(cd "$(dirname "$0")" && pwd)
id=$1
tier=${2:-${VERIF_TIER:-quick}}
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
(cd "$here/gover" && GOFLAGS=-mod=mod go build -o "$tmp/gover" .) || exit 3
"$tmp/gover" -repo "${VERIF_REPO:-/repo}" -verif "$here" -specs "$here/contracts" check "$id" -tier "$tier"

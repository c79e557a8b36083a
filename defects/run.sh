#!/bin/bash
# Demonstrations of the genuine defects found in teonet-go/tru: each test fails
# on the tree before the corresponding "fix:" commit and passes after it.
#   bash /verif/defects/run.sh [REPO] [go test flags...]
# Not a check: nothing in MANIFEST.json uses it.
here=$(cd "$(dirname "$0")" && pwd)
repo=/repo; case "$1" in /*) repo=$1; shift;; esac
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
echo "{\"Replace\":{\"$repo/zz_defects_test.go\":\"$here/defects_test.go.txt\",\"$repo/teolog/zz_defects_test.go\":\"$here/teolog_test.go.txt\",\"$repo/hotkey/zz_defects_test.go\":\"$here/hotkey_test.go.txt\"}}" > "$tmp/o.json"
cd "$repo" && GOFLAGS= GOPROXY=off GOTOOLCHAIN=local go test -vet=off -overlay "$tmp/o.json" -count=1 "${@:--run=TestF}" . ./teolog ./hotkey

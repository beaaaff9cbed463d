#!/bin/bash
# Runs demo_test.go as an in-package test of the package named in the file "pkg" (cwd: the repository).
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd)
export HOME=/root PATH=/opt/veriftools/go1.25.14/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
P=$(cat "$D/pkg"); T=$(mktemp -d) || exit 9
trap 'rm -rf "$T"' EXIT
echo "{\"Replace\": {\"$R/$P/zz_seed_demo_test.go\": \"$D/demo_test.go\"}}" > "$T/o.json"
timeout 280 go test -overlay "$T/o.json" -vet=off -count=1 $(cat "$D/flags" 2>/dev/null) -run '^TestSeedDemo$' "./$P"

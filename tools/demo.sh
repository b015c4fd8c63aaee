#!/bin/bash
# Runs demo_test.go (beside this file) inside the package it names; cwd is the repository.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export HOME="${HOME:-/root}" PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off
unset INTEGRATION_TEST
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
cp go.mod "$t/gears.mod" && cp go.sum "$t/gears.sum" || exit 3
export GOFLAGS="-mod=mod -modfile=$t/gears.mod"
pkg=$(sed -n 's,^// pkg: ,,p' "$here/demo_test.go")
race=$(sed -n 's,^// race$,-race,p' "$here/demo_test.go")
echo "{\"Replace\":{\"$repo/$pkg/zz_demo_test.go\":\"$here/demo_test.go\"}}" > "$t/o.json"
go test $race -vet=off -count=1 -timeout 200s -overlay "$t/o.json" -run '^TestDemo' "./$pkg"

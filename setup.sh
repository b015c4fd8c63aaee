#!/bin/bash
# builds the verifier from the committed sources (offline)
cd "$(dirname "$0")/govc" || exit 2
export HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off GOENV=off GOFLAGS=-mod=mod GONOSUMDB='*' GONOSUMCHECK=1
mkdir -p ../bin ../out ../evidence
go build -o ../bin/govc . 

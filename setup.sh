#!/bin/bash
# warms the build cache; the checks build again from /repo's working tree
cd "$(dirname "$0")/harness" || exit 1
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod
d=$(mktemp -d) || exit 1
trap 'find "$d" -delete' EXIT
go test -vet=off -tags verif -c -o "$d/h.test" . && CGO_ENABLED=1 go test -race -vet=off -tags verif -c -o "$d/r.test" .

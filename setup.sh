#!/bin/bash
# warms the Go build cache; nothing here is needed for a verdict
cd "$(dirname "$0")" || exit 1
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
t=$(mktemp -d /tmp/vfsetup.XXXXXX) || exit 1
trap 'rm -rf "$t"' EXIT
cp harness/go.mod "$t/go.mod"; : > "$t/go.sum"
(cd harness && go test -c -vet=off -modfile "$t/go.mod" -o "$t/a" . && CGO_ENABLED=1 go test -race -c -vet=off -modfile "$t/go.mod" -o "$t/b" .) || echo "warming failed"
exit 0

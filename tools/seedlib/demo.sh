#!/bin/bash
# run in the root of the repository: 0 if the behaviour is right
d=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$t"' EXIT
cp "$d/prelude.go" "$d/main.go" "$t/" || exit 2
cat > "$t/go.mod" <<M
module demo

go 1.23

require ustack v0.0.0

replace ustack => $repo
M
cd "$t" && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go build RACE -o demo . || exit 2
timeout 120 ./demo >"$t/out" 2>"$t/err"
rc=$?
tail -c 3000 "$t/err"
exit $rc

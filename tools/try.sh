#!/bin/bash
# try.sh PATCH|COMMIT Cnn...   run checks against a scratch copy of /repo with a change
what="$1"; [ -f "$what" ] && what=$(realpath "$what"); shift
d=$(mktemp -d /tmp/mut.XXXXXX)
cp -a /repo/. "$d/"
cd "$d" || exit 9
if [ -f "$what" ]; then git apply "$what" || { echo "patch does not apply"; rm -rf "$d"; exit 9; }
else git checkout -q "$what" || exit 9; fi
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
go build ./... || { echo BUILD-FAILS; rm -rf "$d"; exit 9; }
go test -count=1 . >/tmp/mut.out 2>&1 && echo "tests pass" || { echo TESTS-FAIL; tail -5 /tmp/mut.out; }
cd /verif
for c in "$@"; do
  VERIF_REPO="$d" timeout 900 python3 check.py "$c" > "/tmp/try.$c.out" 2>&1; rc=$?
  echo "$c rc=$rc $(grep -m1 -E 'violation:|CHECK ERROR' "/tmp/try.$c.out" | cut -c1-260)"
done
rm -rf "$d"

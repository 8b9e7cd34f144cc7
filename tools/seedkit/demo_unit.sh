#!/bin/bash
# Runs demo_test.go.txt as a test of package @PKG@, in a scratch copy of the tree.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.24.13/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-buildvcs=false
unset GOWORK
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
mkdir "$w/repo" && tar --exclude=./.git -cf - . | tar -C "$w/repo" -xf - || exit 3
cp "$here/demo_test.go.txt" "$w/repo/@PKG@/zz_demo_test.go"
cd "$w/repo/@PKG@" || exit 3
exec_out=$(go test -count=1 -timeout 200s -run TestZZDemo . 2>&1); rc=$?
echo "$exec_out" | tail -40
exit $rc

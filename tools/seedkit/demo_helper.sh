#!/bin/bash
# Runs demo_test.go against code generated by the current tree, in a scratch copy.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.24.13/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-buildvcs=false
unset GOWORK
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
mkdir "$w/repo" && tar --exclude=./.git -cf - . | tar -C "$w/repo" -xf - || exit 3
cd "$w/repo/examples" || exit 3
mkdir -p zzdemo/gen zzdemo/model
cp "$here/model.go.txt" zzdemo/model/model.go
cp "$here/gen_test.go.txt" zzdemo/gen/gen_test.go
go test -count=1 -timeout 200s ./zzdemo/gen >"$w/gen.log" 2>&1 || { cat "$w/gen.log"; echo "generation failed"; exit 1; }
for f in "$here"/*_demo.go.txt; do cp "$f" "zzdemo/$(basename "${f%_demo.go.txt}")_test.go"; done
exec_out=$(go test -count=1 -timeout 200s ./zzdemo 2>&1); rc=$?
echo "$exec_out" | tail -40
exit $rc

#!/bin/bash
# Builds the analyser (offline, vendored) into /verif/bin. Sourced by check.sh.
_root=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
_fresh() {
  [ -x "$_root/bin/sqlgencheck" ] && [ -z "$(find "$_root/checker" -newer "$_root/bin/sqlgencheck" -name '*.go' -not -path '*/vendor/*' -print -quit)" ]
}
if ! _fresh; then
  mkdir -p "$_root/bin"
  (cd "$_root/checker" && GOWORK=off GOFLAGS=-mod=vendor go build -o "$_root/bin/sqlgencheck.$$" . && mv "$_root/bin/sqlgencheck.$$" "$_root/bin/sqlgencheck")
fi

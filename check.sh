#!/bin/bash
# check.sh <property id>...: builds the analyzer from the committed sources (if
# it is missing or older than they are) and runs it on /repo's working tree.
cd "$(dirname "$0")" || exit 2
V=$PWD
bin=$V/bin/plzsa
build() {
  mkdir -p "$V/bin" || return 1
  ( cd "$V/sa" && GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=vendor GO111MODULE=on go build -o "$bin.tmp.$$" . ) && mv -f "$bin.tmp.$$" "$bin"
}
if [ ! -x "$bin" ] || [ -n "$(find "$V/sa" -name '*.go' -newer "$bin" -print -quit)" ]; then
  build || { echo "check.sh: cannot build the analyzer" >&2; exit 2; }
fi
[ "$1" = "--build" ] && exit 0
. /opt/vp/env.sh
rc=0
for id in "$@"; do
  "$bin" -prop "$id" -repo /repo -verif "$V"; c=$?
  [ $c -gt $rc ] && rc=$c
done
exit $rc

#!/bin/bash
# check.sh run ID | replay FILE | build - : builds the explorer against /repo's
# working tree and runs it.  Everything is built outside /repo.
set -u
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
V=/opt/veriftools/go1.23.12
unset GOROOT GOENV GOWORK
export HOME=${HOME:-/root}
export PATH=$V/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on CGO_ENABLED=1
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export VERIF_DIR="$HERE"
TMPD="$(mktemp -d "${TMPDIR:-/tmp}/jzonmc.XXXXXX")"
trap 'rm -rf "$TMPD"' EXIT
cd "$HERE/mc" || exit 3

plain() { go build -o "$TMPD/mc" . ; }
# synchronisation redirected to the controlled scheduler, race detector on
sched() {
  mkdir -p "$TMPD/ov" && go run ./instr /repo "$TMPD/ov" >/dev/null &&
    go build -race -gcflags=all=-d=checkptr=0 -tags mcsched -overlay "$TMPD/ov/overlay.json" -o "$TMPD/mc" . && return 0
  echo "the sources could not be instrumented; only hook calls are scheduling points" >&2
  go build -race -gcflags=all=-d=checkptr=0 -tags mcsched -o "$TMPD/mc" .
}
# accesses through unsafe pointers checked
checkptr() { go build -gcflags=all=-d=checkptr -o "$TMPD/mc" . ; }

prop="$2"
[ "$1" = replay ] && prop="$(sed -n 's/.*"property": *"\([^"]*\)".*/\1/p' "$2" | head -1)"
case "$1:$prop" in
  build:*) plain && sched && checkptr; exit $? ;;
  *:C16) sched ;;
  *:C19) checkptr ;;
  *) plain ;;
esac || { echo "build failed"; exit 3; }
cd "$HERE"
"$TMPD/mc" "$1" "$2"
exit $?

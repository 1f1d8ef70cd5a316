#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] -- builds the analyzer from /verif/analyzer and decides PROPERTY on /repo's working tree
set -u
here="$(cd "$(dirname "$0")" && pwd)"
prop="$1"; export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
export BV_VERIF="${BV_VERIF:-$here}" BV_REPO="${BV_REPO:-/repo}"
tmp="$(mktemp -d /tmp/bv.XXXXXX)"
trap 'rm -f "$tmp/bv" "$tmp/err"; rmdir "$tmp"' EXIT
build() { (cd "$here/analyzer" && GOFLAGS=-mod=readonly GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0 go build -o "$tmp/bv" .); }
if ! build 2>"$tmp/err"; then
  sleep 1
  if ! build 2>"$tmp/err"; then
    cat "$tmp/err"
    mkdir -p "$BV_VERIF/evidence"
    cp "$tmp/err" "$BV_VERIF/evidence/$prop.violation.json"
    echo "VIOLATION property=$prop replay=$BV_VERIF/evidence/$prop.violation.json"
    exit 1
  fi
fi
"$tmp/bv" "$prop"
rc=$?
[ $rc -eq 0 ] || rc=1
exit $rc

#!/bin/bash
# check.sh PROPERTY [-case ID]: build the tools and the harness from /repo's working tree, run one check.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=$1
export HOME=/root
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off CGO_ENABLED=1 GOSUMDB=off
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
tmp=$(mktemp -d /tmp/vh.XXXXXX) || exit 2
trap 'chmod -R u+w "$tmp" 2>/dev/null; rm -rf "$tmp"' EXIT
mkdir -p "$tmp/bin" "$tmp/scratch"
export VH_BIN=$tmp/bin VH_SCRATCH=$tmp/scratch VH_OUT=$here/evidence VH_KNOWN=$here/known-findings.json
# Build from a copy of the module files so that nothing in /repo or /verif is rewritten.
cp -a "$here/harness" "$tmp/h" || exit 2
fail() { echo "BUILD-ERROR: $1"; cat "$tmp/log" | head -40; exit 3; }
(cd /repo && go build -o "$tmp/bin/" ./cmd/sqlite3def ./cmd/mysqldef ./cmd/psqldef ./cmd/mssqldef) >"$tmp/log" 2>&1 || fail "tools do not build"
(cd "$tmp/h" && go build -o "$tmp/bin/vh" .) >"$tmp/log" 2>&1 || fail "harness does not build"
if [ "$id" = C18 ]; then
  (cd "$tmp/h" && go build -race -o "$tmp/bin/vrace" .) >"$tmp/log" 2>&1 || fail "race harness does not build"
fi
"$tmp/bin/vh" "$@"
exit $?

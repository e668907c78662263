#!/bin/bash
# bash /verif/check.sh <PROPERTY> [harness flags...]
# Instruments the tcpx package of /repo's working tree, builds the model
# checker around it in a scratch directory and runs it for one property.
# VERIF_TIER=quick|thorough (default quick).  Exit 0: held, 1: violated, 2: no answer.
set -u
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
id=${1:?usage: check.sh PROPERTY}
shift
repo=${REPO:-/repo}
tier=${VERIF_TIER:-quick}
if [ -d /opt/veriftools/go1.27.3/bin ]; then PATH=/opt/veriftools/go1.27.3/bin:$PATH; fi
export MC_REPO=$repo
export PATH GOTOOLCHAIN=local GOWORK=off GO111MODULE=on GOPROXY=off GOFLAGS= GOSUMDB=off
work=$(mktemp -d "${TMPDIR:-/tmp}/mc.XXXXXX") || exit 2
mkdir "$work/o"
trap 'rm -rf "$work"' EXIT
race=()
case "$id" in C22) race=(-race)
  export CGO_ENABLED=1 MC_RACELOG=$work/race GORACE="halt_on_error=0 exitcode=0 history_size=3 log_path=$work/race" ;; *) export CGO_ENABLED=0 ;; esac
cd "$here/mc" || exit 2
sed "s#=> /repo#=> $repo#" go.mod > "$work/go.mod"
cp go.sum "$work/go.sum"
{
  go build -o "$work/instr" ./instr &&
  "$work/instr" -repo "$repo" -out "$work/o" -modfile "$work/go.mod" -moddir "$here/mc" &&
  go build "${race[@]}" -mod=mod -modfile="$work/go.mod" -overlay "$work/o/overlay.json" -o "$work/mc" ./harness
} > "$work/build.log" 2>&1 || { echo "build failed"; cat "$work/build.log"; exit 2; }
[ -n "${MC_BUILD_ONLY:-}" ] && exit 0
[ -n "${MC_KEEP:-}" ] && cp "$work/mc" "$MC_KEEP"
"$work/mc" -prop "$id" -tier "$tier" -verif "${VERIF_OUT:-$here}" "$@"

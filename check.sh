#!/bin/bash
# check.sh ID [quick|thorough]      run the check of one property against /repo's working tree
# check.sh --replay FILE            re-run one recorded violation with a trace
# REPO=dir overrides /repo (development only).
set -u
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export GOSUMDB=off GONOSUMDB='*' GOFLAGS=-mod=mod GONOSUMCHECK=1
repo=${REPO:-/repo}
tier=${2:-${VERIF_TIER:-quick}}
# a scratch directory with a reusable name, so that the go build cache is reused
scratch=
for i in $(seq 0 63); do
  if mkdir "/tmp/vs.slot$i" 2>/dev/null; then scratch=/tmp/vs.slot$i; break; fi
done
[ -n "$scratch" ] || scratch=$(mktemp -d /tmp/vs.slotXXXXXXXX) || exit 3
cleanup() { rm -rf "/tmp/${scratch#/tmp/}"; }
trap cleanup EXIT
trap 'exit 3' INT TERM

build() { # $1: extra instrumentor flags
  rm -rf "$scratch/src" && mkdir -p "$scratch/src" "$scratch/h" || return 1
  "$scratch/instr" -repo "$repo" -out "$scratch/src" $1 || return 1
  cp -r "$here/vs" "$here/shims" "$scratch/" || return 1
  cp "$here"/harness/*.go "$scratch/h/" || return 1
  cp "$repo/go.sum" "$scratch/h/go.sum" 2>/dev/null
  python3 "$here/tools/mkmod.py" "$repo/go.mod" "$scratch" > "$scratch/h/go.mod" || return 1
  (cd "$scratch/h" && go build -o "$scratch/harness" .) || return 1
}

(cd "$here/tools/instr" && go build -o "$scratch/instr" .) || { echo "instrumentor does not build"; exit 3; }
if ! build "" > "$scratch/build.log" 2>&1; then
  if ! build "-nomem" >> "$scratch/build.log" 2>&1; then
    cat "$scratch/build.log"; echo "build of the instrumented tree failed"; exit 3
  fi
  echo "note: built without memory access points"
fi
[ "${KEEP:-}" ] && { mkdir -p /verif/.work; cp "$scratch/harness" /verif/.work/harness; }
cd "$here" || exit 3
if [ "${1:-}" = "--replay" ]; then
  "$scratch/harness" -replay "$2"; rc=$?
else
  "$scratch/harness" -check "$1" -tier "$tier" -verif "$here" -seed "${VERIF_SEED:-1}"; rc=$?
fi
exit $rc

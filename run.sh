#!/bin/bash
# Builds the harness against /repo's working tree and runs one check.
#   run.sh <ID>                 run the check (VERIF_SEED, VERIF_TIER)
#   run.sh replay <ID> <file>   re-run a saved case
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOTELEMETRY=off
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
mode=check
if [ "$1" = replay ] || [ "$1" = gen ] || [ "$1" = files ]; then mode="$1"; shift; fi
id="$1"; shift
scratch="$(mktemp -d /tmp/vh.XXXXXXXXXX)" || exit 4
trap 'rm -rf -- "$scratch"' EXIT
trap 'exit 143' TERM INT
mkdir -p "$scratch/bin" "$scratch/src" "$scratch/run"
cd "$here/harness" || exit 4
cp go.mod go.sum "$scratch/src/" || exit 4
build() { # out pkg flags...
  local out="$1" pkg="$2"; shift 2
  go build -modfile="$scratch/src/go.mod" "$@" -o "$scratch/bin/$out" "$pkg" >"$scratch/build-$out.log" 2>&1 || { cat "$scratch/build-$out.log" >&2; exit 5; }
}
build vh ./cmd/vh
case "$id" in
  C22) build wcore ./cmd/wcore; build wweb ./cmd/wweb; build wrace ./cmd/wweb -race ;;
  C18|C21|C23|C26) build wcore ./cmd/wcore; build wweb ./cmd/wweb ;;
  C20|C24) build wcore ./cmd/wcore; build wweb ./cmd/wweb; build wfold ./cmd/wfold ;;
  C25) build wfold ./cmd/wfold; build wfoldrace ./cmd/wfold -race ;;
  *) build wcore ./cmd/wcore ;;
esac
export VH_BIN="$scratch/bin" VH_SCRATCH="$scratch/run" VH_VERIF="$here"
"$scratch/bin/vh" "$mode" "$id" "$@"

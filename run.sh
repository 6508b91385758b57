#!/bin/bash
# Usage: run.sh <property> [--thorough] [--replay FILE]   builds the property's check from /repo's working tree and runs it.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD" VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
id="$1"; shift
if [ "${1:-}" = --thorough ]; then export VERIF_TIER=thorough; shift; fi
pkg=$(awk -v i="$id" '$1==i{print $2}' checks.txt)
[ -n "$pkg" ] || { echo "no check for $id" >&2; exit 2; }
mkdir -p build
log="build/$id.log"
if ! (cd ws && cargo build --offline --locked -p "$pkg") >"$log" 2>&1; then
	tail -60 "$log" >&2; echo "the check for $id did not build" >&2; exit 2
fi
# memory that runs away is a crash of the case, not of the sandbox
ulimit -v 20000000
exec "ws/target/debug/$pkg" "$id" "$@"

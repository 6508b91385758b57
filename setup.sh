#!/bin/bash
# Builds every check once (each check also builds itself).
cd "$(dirname "$0")/ws" || exit 1
pk=$(awk '!/^#/ && NF{print "-p " $2}' ../checks.txt | sort -u | tr '\n' ' ')
cargo build --offline --locked $pk >/dev/null 2>&1 || true
exit 0

#!/bin/bash
# ./run.sh C07 : builds the check of one property against /repo's working tree and runs it (tier from VERIF_TIER).
cd "$(dirname "$0")" || exit 2
export MC_ROOT=$PWD
id=$1; shift
bin=$(echo "$id" | tr A-Z a-z)
. ./env.sh
export VERIF_TIER=${VERIF_TIER:-quick} VERIF_SEED=${VERIF_SEED:-1}
log=$(mktemp)
if ! cargo build --offline --manifest-path mc/Cargo.toml --bin "$bin" >"$log" 2>&1; then
  grep -E '^(error|warning: unused)|^ +-->' "$log" | head -40 >&2; rm -f "$log"
  echo "check $id: build failed" >&2; exit 2
fi
rm -f "$log"
exec "target/debug/$bin" "$@"

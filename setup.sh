#!/bin/bash
# Builds the library and every check once, offline.
cd "$(dirname "$0")" || exit 2
. ./env.sh
cargo build --offline --manifest-path mc/Cargo.toml --bins 2>&1 | grep -E '^error|Finished' 
exit ${PIPESTATUS[0]}

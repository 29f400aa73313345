#!/bin/bash
# usage: bash run.sh <property> <quick|thorough> [--replay FILE]
# Builds the model checker against /repo's current working tree and runs one property's exploration.
here=$(cd "$(dirname "$0")" && pwd)
id=$1; tier=${2:-${VERIF_TIER:-quick}}; shift 2
export VERIF_DIR=$here VERIF_TIER=$tier
. "$here/tools/env.sh"
crate=harness; bin=nkmc
[ "$id" = W01 ] && { crate=wallet-harness; bin=nkmc-wallet; }
mkdir -p "$here/evidence"
log=$here/evidence/build-$crate.log
if ! (cd "$here/$crate" && cargo build --offline --locked) >"$log" 2>&1; then
    echo "build of $crate failed:"; tail -40 "$log"; exit 2
fi
exec "$here/$crate/target/debug/$bin" "$id" "$tier" "$@"

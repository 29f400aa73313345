#!/bin/bash
# Build every harness crate from the committed files and /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/tools/env.sh"
for c in harness wallet-harness; do
    [ -d "$here/$c" ] || continue
    (cd "$here/$c" && cargo build --offline --locked) || exit 1
done

#!/bin/bash
# usage: seed.sh <name> : takes a scratch copy with the change made in /tmp/seed/repo, validates and stores seeded/<name>.
# Expects /tmp/seed/repo (worktree copy with edits), /verif/seeded/<name>/{main.rs,meta.json}
name=$1; d=/verif/seeded/$name
[ -f $d/demo.sh ] || cp /verif/tools/seed/demo.sh $d/demo.sh
if [ -n "$(git -C /tmp/seed/repo diff)" ]; then git -C /tmp/seed/repo diff > $d/patch.diff; fi
# unchanged tree
git -C /tmp/seed/repo fetch -q origin
( cd /repo && bash $d/demo.sh >/tmp/seed/clean.out 2>&1 ); a=$?
git -C /tmp/seed/repo checkout -q -- . && git -C /tmp/seed/repo checkout -q --detach $(git -C /repo rev-parse HEAD) && git -C /tmp/seed/repo apply $d/patch.diff || exit 1
( cd /tmp/seed/repo && bash $d/demo.sh >/tmp/seed/bad.out 2>&1 ); b=$?
echo "demo clean=$a patched=$b"; tail -2 /tmp/seed/clean.out; tail -3 /tmp/seed/bad.out
( cd /tmp/seed/repo && RUSTUP_TOOLCHAIN=1.73 cargo test --workspace --no-fail-fast --offline --locked -- --test-threads 8 2>&1 | grep -E "^test .*FAILED|error(\[|:)|panicked" | head )
git -C /tmp/seed/repo checkout -q -- .

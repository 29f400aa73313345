#!/bin/bash
# Builds main.rs (beside this file) against the repository in the current directory and runs it.
# Exit 0: the property holds on the scenario; nonzero: it is broken.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=${HOME:-/root} PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=1.73 RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src" "$work/scratch"
cp "$here"/*.rs "$work/src/"
cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
nakamoto-common = { path = "$repo/common" }
nakamoto-chain = { path = "$repo/chain" }
nakamoto-p2p = { path = "$repo/p2p" }
nakamoto-net = { path = "$repo/net" }
nakamoto-net-poll = { path = "$repo/net/poll" }
nakamoto-client = { path = "$repo/client" }
fastrand = "*"
crossbeam-channel = "*"
[profile.dev]
debug-assertions = true
overflow-checks = true
T
cd "$work" && cargo build --offline >"$work/build.log" 2>&1 || { tail -30 "$work/build.log"; exit 99; }
cd "$work/scratch" && DEMO_SCRATCH="$work/scratch" timeout 200 "$work/target/debug/demo"

#!/bin/bash
# Builds a small program against the crate in the current directory and runs it.
# Everything it writes lies in a scratch directory that is removed at the end.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$(pwd)
export HOME=/root PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=nightly-2026-08-21-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
SCRATCH=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$SCRATCH"' EXIT
mkdir "$SCRATCH/src"
cp "$HERE/demo.rs" "$SCRATCH/src/main.rs"
[ -f "$REPO/Cargo.lock" ] && cp "$REPO/Cargo.lock" "$SCRATCH/Cargo.lock"
cat > "$SCRATCH/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
level_db_rust = { path = "$REPO" }
[profile.dev]
debug = false
TOML
export CARGO_TARGET_DIR="$SCRATCH/target" RUSTFLAGS="@FLAGS@ -A warnings"
cd "$SCRATCH" || exit 2
cargo build --offline >"$SCRATCH/build.log" 2>&1 || { tail -30 "$SCRATCH/build.log"; exit 2; }
timeout -k 5 60 "$SCRATCH/target/debug/demo"
RC=$?
[ $RC -eq 0 ] && echo "demo: holds" || echo "demo: broken (exit $RC)"
exit $RC

#!/bin/bash
# Builds demo.rs against the crate in the current directory and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
dir="$(mktemp -d /tmp/demo.XXXXXXXX)"
trap 'rm -rf "$dir"' EXIT
mkdir -p "$dir/src" "$dir/scratch"
cp "$here/demo.rs" "$dir/src/main.rs"
cat > "$dir/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[dependencies]
mp4ameta = { path = "$repo" }
[workspace]
TOML
cd "$dir" || exit 2
export DEMO_DIR="$dir/scratch" CARGO_TARGET_DIR="$dir/target" RUSTFLAGS="--cap-lints warn"
cargo build --offline --quiet 2> "$dir/log" || { tail -30 "$dir/log"; exit 2; }
ulimit -v 4000000
timeout 60 "$dir/target/debug/demo"

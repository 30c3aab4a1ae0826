#!/bin/bash
# Builds the program beside this file against the crate in the current directory and runs it.
# Exit 0: the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
dir=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$dir"' EXIT
mkdir -p "$dir/src"
cp "$here/main.rs" "$here/sim.rs" "$dir/src/" || exit 3
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$dir/Cargo.lock"
cat > "$dir/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
embedded-hal = "0.2.5"
mlx9064x = { path = "$repo/mlx9064x", default-features = false, features = ["${DEMO_FEATURE:-std}"] }
mlx9064x-test-data = { path = "$repo/mlx9064x-test-data" }
[workspace]
EOF
cd "$dir" || exit 3
CARGO_TARGET_DIR="$dir/target" cargo build --offline -q 2>"$dir/log" || { cat "$dir/log"; exit 3; }
timeout 120 "$dir/target/debug/demo"

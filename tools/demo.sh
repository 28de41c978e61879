#!/bin/bash
# builds demo.rs against the crate in the current directory and runs it in a scratch directory
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src" "$T/world"
cp "$D/demo.rs" "$T/src/main.rs"
cp "$D/demo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<X
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
nodejs-resolver = { path = "$R" }
[profile.dev]
debug-assertions = false
debug = false
[workspace]
X
export CARGO_TARGET_DIR="$T/target"
cd "$T/world" || exit 99
cargo run --offline --quiet --manifest-path "$T/Cargo.toml" -- "$T/world" || exit 1

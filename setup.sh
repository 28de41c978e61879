#!/bin/bash
# builds the symbolic executor from the committed sources, offline
set -e
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
cd engine && cargo build --release --offline

#!/bin/bash
# usage: build_harness.sh BUILDDIR [REPO] : builds the harness from /repo's working tree and prepares the IR
set -e
B=$1
REPO=${2:-/repo}
HERE=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
LT=$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin
mkdir -p "$B"
SRC="$HERE/harness"
if [ "$REPO" != /repo ]; then # development only: another working copy
  rm -rf "$B/hsrc"; mkdir -p "$B/hsrc"; cp -r "$HERE/harness/src" "$HERE/harness/Cargo.lock" "$B/hsrc/"
  sed "s#path = \"/repo\"#path = \"$REPO\"#" "$HERE/harness/Cargo.toml" > "$B/hsrc/Cargo.toml"
  SRC="$B/hsrc"
fi
cd "$SRC"
rm -rf "$B"/target/release/deps/hx-* "$B"/target/release/.fingerprint/hx-* "$B"/target/release/.fingerprint/nodejs-resolver-*
CARGO_TARGET_DIR="$B/target" cargo rustc --offline --release --quiet -- -C save-temps >"$B/build.log" 2>&1 || { tail -30 "$B/build.log"; exit 1; }
BC=$(ls "$B"/target/release/deps/hx-*.rcgu.lto.input.bc | head -1)
"$LT/opt" -strip-debug -S "$BC" -o "$B/in.ll"
"$HERE/engine/target/release/symex" prep "$B/in.ll" "$B/mid.ll"
API=$(grep -o 'define [^@]*@check_[A-Za-z0-9_]*' "$B/in.ll" | sed 's/.*@//' | tr '\n' ',')
"$LT/opt" -internalize-public-api-list="$API" -passes='internalize,globaldce,default<O1>' --vectorize-loops=false --vectorize-slp=false -S "$B/mid.ll" -o "$B/mod.ll"
cp "$B/target/release/hx" "$B/hx"
rm -f "$B/in.ll" "$B/mid.ll" "$B"/target/release/deps/hx-*.bc

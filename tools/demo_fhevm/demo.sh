#!/bin/bash
# runs demo.rs as a test module inside a scratch copy of the fhevm crate
set -u
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
mkdir -p "$t/r"; cp -r /repo/fhevm /repo/compiler /repo/Cargo.toml /repo/Cargo.lock "$t/r/"
cp "$here/demo.rs" "$t/r/fhevm/src/seeded_demo.rs"
printf '\n#[cfg(test)]\nmod seeded_demo;\n' >> "$t/r/fhevm/src/lib.rs"
cd "$t/r" && CARGO_TARGET_DIR="$t/target" cargo test --offline -q -p fhevm --lib seeded_demo

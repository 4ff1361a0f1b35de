#!/bin/bash
# builds a small program against /repo's compiler crate and checks the cleartext VM's output
set -u
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"; cp "$here"/*.rs "$t/src/"; cp /repo/Cargo.lock "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<'X'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
compiler = { path = "/repo/compiler" }
[workspace]
X
cd "$t" && CARGO_TARGET_DIR="$t/target" cargo run --offline -q

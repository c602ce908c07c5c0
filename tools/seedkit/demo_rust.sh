#!/bin/bash
# builds main.rs (beside this file) against the crate in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cp "$repo/Cargo.lock" "$tmp/Cargo.lock" 2>/dev/null || cp /opt/vp/Cargo.lock "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[features]
default = []
[dependencies]
zod = { path = "$repo" }
serde = { version = "1", features = ["derive"] }
serde_json = "1"
tokio = { version = "1", features = ["rt", "macros", "time", "sync"] }
futures = "0.3"
T
cd "$tmp" || exit 2
CARGO_TARGET_DIR="$tmp/target" cargo build --offline -q 2> "$tmp/err" || { tail -30 "$tmp/err"; exit 3; }
NODE_PATH=/opt/veriftools/node/node_modules HERE="$here" timeout 120 "$tmp/target/debug/demo" > "$tmp/out"
rc=$?
cat "$tmp/out" | head -40
[ $rc -eq 0 ] || { echo "demo exit $rc"; exit 1; }
if [ -f "$here/check.cjs" ]; then NODE_PATH=/opt/veriftools/node/node_modules timeout 120 node "$here/check.cjs" "$tmp/out" || exit 1; fi
exit 0

#!/bin/bash
# good.rs (beside this file) must compile against the crate in the current directory, and refused.rs must not
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
mkdir "$tmp/src/bin"; cp "$here/good.rs" "$here/refused.rs" "$tmp/src/bin/"
cp "$repo/Cargo.lock" "$tmp/Cargo.lock" 2>/dev/null || cp /opt/vp/Cargo.lock "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[features]
default = []
[dependencies]
zod = { path = "$repo" }
serde = { version = "1", features = ["derive"] }
serde_json = "1"
tokio = { version = "1", features = ["rt", "macros", "time", "sync"] }
futures = "0.3"
T
cd "$tmp" || exit 2
export CARGO_TARGET_DIR="$tmp/target"
cargo check --offline -q --bin good 2> "$tmp/err" || { tail -30 "$tmp/err"; exit 3; }
if cargo check --offline -q --bin refused 2> "$tmp/err"; then echo "refused.rs compiles"; exit 1; fi
exit 0

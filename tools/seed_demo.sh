#!/bin/bash
# Runs demo.rs (beside this file) against the lofty crate of the current directory.
d=$(cd "$(dirname "$0")" && pwd)
export REPO="$PWD"
t=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$t"' EXIT
mkdir "$t/src"; cp "$d/demo.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
lofty = { path = "$PWD/lofty" }
ogg_pager = { path = "$PWD/ogg_pager" }
T
cd "$t" && CARGO_TARGET_DIR="$t/target" cargo run -q --offline

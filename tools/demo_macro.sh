#!/bin/bash
# Builds demo.rs (beside this file) against the crates in the current directory, in a scratch folder, and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
chewed = { path = "$repo/chewed" }
chomp = { path = "$repo" }
chomp-macro = { path = "$repo/chomp-macro" }
proc-macro2 = "1.0.24"
quote = "1.0.8"
syn = "1.0.58"
T
cd "$d" && CARGO_TARGET_DIR="$d/target" cargo run --offline -q

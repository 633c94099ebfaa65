#!/bin/bash
# Builds main.rs (beside this script) against the rustfst in the current directory and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
d="$(mktemp -d /tmp/demo.XXXXXX)"
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src" "$d/oi/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/oi/src/lib.rs" <<'R'
pub trait OrderedMapIterator: Iterator { type Key; type Val; }
pub trait OrderedSetIterator: Iterator {}
R
printf '[package]\nname = "ordered_iter"\nversion = "0.1.2"\nedition = "2018"\n[workspace]\n' > "$d/oi/Cargo.toml"
cat > "$d/Cargo.toml" <<R
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
rustfst = { path = "$repo/rustfst" }
anyhow = "1"
[patch.crates-io]
ordered_iter = { path = "oi" }
[profile.dev]
debug = 0
R
cd "$d" && CARGO_TARGET_DIR="$d/target" timeout 280 cargo run --offline -q

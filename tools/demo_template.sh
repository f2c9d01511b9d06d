#!/bin/bash
# Runs demo.rs (next to this file) against the crates of the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf -- "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
av-metrics = "0.9"
av-metrics-decoders = { version = "0.3.2", features = ["y4m"] }
[patch.crates-io]
av-metrics = { path = "$repo/av_metrics" }
av-metrics-decoders = { path = "$repo/av_metrics_decoders" }
[profile.dev]
opt-level = 1
T
cd "$d" && timeout 280 env CARGO_TARGET_DIR="$d/target" cargo run --offline --quiet

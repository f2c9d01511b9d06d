#!/bin/bash
# Builds the extractor, the replay harness and the tool, offline.
set -e
cd "$(dirname "$0")"
CARGO_TARGET_DIR=$PWD/.build/vx cargo build --offline --release --manifest-path vx/Cargo.toml
CARGO_TARGET_DIR=$PWD/.build/replay cargo build --offline --release --manifest-path replay/Cargo.toml
verus --version

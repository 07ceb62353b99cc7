#!/bin/sh
# builds the extractor and the replay harness
cd "$(dirname "$0")" || exit 1
set -e
CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/.build/extract" cargo build --offline --manifest-path extract/Cargo.toml
CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/.build/harness" cargo build --offline --manifest-path harness/Cargo.toml

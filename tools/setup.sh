#!/bin/bash
# builds the extractor and the bounded engines from the committed files
set -e
cd "$(dirname "$0")/.."
CARGO_TARGET_DIR=$PWD/build/extract cargo build --release --offline --manifest-path tools/extract/Cargo.toml
CARGO_TARGET_DIR=$PWD/build/harness cargo build --offline --manifest-path harness/Cargo.toml
RUSTC_BOOTSTRAP=1 CARGO_TARGET_DIR=$PWD/build/expand cargo rustc --offline --manifest-path tools/macros/Cargo.toml -p goggles --lib --profile check -- -Zunpretty=expanded >/dev/null

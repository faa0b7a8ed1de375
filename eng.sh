#!/bin/bash
# rebuild the engine
cd /verif/engine && CARGO_TARGET_DIR=/verif/target/engine RUSTUP_TOOLCHAIN=nightly cargo build --release --offline 2>&1 | grep -E "^error|Finished" -A6

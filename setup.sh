#!/bin/bash
# builds the extractor and the replay binaries (offline)
set -e
cd "$(dirname "$0")"
(cd tools/vx && cargo build --release --offline)
(cd replay && CARGO_TARGET_DIR=/verif/target cargo build --offline --lib --bins)
(cd replay2 && CARGO_TARGET_DIR=/verif/target cargo build --offline --lib --bins)
(cd replay3 && CARGO_TARGET_DIR=/verif/target cargo build --offline --lib --bins)

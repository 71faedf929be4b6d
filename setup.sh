#!/bin/bash
# Builds all checks, offline. Every check builds itself again from /repo's working tree.
cd "$(dirname "${BASH_SOURCE[0]}")/mc" && cargo build --release --offline --bins &&
    { cargo build --release --offline --bin c23 --features keys || true; } &&
    RUSTC_WRAPPER=$PWD/instrument.sh CARGO_TARGET_DIR=$PWD/target/points cargo build --release --offline --bin c20

#!/bin/bash
# builds the harness once, in both profiles, so that a build problem shows up early
cd "$(dirname "$0")/harness" || exit 3
export CARGO_TARGET_DIR="$PWD/../target" RUSTFLAGS="--cfg lang_pt_verif" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
cargo build --offline --locked --quiet --release 2>&1 | tail -40
cargo build --offline --locked --quiet --profile plain 2>&1 | tail -40
test -x ../target/release/lpmc && test -x ../target/plain/lpmc

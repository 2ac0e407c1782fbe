#!/bin/bash
# check.sh ID quick|thorough   explore property ID and write evidence/ID.json
# check.sh replay FILE         run again the one case recorded in FILE
cd "$(dirname "$0")" || exit 3
here=$PWD
export CARGO_TARGET_DIR="$here/target" RUSTFLAGS="--cfg lang_pt_verif" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
export LPMC_VERIF="$here"
build() {
  log=$(cd harness && cargo build --offline --locked --quiet "$@" 2>&1) || {
    echo "$log" | tail -60
    echo "build failed: no verdict"
    exit 3
  }
}
mkdir -p evidence
build --release
id=$1
if [ "$id" = C26 ]; then build --profile plain; fi
if [ "$id" = replay ]; then
  exec "$here/target/release/lpmc" replay "$2"
fi
exec "$here/target/release/lpmc" check "$id" "${2:-quick}"

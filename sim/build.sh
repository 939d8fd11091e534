#!/bin/bash
# build.sh toy|real|toychk|realchk TARGETDIR [extra cargo args]: build the
# simulator with /repo's current code; the chk flavours have the debug assertions
# and arithmetic checks of a debug build in everything but the simulator itself
here="$(cd "$(dirname "$0")" && pwd)"
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER="$here/rustc-wrap.sh" CARGO_TARGET_DIR="$2"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
export FESTA_SIM_CFG=""
feat=()
case "$1" in toy*) FESTA_SIM_CFG="--cfg festa_sim_toy"; feat=(--features toy) ;; esac
case "$1" in *chk)
  for k in debug-assertions overflow-checks; do feat+=(--config "profile.release.package.\"*\".$k=true"); done ;;
esac
cd "$here" && exec cargo build --release --offline --locked "${feat[@]}" "${@:3}"

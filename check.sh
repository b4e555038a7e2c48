#!/bin/bash
# check.sh Cxx [quick|thorough]   builds the simulator from /repo's working tree and runs the property's check
# check.sh build                  builds only
# check.sh replay FILE            builds and replays a recorded violation
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$VERIF_ROOT/sim/target" RUSTC_WRAPPER="$VERIF_ROOT/sim/rustc-wrap.sh"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
export CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0
mkdir -p evidence "$CARGO_TARGET_DIR"
(
  flock 9
  cd sim && cargo build --offline --locked >"$CARGO_TARGET_DIR/build.log" 2>&1
) 9>"$CARGO_TARGET_DIR/.lock"
if [ $? -ne 0 ]; then
  tail -n 40 "$CARGO_TARGET_DIR/build.log" >&2
  echo "check.sh: the simulator does not build against this tree" >&2
  exit 2
fi
bin="$CARGO_TARGET_DIR/debug/strokesim"
case "$1" in
  build) exit 0 ;;
  replay) exec "$bin" replay "$2" ;;
  *) exec "$bin" check --prop "$1" --tier "${2:-${VERIF_TIER:-quick}}" ;;
esac

#!/bin/bash
# check.sh ID              run the check of a property (VERIF_TIER=quick|thorough, VERIF_SEED)
# check.sh ID replay PATH  run one recorded case again
# check.sh --build         only build
set -u
ROOT="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
ID="${1:-}"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTC_WRAPPER
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export VERIF_ROOT="$ROOT" VERIF_REPO="${VERIF_REPO:-/repo}"
cd "$ROOT/harness" || exit 2

# Everything that comes from /repo is built again, whatever the time stamps say.
build_harness() {
  cargo clean --release --offline --locked -p elm-parser >/dev/null 2>&1
  # with coverage callbacks in the parser; should the compiler not manage that, without them
  cargo build --release --offline --locked >"$ROOT/harness/build.log" 2>&1 ||
    CARGO_BUILD_RUSTC_WRAPPER= cargo build --release --offline --locked >"$ROOT/harness/build.log" 2>&1
}
build_tools() {
  export CARGO_BUILD_RUSTC_WRAPPER= CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=true CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true
  local a=(--release --offline --manifest-path /repo/Cargo.toml --target-dir "$ROOT/target-bins")
  cargo clean "${a[@]}" --locked -p elm-parser >/dev/null 2>&1
  cargo build "${a[@]}" --locked >"$ROOT/harness/build-tools.log" 2>&1
}
(
  flock 9
  build_harness || { tail -40 "$ROOT/harness/build.log" >&2; echo "the harness does not build" >&2; exit 2; }
  case "$ID" in
    C06|C22|C23|C28|--build)
      build_tools || { tail -40 "$ROOT/harness/build-tools.log" >&2; echo "the tools do not build" >&2; exit 2; } ;;
  esac
) 9>"$ROOT/harness/.lock" || exit 2
export VERIF_BINS="$ROOT/target-bins/release"
[ "$ID" = "--build" ] && exit 0

H="$ROOT/harness/target/release/harness"
if [ "${2:-}" = "replay" ]; then
  exec "$H" replay "$ID" "$3"
fi
exec "$H" check "$ID"

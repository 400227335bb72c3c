#!/bin/bash
# check.sh ID quick|thorough   rebuilds everything from /repo's working tree, then searches.
# check.sh --build             only builds.   check.sh --replay FILE   replays a recorded violation.
# check.sh --sim ARGS...       runs the simulator with ARGS (see sim/src/main.rs).
set -u
root="$(cd "$(dirname "$0")" && pwd)"
out="$root/build"
mkdir -p "$out" || exit 2
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER RASNSIM_TOOL RASNSIM_SHIM
bin="$out/bin"
# cargo decides by timestamps; decide by content instead, so that a checked-out, patched or
# restored tree is always rebuilt
sum() { (cat "$root/check.sh"
         cd "$root/sim" && find src corpus shim fine-rustc.sh Cargo.toml Cargo.lock -type f -print0 | sort -z | xargs -0 sha256sum
         cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 | sort -z | xargs -0 sha256sum
         rustc -V) | sha256sum; }
build() {
  cd "$root/sim" && mkdir -p "$bin" || return 1
  rm -f "$bin"/*
  # the simulator, with rx509 compiled so that it can be preempted anywhere
  export CARGO_TARGET_DIR="$out/fine"
  cargo clean --release --offline -p rasnsim -p rx509 >/dev/null 2>&1
  RUSTC_WRAPPER="$root/sim/fine-rustc.sh" cargo build --release --offline --locked --bin rasnsim ||
    RUSTC_WRAPPER="$root/sim/fine-rustc.sh" cargo build --release --offline --locked --no-default-features --bin rasnsim || return 1
  cp "$out/fine/release/rasnsim" "$bin/" || return 1
  # the tool, as it is
  export CARGO_TARGET_DIR="$out/plain"
  cargo clean --release --offline -p rasnsim -p rx509 >/dev/null 2>&1
  cargo build --release --offline --locked --bin decoder || return 1
  cp "$out/plain/release/decoder" "$bin/" || return 1
  gcc -O2 -U_FORTIFY_SOURCE -fno-delete-null-pointer-checks -fno-builtin -fPIC -shared -o "$bin/simio.so" shim/simio.c
}
(
  flock 9
  want="$(sum)"
  if [ "$(cat "$out/stamp" 2>/dev/null)" != "$want" ] || [ ! -x "$bin/rasnsim" ] || [ ! -x "$bin/decoder" ] || [ ! -f "$bin/simio.so" ]; then
    rm -f "$out/stamp"
    build >"$out/build.log" 2>&1 || { tail -40 "$out/build.log" >&2; exit 2; }
    echo "$want" >"$out/stamp"
  fi
) 9>"$out/lock" || exit 2
export RASNSIM_ROOT="$root"
case "${1:-}" in
  --build) exit 0 ;;
  --replay) exec "$bin/rasnsim" replay "$2" ;;
  --sim) shift; exec "$bin/rasnsim" "$@" ;;
esac
exec "$bin/rasnsim" check "$1" "${2:-quick}"

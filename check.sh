#!/bin/bash
# usage: check.sh build | check.sh <property> [quick|thorough] | check.sh replay <file>
# Builds the checkers from /verif and /repo's current working tree (offline), then runs one check.
set -u
V="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$V" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS 2>/dev/null
export CARGO_TARGET_DIR="$V/target"
export RUST_BACKTRACE=0
mkdir -p "$CARGO_TARGET_DIR" "$V/evidence"

srchash() {
  (cd /repo && find tower tower-layer tower-service tower-test -type f \( -name '*.rs' -o -name Cargo.toml \) -not -path '*/target/*' -print0 \
    | sort -z | xargs -0 sha256sum; sha256sum Cargo.toml) | sha256sum | cut -d' ' -f1
}

build() { # <crate>
  local crate="$1" h old
  exec 9>"$CARGO_TARGET_DIR/.lock-$crate"; flock 9
  h="$(srchash)"; old="$(cat "$CARGO_TARGET_DIR/.srchash-$crate" 2>/dev/null)"
  if [ "$h" != "$old" ]; then
    # never trust time stamps: force cargo to look at tower's sources again
    rm -rf "$CARGO_TARGET_DIR"/release/.fingerprint/tower*-* "$CARGO_TARGET_DIR"/release/.fingerprint/"$crate"-* 2>/dev/null
  fi
  if ! cargo build --offline --locked --release --manifest-path "$V/$crate/Cargo.toml" >"$CARGO_TARGET_DIR/build-$crate.log" 2>&1; then
    grep -E '^error' -A12 "$CARGO_TARGET_DIR/build-$crate.log" | head -60 >&2
    echo "CHECK ERROR: building $crate failed (see $CARGO_TARGET_DIR/build-$crate.log)" >&2
    return 3
  fi
  echo "$h" > "$CARGO_TARGET_DIR/.srchash-$crate"
  flock -u 9
}

# Two engines: mc explores schedules of tasks, environment answers and time on /repo's crates as
# they are built; mct explores thread interleavings of the same sources compiled against shims.
THREADS=" C03 C04 C05 C06 C12 C15 C19 C20 C29 "
TASKS_NOT=" C12 "
case "${1:-}" in
  build)
    build mc || exit 3; build mct || exit 3; exit 0 ;;
  replay)
    e=mc; grep -q '"engine": *"mct"' "$2" && e=mct
    build $e || exit 3; exec "$CARGO_TARGET_DIR/release/$e" replay "$2" ;;
  "") echo "usage: $0 build|<property> [tier]|replay <file>" >&2; exit 2 ;;
esac
P="$1"; T="${2:-${VERIF_TIER:-quick}}"
unset MC_MERGE
rm -f "$V/evidence/$P.json"
if [[ "$THREADS" == *" $P "* ]]; then
  if build mct; then
    "$CARGO_TARGET_DIR/release/mct" check "$P" "$T" ${3:+"$3"}; rc=$?
    [ $rc -ne 0 ] && exit $rc
    [[ "$TASKS_NOT" == *" $P "* ]] && exit 0
    export MC_MERGE=1
  elif [[ "$TASKS_NOT" == *" $P "* ]]; then
    exit 3
  else
    # The source uses something the thread engine's shims lack: the task engine still decides.
    echo "NOTE: thread interleavings of $P were NOT explored in this run (see above)" >&2
  fi
fi
build mc || exit 3
"$CARGO_TARGET_DIR/release/mc" check "$P" "$T" ${3:+"$3"}

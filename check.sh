#!/bin/bash
# check.sh <property id>: builds the harness against /repo's working tree and decides the property.
# check.sh replay <file>: re-runs a recorded failure.
set -u
ROOT="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VH_ROOT="$ROOT"
export RUSTUP_TOOLCHAIN="${VH_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}"
export CARGO_TARGET_DIR="$ROOT/target"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
mkdir -p "$CARGO_TARGET_DIR"
# cargo decides by modification times; decide by content whether askama has to be built again
exec 9>"$CARGO_TARGET_DIR/.vh-lock"
flock 9
NOW="$(cd /repo && find askama askama_derive askama_escape askama_parser askama_actix askama_axum askama_rocket askama_warp \
  \( -name target -prune \) -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)"
if [ "$(cat "$CARGO_TARGET_DIR/.vh-hash" 2>/dev/null)" != "$NOW" ]; then
  (cd "$ROOT/harness" && cargo clean -q -p askama -p askama_derive -p askama_escape -p askama_parser 2>/dev/null)
  (cd "$ROOT/harness/features" && cargo clean -q -p askama -p askama_derive -p askama_escape -p askama_parser 2>/dev/null)
  (cd "$ROOT/harness/web" && cargo clean -q -p askama -p askama_derive -p askama_escape -p askama_parser \
    -p askama_actix -p askama_axum -p askama_rocket -p askama_warp 2>/dev/null)
  echo "$NOW" > "$CARGO_TARGET_DIR/.vh-hash"
fi
export VH_META="$CARGO_TARGET_DIR/vh-meta.json"
if ! (cd "$ROOT/harness" && cargo build --offline --locked --message-format=json-render-diagnostics > "$VH_META" 2> "$CARGO_TARGET_DIR/vh-build.log"); then
  cat "$CARGO_TARGET_DIR/vh-build.log" >&2
  echo "check.sh: the harness does not build" >&2
  exit 2
fi
# the order is that of SETS in props/features.rs
build_features() {
  K=0
  for f in "" config humansize num-traits urlencode serde-json serde_json "config urlencode num-traits serde_json"; do
    if ! (cd "$ROOT/harness/features" && cargo build --offline --locked --no-default-features --features "$f" --message-format=json-render-diagnostics \
      > "$CARGO_TARGET_DIR/vh-meta-f$K.json" 2> "$CARGO_TARGET_DIR/vh-build.log"); then
      # that is what C29 is about: everything else has been built
      cat "$CARGO_TARGET_DIR/vh-build.log" >&2
      mkdir -p "$ROOT/replay"
      { echo "cargo build --no-default-features --features '$f'"; cat "$CARGO_TARGET_DIR/vh-build.log"; } > "$ROOT/replay/C29-build.txt"
      echo "VIOLATION property=C29 replay=$ROOT/replay/C29-build.txt"
      exit 1
    fi
    K=$((K + 1))
  done
}
case "${1:-} $([ "${1:-}" = replay ] && basename "$2")" in
  C27*|replay\ C27*|web*)
    for f in axum actix rocket warp; do
      if ! (cd "$ROOT/harness/web" && cargo build --offline --locked -p "web_$f" --message-format=json-render-diagnostics \
        > "$CARGO_TARGET_DIR/vh-meta-$f.json" 2> "$CARGO_TARGET_DIR/vh-build.log"); then
        cat "$CARGO_TARGET_DIR/vh-build.log" >&2
        echo "check.sh: the harness for $f does not build" >&2
        exit 2
      fi
    done
    if [ "$1" = web ]; then
      build_features
      exit 0
    fi ;;
  C29*|replay\ C29*|features*)
    build_features
    if [ "$1" = features ]; then exit 0; fi ;;
esac
flock -u 9
if [ "${1:-}" = build ]; then exit 0; fi
if [ "${1:-} $(basename "${2:-}")" = "replay C29-build.txt" ]; then echo "all sets of features build"; exit 0; fi
if [ "${1:-}" = replay ]; then exec "$CARGO_TARGET_DIR/debug/vh" replay "$2"; fi
if [ "${1:-}" = vh ]; then shift; exec "$CARGO_TARGET_DIR/debug/vh" "$@"; fi
exec "$CARGO_TARGET_DIR/debug/vh" check "$1"

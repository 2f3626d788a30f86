#!/bin/bash
# run.sh build            build the model checker against /repo's working tree
# run.sh <ID> <tier>      ... and decide one property (tier: quick | thorough)
# run.sh replay <file>    run one recorded case again
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$PWD/mc/target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
BIN="$CARGO_TARGET_DIR/release/mc"

build() {
  # always recompile the library: what counts is the tree as it is now
  if [ -d "$CARGO_TARGET_DIR/release/.fingerprint" ]; then
    find "$CARGO_TARGET_DIR/release/.fingerprint" -maxdepth 1 -name 'ncas-*' -exec rm -rf {} +
  fi
  mkdir -p "$CARGO_TARGET_DIR"
  local log="$CARGO_TARGET_DIR/build.log"
  # hooked: iteration order is enumerated; internals: rules and fractions are also called directly.
  # If the tree no longer offers one of the two, do without it rather than give no answer.
  local flags features
  for features in "" "--no-default-features"; do
    for flags in "--cfg ncas_verif" ""; do
      if RUSTFLAGS="$flags -Awarnings" cargo build --release --offline --locked $features --manifest-path mc/Cargo.toml >"$log" 2>&1; then
        [ -z "$features" ] && [ -n "$flags" ] || echo "note: built with flags '$flags' features '$features'" >&2
        return 0
      fi
    done
  done
  tail -40 "$log" >&2
  return 1
}

case "$1" in
  build) build || exit 2 ;;
  replay) build || exit 2; exec "$BIN" replay "$2" ;;
  *)
    build || { echo "build failed" >&2; exit 2; }
    exec "$BIN" check "$1" --tier "${2:-${VERIF_TIER:-quick}}"
    ;;
esac

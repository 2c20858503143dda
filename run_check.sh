#!/bin/bash
# Usage: run_check.sh ID            run the check of one property (VERIF_TIER=quick|thorough)
#        run_check.sh --replay FILE repeat the case a VIOLATION line names
#        run_check.sh --build       only build
# Builds the harness with the library as it stands in /repo's working tree.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$VERIF_DIR/harness/target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
mkdir -p build evidence
(
  flock 9
  # Rebuild by content, whatever the time stamps of a copied tree say.
  want=$(cd /repo && { cat Cargo.toml; find src -type f | LC_ALL=C sort | while read -r f; do echo "$f"; cat "$f"; done; } | sha256sum)
  stamp=build/library.sha256
  if [ -e "$stamp" ] && [ "$(cat "$stamp")" != "$want" ]; then
    (cd harness && cargo clean --release --offline -q -p rust-kpdb) >/dev/null 2>&1
  fi
  if ! (cd harness && cargo build --release --offline -q) >build/build.log 2>&1; then
    echo "the harness does not build against /repo:"
    grep -v '^warning' build/build.log | tail -60
    exit 2
  fi
  echo "$want" >"$stamp"
) 9>build/.lock || exit 2
case "$1" in
  --build) exit 0 ;;
  --replay) exec harness/target/release/kpdb-mc replay "$2" ;;
  *) exec harness/target/release/kpdb-mc check "$1" ;;
esac

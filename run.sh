#!/bin/bash
# usage: run.sh build | check <property> | replay <file>
# Builds the harness against /repo's current working tree, then runs the check.
export PATH="$HOME/.cargo/bin:/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true
export VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
unset DOCS_RS RUSTFLAGS CARGO_TARGET_DIR RUST_BACKTRACE RUST_LIB_BACKTRACE
cd "$VERIF_DIR/harness" || exit 2
ulimit -v 16000000
build() {
  local log; log=$(mktemp)
  if ! cargo build --offline --bins >"$log" 2>&1; then
    grep -E '^(error|warning: unused)' -A 12 "$log" | head -60 >&2
    tail -5 "$log" >&2
    rm -f "$log"
    echo "build of the harness failed" >&2
    exit 2
  fi
  rm -f "$log"
}
case "$1" in
  build) build ;;
  check) build; exec ./target/debug/pbt check "$2" ;;
  replay) build; exec ./target/debug/pbt replay "$(cd "$OLDPWD" && realpath "$2")" ;;
  *) echo "usage: run.sh build|check ID|replay FILE" >&2; exit 2 ;;
esac

#!/bin/bash
# usage: check.sh ID [quick|thorough] | check.sh --replay FILE | check.sh --list | check.sh --build
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export PATH="/root/.cargo/bin:/usr/local/bin:$PATH" HOME="${HOME:-/root}"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUSTFLAGS="--cap-lints warn" CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR="$PWD/mc/target"
unset RUST_BACKTRACE
log=$(mktemp)
if ! cargo build --release --offline --manifest-path mc/Cargo.toml >"$log" 2>&1; then
    grep -E '^(error|warning: unused)' -A6 "$log" | head -60 >&2
    echo "HARNESS-ERROR: the harness does not build against /repo" >&2
    rm -f "$log"
    exit 2
fi
rm -f "$log"
mc="$CARGO_TARGET_DIR/release/mc"
case "$1" in
--build) exit 0 ;;
--list) exec "$mc" list ;;
--replay) exec "$mc" replay "$2" ;;
*) exec "$mc" check "$1" --tier "${2:-${VERIF_TIER:-quick}}" "${@:3}" ;;
esac

#!/bin/bash
# usage: conc.sh build | conc.sh check <property> [quick|thorough] | conc.sh replay <file>
. "$(dirname "$0")/env.sh"
export RUSTUP_TOOLCHAIN=nightly
# (globalopt would turn statics that only one function uses into local variables)
# the instrumentation of the thread sanitizer, with our own run time (conc/rt)
export RUSTFLAGS="-Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer -Cllvm-args=-opt-disable=globalopt -Cllvm-args=-opt-bisect-verbose=0"
cd "$VERIF/conc" || exit 3
if ! CARGO_TARGET_DIR="$TARGET/conc" cargo build --release --offline --locked -q --target x86_64-unknown-linux-gnu 2>"$TARGET/conc-build.log"; then
	tail -n 40 "$TARGET/conc-build.log"
	echo "conc.sh: cannot build against /repo" >&2
	exit 3
fi
BIN="$TARGET/conc/x86_64-unknown-linux-gnu/release/conc"
case "$1" in
build) exit 0 ;;
check) exec "$BIN" check "$2" "${3:-${VERIF_TIER:-quick}}" ;;
replay | one | list) exec "$BIN" "$@" ;;
*) exit 3 ;;
esac

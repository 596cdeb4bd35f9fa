#!/bin/bash
# usage: cxx.sh build | cxx.sh check <property> [quick|thorough] | cxx.sh replay <file>
. "$(dirname "$0")/env.sh"
export RUSTUP_TOOLCHAIN=nightly
export RUSTFLAGS="-Zsanitizer=address -Cunsafe-allow-abi-mismatch=sanitizer"
cd "$VERIF/mc" || exit 3
if ! CARGO_TARGET_DIR="$TARGET/cxx" cargo build --release --offline --locked -q --features cxx --target x86_64-unknown-linux-gnu 2>"$TARGET/cxx-build.log"; then
	tail -n 40 "$TARGET/cxx-build.log"
	echo "cxx.sh: cannot build against /repo" >&2
	exit 3
fi
BIN="$TARGET/cxx/x86_64-unknown-linux-gnu/release/mc"
export ASAN_OPTIONS=detect_leaks=0:quarantine_size_mb=16:abort_on_error=1:allocator_may_return_null=1
case "$1" in
build) exit 0 ;;
check) exec "$BIN" check "$2" "${3:-${VERIF_TIER:-quick}}" ;;
replay) exec "$BIN" replay "$2" ;;
*) exit 3 ;;
esac

#!/bin/bash
# usage: mc.sh build | mc.sh check <property> [quick|thorough] | mc.sh replay <file>
. "$(dirname "$0")/env.sh"
export RUSTUP_TOOLCHAIN=nightly
cd "$VERIF/mc" || exit 3
# two builds: with and without debug assertions and overflow checks
for profile in release plain; do
	CARGO_TARGET_DIR="$TARGET/mc-$profile" cargo build --profile $profile --offline --locked -q 2>"$TARGET/mc-$profile.log" &
	eval "$profile=\$!"
done
for profile in release plain; do
	if ! wait "${!profile}"; then
		tail -n 40 "$TARGET/mc-$profile.log"
		echo "mc.sh: cannot build against /repo" >&2
		exit 3
	fi
done
BIN="$TARGET/mc-release/release/mc"
export MC_ALT="$TARGET/mc-plain/plain/mc"
case "$1" in
build) exit 0 ;;
check) exec "$BIN" check "$2" "${3:-${VERIF_TIER:-quick}}" ;;
replay)
	grep -q '^build=plain' "$2" && BIN="$MC_ALT"
	exec "$BIN" replay "$2"
	;;
*) exit 3 ;;
esac

# Common environment of all checks. Nothing is fetched; the toolchain is the installed one.
export HOME="${HOME:-/root}"
export PATH="$PATH:/usr/local/bin:$HOME/.cargo/bin"
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
export VERIF_DIR="$VERIF"
# build output lives below /verif/target, which git ignores
TARGET="$VERIF/target"
mkdir -p "$TARGET" "$VERIF/evidence" "$VERIF/replays"

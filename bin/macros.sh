#!/bin/bash
# usage: macros.sh build | macros.sh check C20 [quick|thorough] | macros.sh replay <file>
. "$(dirname "$0")/env.sh"
case "$1" in
build) exec python3 "$VERIF/macros/check.py" quick ;;
check) exec python3 "$VERIF/macros/check.py" "${3:-${VERIF_TIER:-quick}}" ;;
replay) exec python3 "$VERIF/macros/check.py" form "$(sed -n 's/^tier=//p' "$2" | head -1)" "$(sed -n 's/^form=//p' "$2" | head -1)" ;;
*) exit 3 ;;
esac

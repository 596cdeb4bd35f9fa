#!/bin/bash
# Builds everything once. Every check also builds what it needs by itself.
cd "$(dirname "$0")" || exit 1
set -e
bash mc.sh build
bash conc.sh build
bash cxx.sh build
bash macros.sh build

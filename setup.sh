#!/bin/bash
# builds everything the checks need, from /repo's working tree
cd "$(dirname "$0")" || exit 1
python3 tools/build.py sys all || exit 1
exec python3 tools/build.py asan $(cat tools/asan_targets)

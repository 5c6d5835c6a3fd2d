#!/bin/bash
# Builds what the checks build, so that they only have to rebuild what comes from /repo and from the harness
cd "$(dirname "$0")" || exit 1
. ./lib.sh
build_both threads,c19 || { tail -n 40 "$LOG" >&2; exit 1; }
build_asan c24 || { tail -n 40 "$LOG" >&2; exit 1; }
build_miri C24 c24 || { tail -n 40 "$LOG" >&2; exit 1; }
echo "setup done"

#!/bin/bash
# check.sh <property>: builds the monitor against /repo's working tree and runs it. VERIF_SEED and VERIF_TIER as in the environment.
# Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken. Anything else: no answer.
cd "$(dirname "$0")" || exit 2
. ./lib.sh
id=$1
case $id in C[0-9][0-9]) ;; *) echo "usage: check.sh C01..C31" >&2; exit 2 ;; esac
lower=${id,,}
export MONITOR_HOME=$VERIF

case $id in
C24)
    build_plain c24 &
    build_asan c24 || no_answer "$id"
    wait $! || no_answer "$id"
    export MONITOR_PLAIN=$PLAIN_BIN
    export MONITOR_ASAN=$ASAN_BIN
    build_miri C24 c24 || no_answer "$id"
    run "$ASAN_BIN" C24
    ;;
C19)
    if ! build_both threads,c19; then
        cp "$LOG" "$LOG.threads"
        if build_release c19; then
            not_shareable "$LOG.threads"
            exit 1
        fi
        no_answer "$id"
    fi
    build_miri C19 c19 || no_answer "$id"
    run "$RELEASE_BIN" C19
    ;;
*)
    # (the feature "threads" has no part in the other properties)
    build_both "$lower" || no_answer "$id"
    run "$RELEASE_BIN" "$id"
    ;;
esac

#!/bin/bash
# replay.sh <property> <seed> <quick|thorough|tiny> <case> [asan|miri|plain|crowd]: runs one case again, against /repo's working tree
cd "$(dirname "$0")" || exit 2
. ./lib.sh
[ $# -ge 4 ] || { echo "usage: replay.sh C01 <seed> <quick|thorough|tiny> <case> [asan|miri|plain|crowd]" >&2; exit 2; }
export MONITOR_HOME=$VERIF
lower=${1,,}
how=${5:-}
[ -z "$how" ] && [ "$1" = C24 ] && how=asan
[ -z "$how" ] && [ "$3" = tiny ] && how=miri
case $how in
asan) build_asan "$lower" || no_answer "$1"; exec "$ASAN_BIN" one "$1" "$2" "$3" "$4" ;;
plain) build_plain "threads,$lower" || build_plain "$lower" || { cat "$LOG.plain" >>"$LOG"; no_answer "$1"; }; exec "$PLAIN_BIN" one "$1" "$2" "$3" "$4" ;;
crowd) # in threads of one process; what they do to each other need not happen at once
    build_release "threads,$lower" || build_release "$lower" || no_answer "$1"; exec "$RELEASE_BIN" crowd "$1" "$2" "$3" 8 4000000 30 ;;
miri)
    build_miri "$1" "$lower" || no_answer "$1"
    MIRIFLAGS="-Zmiri-ignore-leaks -Zmiri-seed=$(($2 & 65535))" exec cargo +nightly miri run --offline --locked --quiet --no-default-features --features "threads,$lower" --target-dir "$T/miri" --manifest-path "$MANIFEST" -- one "$1" "$2" "$3" "$4" ;;
*) build_release "threads,$lower" || build_release "$lower" || no_answer "$1"; exec "$RELEASE_BIN" one "$1" "$2" "$3" "$4" ;;
esac

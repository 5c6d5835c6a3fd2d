# Shared by check.sh, replay.sh and setup.sh
VERIF=$PWD
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:$PATH
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset RUSTFLAGS RUSTC_WRAPPER CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR CARGO_ENCODED_RUSTFLAGS CARGO_PROFILE_DEV_DEBUG RUSTUP_TOOLCHAIN MIRIFLAGS
unset MONITOR_PLAIN MONITOR_ASAN MONITOR_MIRI MONITOR_MIRI_TARGET
HARNESS=$VERIF/harness
MANIFEST=$HARNESS/Cargo.toml
T=$VERIF/target
HOST=x86_64-unknown-linux-gnu
RELEASE_BIN=$T/main/release/monitor
PLAIN_BIN=$T/plain/plain/monitor
ASAN_BIN=$T/asan/$HOST/release/monitor
LOG=$T/build.log
mkdir -p "$T" "$VERIF/evidence" "$VERIF/replays"

# What is built from /repo and from the harness is always built again, whatever the files' times say
build_release() { # features
    cargo +stable clean --offline --manifest-path "$MANIFEST" --target-dir "$T/main" --release -p concordance -p monitor >/dev/null 2>&1
    rm -f "$RELEASE_BIN"
    cargo +stable build --offline --locked --release --manifest-path "$MANIFEST" --target-dir "$T/main" --no-default-features --features "$1" >"$LOG" 2>&1 && [ -x "$RELEASE_BIN" ]
}

# The same as programs are released: no debug assertions, arithmetic wraps
build_plain() { # features
    cargo +stable clean --offline --manifest-path "$MANIFEST" --target-dir "$T/plain" --profile plain -p concordance -p monitor >/dev/null 2>&1
    rm -f "$PLAIN_BIN"
    cargo +stable build --offline --locked --profile plain --manifest-path "$MANIFEST" --target-dir "$T/plain" --no-default-features --features "$1" >"$LOG.plain" 2>&1 && [ -x "$PLAIN_BIN" ]
}

# Both at once
build_both() { # features
    build_plain "$1" &
    build_release "$1"
    local a=$?
    wait $! && [ $a = 0 ] && export MONITOR_PLAIN=$PLAIN_BIN
}

build_asan() {
    cargo +nightly clean --offline --manifest-path "$MANIFEST" --target-dir "$T/asan" --release --target $HOST -p concordance -p monitor >/dev/null 2>&1
    rm -f "$ASAN_BIN"
    # (if the matchers cannot be shared between threads, that is C19's business)
    RUSTFLAGS=-Zsanitizer=address cargo +nightly build --offline --locked --release --manifest-path "$MANIFEST" --target $HOST --target-dir "$T/asan" --no-default-features --features "threads,$1" >"$LOG" 2>&1 && [ -x "$ASAN_BIN" ] && return 0
    RUSTFLAGS=-Zsanitizer=address cargo +nightly build --offline --locked --release --manifest-path "$MANIFEST" --target $HOST --target-dir "$T/asan" --no-default-features --features "$1" >"$LOG" 2>&1 && [ -x "$ASAN_BIN" ]
}

build_miri() { # property features
    export MONITOR_MIRI=$HARNESS MONITOR_MIRI_TARGET=$T/miri
    cargo +nightly clean --offline --manifest-path "$MANIFEST" --target-dir "$T/miri" --target $HOST -p concordance -p monitor >/dev/null 2>&1
    # Runs no case: builds
    MIRIFLAGS="-Zmiri-ignore-leaks -Zmiri-seed=0" cargo +nightly miri run --offline --locked --quiet --no-default-features --features "threads,$2" --target-dir "$T/miri" --manifest-path "$MANIFEST" -- tiny "$1" 1 0 1 0 >"$LOG" 2>&1
}

no_answer() {
    echo "check $1: the monitor could not be built against /repo" >&2
    tail -n 40 "$LOG" >&2
    exit 2
}

run() {
    "$1" "$2"
    exit $?
}

# The matchers can no longer be handed to threads at all: the monitor builds without its threads and not with them
not_shareable() { # log
    replay=$VERIF/replays/C19-threads-${VERIF_SEED:-1}.txt
    {
        echo "The part of the monitor that shares prepared matchers between threads no longer compiles against /repo,"
        echo "while the rest of it does. Again with: /verif/check.sh C19. The compiler says:"
        cat "$1"
    } >"$replay"
    python3 - "$VERIF/evidence/C19.json" "${VERIF_SEED:-1}" "${VERIF_TIER:-quick}" "$1" <<'P'
import json, sys
out, seed, tier, log = sys.argv[1:]
json.dump({
    "property": "C19", "tier": "thorough" if tier == "thorough" else "quick", "seed": int(seed), "level": "exploration",
    "coverage": {"evaluations": 1, "distinct_nontrivial": 0, "rule": "the workload that shares matchers between threads does not compile, so nothing was run",
                 "samples": [open(log).read()[-2000:]]},
    "wall_s": 0, "violations": 1}, open(out, "w"), indent=2)
P
    grep -m3 -E "^error|cannot be (shared|sent)" "$1"
    echo "VIOLATION property=C19 replay=$replay"
}

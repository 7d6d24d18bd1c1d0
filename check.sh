#!/bin/bash
# check.sh ID [quick|thorough] - build the monitors against /repo's working tree and run one property.
# exit 0: held; 1: VIOLATION line printed; 2: no verdict (build failed, or too little was observed)
ROOT=$(cd "$(dirname "$0")" && pwd)
ID=${1:?usage: check.sh ID [quick|thorough]}
TIER=${2:-${VERIF_TIER:-quick}}
cd "$ROOT/harness" || exit 2
export VH_OUT="$ROOT/evidence" VH_KNOWN="$ROOT/known-findings.txt"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
mkdir -p "$VH_OUT" target
LOG=$(mktemp "${TMPDIR:-/tmp}/vh-build.XXXXXX")
TMPS=("$LOG")
trap 'rm -rf -- "${TMPS[@]}"' EXIT
build() { "$@" >"$LOG" 2>&1 || { tail -n 40 "$LOG"; echo "INCONCLUSIVE property=$ID the harness does not build against this tree"; exit 2; }; }
build cargo build --offline --profile checked
VH=$ROOT/harness/target/checked/vh
case $ID in
C03)
    # AddressSanitizer build for the run itself; Miri on the side for small inputs
    if [ "$TIER" = thorough ]; then PER=1500 SECS=2400; else PER=45 SECS=90; fi
    WORK=$(mktemp -d "${TMPDIR:-/tmp}/vh-miri.XXXXXX")
    TMPS+=("$WORK")
    "$VH" emit "$WORK" "${VERIF_SEED:-1}" 7 $PER || exit 2
    build env RUSTFLAGS="-Zsanitizer=address --cfg vh_asan" cargo +nightly build --offline --profile checked --target x86_64-unknown-linux-gnu --target-dir target/asan
    export MIRIFLAGS="-Zmiri-disable-isolation"
    # build once, then one interpreter per pack
    : >"$WORK/empty.pack"
    build cargo +nightly miri run --offline --target-dir target/miri -- miri "$WORK/empty.pack" 1
    PIDS=()
    for s in 0 1 2 3 4 5 6; do
        timeout -k 10 $((SECS + 240)) cargo +nightly miri run --offline --target-dir target/miri -- miri "$WORK/$s.pack" $SECS >"$WORK/$s.out" 2>&1 &
        PIDS+=($!)
    done
    wait "${PIDS[@]}"
    export VH_MIRI=$WORK
    export ASAN_OPTIONS=detect_leaks=1:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=1:symbolize=0
    target/asan/x86_64-unknown-linux-gnu/checked/vh run "$ID" "$TIER"
    exit $?
    ;;
C19)
    build cargo build --offline --profile release
    export VH_OTHER=$ROOT/harness/target/release/vh
    ;;
esac
"$VH" run "$ID" "$TIER"

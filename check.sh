#!/bin/bash
# check.sh <property> [quick|thorough]   run one check against /repo's working tree
# check.sh replay <file>                 run one recorded case again, verbosely
# check.sh setup                         build what the quick checks need
# Exit: 0 held, 1 violation, anything else: the check could not decide.
set -u
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
export CARGO_NET_OFFLINE=true
export VERIF_SEED=${VERIF_SEED:-1}
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR 2>/dev/null
mkdir -p "$here/evidence" "$here/replays"

# flavour <id>: which build of the code under test a property needs
flavour() {
    case $1 in
        C13|C14|C15|C16) echo hooks ;;
        *) echo plain ;;
    esac
}

# build <flavour>: always from /repo's current tree (modification times are not trusted)
build() {
    local fl=$1 tc="" flags="" args="" log="$here/target-$1.log"
    local dir="$here/target-$fl"
    case $fl in
        hooks) flags="--cfg verif_hooks" ;;
        asan) tc=+nightly; flags="-Zsanitizer=address"; args="--target x86_64-unknown-linux-gnu" ;;
    esac
    (
        flock 9
        cd "$here/harness" || exit 2
        RUSTFLAGS="$flags" cargo $tc clean -q --offline --release $args --target-dir "$dir" -p cyphus-diffeq -p vmon >/dev/null 2>&1
        RUSTFLAGS="$flags" cargo $tc build --offline --locked --release $args --target-dir "$dir" >"$log" 2>&1
    ) 9>"$here/evidence/.lock-$fl"
    if [ $? -ne 0 ]; then
        tail -40 "$log"
        echo "ERROR: cannot build the monitors ($fl) against /repo"
        exit 2
    fi
}

bin() {
    case $1 in
        asan) echo "$here/target-asan/x86_64-unknown-linux-gnu/release/vmon" ;;
        *) echo "$here/target-$1/release/vmon" ;;
    esac
}

case ${1:-} in
    setup)
        build plain
        build hooks
        build asan
        exit 0
        ;;
    replay)
        id=$(sed -n 's/.*"property": "\([A-Z0-9]*\)".*/\1/p' "$2" | head -1)
        fl=$(flavour "$id")
        build "$fl"
        exec "$(bin "$fl")" replay "$2"
        ;;
    C[0-9][0-9]) ;;
    *)
        echo "usage: check.sh <property> [quick|thorough] | replay <file> | setup"
        exit 2
        ;;
esac

id=$1
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
fl=$(flavour "$id")
build "$fl"
export VMON_EVIDENCE="$here/evidence/$id.json" VMON_REPLAYS="$here/replays" VMON_BUILD=$fl
rm -f "$VMON_EVIDENCE"
limit=780
[ "$VERIF_TIER" = thorough ] && limit=7200

# report <name> <log>: a report of the tool (not an ordinary verdict) is a violation
report() {
    local out="$here/replays/C22-$1-$VERIF_SEED.log"
    cp "$2" "$out"
    grep -m3 -E "ERROR: AddressSanitizer|Undefined Behavior|^error|SUMMARY" "$2"
    echo "VIOLATION property=C22 replay=$out"
    exit 1
}

if [ "$id" = C22 ]; then
    # memory errors first: the same campaign, smaller, under AddressSanitizer
    build asan
    log="$here/evidence/.asan.log"
    scale=0.1
    [ "$VERIF_TIER" = thorough ] && scale=0.05
    ASAN_OPTIONS=detect_leaks=0:exitcode=99 VMON_SCALE=$scale VMON_EVIDENCE="$here/evidence/.asan.json" \
        timeout -k 10 $limit "$(bin asan)" run C22 >"$log" 2>&1
    rc=$?
    if grep -q "ERROR: AddressSanitizer" "$log"; then
        report asan "$log"
    fi
    cat "$log"
    [ $rc -eq 0 ] || { [ $rc -gt 1 ] && echo "ERROR: the campaign under AddressSanitizer ended with $rc"; exit $rc; }
    seen=$(sed -n 's/^C22: \([0-9]*\) cases, \([0-9]*\) non-trivial.*/\1 cases (\2 non-trivial)/p' "$log" | head -1)
    VMON_BUILD="plain; before that AddressSanitizer watched $seen and reported nothing"
    if [ "$VERIF_TIER" = thorough ]; then
        # short cases in the interpreter, eight at a time
        mkdir -p "$here/evidence/.miri"
        run_miri() {
            cd "$here/harness" && MIRIFLAGS="-Zmiri-disable-isolation" VMON_SMALL=1 timeout -k 10 1800 \
                cargo +nightly miri run -q --release --offline --locked --target-dir "$here/target-miri" -- "$@"
        }
        if (run_miri cases C22 "$VERIF_SEED" quick 0 1) >"$here/evidence/.miri/probe.log" 2>&1; then
            for k in 0 1 2 3 4 5 6 7; do
                (run_miri cases C22 "$VERIF_SEED" quick $((k * 100 + 1)) $((k * 100 + 41))) >"$here/evidence/.miri/$k.log" 2>&1 &
            done
            wait
            for k in 0 1 2 3 4 5 6 7; do
                if grep -q "Undefined Behavior" "$here/evidence/.miri/$k.log"; then
                    report miri "$here/evidence/.miri/$k.log"
                fi
            done
            n=$(cat "$here"/evidence/.miri/[0-7].log | sed -n 's/^\([0-9]*\) cases ended.*/\1/p' | awk '{s += $1} END {print s + 0}')
            echo "Miri: $n short cases ended without a report"
            VMON_BUILD="$VMON_BUILD; Miri interpreted $n short cases without a report"
        elif grep -q "Undefined Behavior" "$here/evidence/.miri/probe.log"; then
            report miri "$here/evidence/.miri/probe.log"
        else
            echo "Miri is not available here"
            VMON_BUILD="$VMON_BUILD; Miri not available"
        fi
    fi
    export VMON_BUILD
fi

timeout -k 10 $limit "$(bin "$fl")" run "$id"
rc=$?
if [ $rc -gt 1 ]; then
    echo "ERROR: check of $id ended with $rc"
fi
exit $rc

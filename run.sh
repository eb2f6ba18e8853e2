#!/bin/bash
# bash run.sh ID [quick|thorough]      run one check
# bash run.sh replay ID FILE           re-run one saved case
# Exit 0: held. Exit 1 + VIOLATION line: broken. Anything else: the check itself could not run.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
V=$(pwd)
. ./build.sh
SEED=${VERIF_SEED:-1}
if [ "$1" = replay ]; then
    ID=$2 FILE=$(readlink -f "$3") TIER=quick
    SEED=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1])).get("seed",1))' "$FILE") || exit 2
else
    ID=$1 TIER=${2:-${VERIF_TIER:-quick}}
fi
LOG=$V/target/build-$ID.log
try() { # try DIR ARGS...: build, output to $LOG
    local d=$1; shift
    (cd "$V/$d" && cargo build --offline "$@" >"$LOG" 2>&1)
}
broken() {
    grep -E "^error" -A 12 "$LOG" | head -60 >&2
    echo "$ID: build failed" >&2
    exit 2
}
mkdir -p "$V/target" "$V/evidence"
PROFILE=dev OUT=debug
if [ "$TIER" = thorough ]; then PROFILE=thorough OUT=thorough; fi
case $ID in
C25)
    # the property is about what the macro refuses: compile generated definitions
    if [ -n "$FILE" ]; then exec python3 reject/reject.py replay "$V" "$FILE"; fi
    exec python3 reject/reject.py run "$V" "$SEED" "$TIER"
    ;;
C19)
    # the property quantifies over programs: generate a crate of them
    COUNT=600
    [ "$TIER" = thorough ] && COUNT=5000
    [ -n "$FILE" ] && COUNT=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1])).get("types",600))' "$FILE")
    bash tools/gen_derive.sh "$V" "$SEED" "$COUNT" || exit 2
    if ! try target/derive-gen --profile $PROFILE; then
        # code generated for an accepted definition does not compile (anything else wrong is not a verdict)
        if ! grep -q -- "--> src/types.rs" "$LOG" || ! (LOG=/dev/null; try harness --profile $PROFILE); then broken; fi
        mkdir -p "$V/replays"
        python3 tools/compile_replay.py "$LOG" "$SEED" "$COUNT" "$V" "$TIER"
        exit 1
    fi
    BIN=$V/target/$OUT/derive-gen
    ;;
C08)
    # under AddressSanitizer: reading freed memory ends the process
    MIRI=$([ -n "$FILE" ] && python3 -c 'import json,sys; d=json.load(open(sys.argv[1])); print(d["case"] if d.get("miri") else "")' "$FILE")
    if [ -n "$MIRI" ]; then exec bash tools/miri.sh "$SEED" quick "$MIRI" "$FILE"; fi
    T=x86_64-unknown-linux-gnu
    export CARGO_TARGET_DIR=$V/target/asan ASAN_OPTIONS=abort_on_error=1:detect_leaks=0
    RUSTFLAGS=-Zsanitizer=address try harness --locked --profile $PROFILE --target $T || broken
    BIN=$V/target/asan/$T/$OUT/vh
    "$BIN" list >/dev/null || exit 2
    ;;
C23)
    # the same sources, built without std and alloc in sval's crates
    try noalloc --locked --profile $PROFILE || broken
    BIN=$V/target/$OUT/noalloc
    ;;
*)
    try harness --locked --profile $PROFILE || broken
    BIN=$V/target/$OUT/vh
    ;;
esac
if [ -n "$FILE" ]; then
    "$BIN" replay "$ID" "$FILE"
    RC=$?
    # killed: that is what the case is about
    if [ $RC -gt 128 ]; then echo "VIOLATION property=$ID replay=$FILE"; RC=1; fi
    exit $RC
fi
# a runaway allocation should end the check's own process only
[ $ID = C08 ] || ulimit -v 24000000
"$BIN" run "$ID" "$TIER" "$SEED" "$V" "$V/known_findings.jsonl" $VERIF_CASES | tee "$V/target/out-$ID"
RC=${PIPESTATUS[0]}
if [ $ID = C19 ] && [ $RC = 1 ]; then
    R=$(sed -n 's/^VIOLATION .*replay=//p' "$V/target/out-$ID")
    [ -f "$R" ] && python3 -c 'import json,sys; p=sys.argv[1]; d=json.load(open(p)); d["types"]=int(sys.argv[2]); json.dump(d,open(p,"w"))' "$R" "$COUNT"
fi
if [ $ID = C08 ] && [ $RC = 0 ]; then
    bash tools/miri.sh "$SEED" "$TIER"
    RC=$?
fi
exit $RC

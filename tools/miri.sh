#!/bin/bash
# bash miri.sh SEED TIER: a few cases of C08 under Miri; run from /verif with build.sh sourced.
# Exit 0: nothing found (or Miri cannot run here); 1 with a VIOLATION line: undefined behaviour or a failed case.
SEED=$1 TIER=$2 V=$(pwd) SHARDS=8 PER=14 LIMIT=240
[ "$TIER" = thorough ] && PER=400 LIMIT=1500
export CARGO_TARGET_DIR=$V/target/miri MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows" RUSTFLAGS=
D=$V/target/miri-out
mkdir -p "$D" "$V/replays"
cd "$V/harness" || exit 2
if [ -n "$3" ]; then # one case
    cargo miri run --offline --locked -- inproc C08 "$SEED" "$3" 1 $(($3 + 1)) || { echo "VIOLATION property=C08 replay=$4"; exit 1; }
    exit 0
fi
if ! timeout 400 cargo miri run --offline --locked -- list >"$D/build" 2>&1; then
    echo "C08: Miri does not run here, skipped" >&2
    exit 0
fi
for i in $(seq 0 $((SHARDS - 1))); do
    timeout $LIMIT cargo miri run --offline --locked -- inproc C08 "$SEED" "$i" $SHARDS $((SHARDS * PER)) >"$D/$i" 2>&1 &
done
wait
python3 - "$D" "$SEED" "$V" <<'P'
import sys, re, json
d, seed, v = sys.argv[1], int(sys.argv[2]), sys.argv[3]
cases = 0
bad = None
for i in range(8):
    t = open(f"{d}/{i}").read()
    cs = re.findall(r"^case (\d+)$", t, re.M)
    cases += max(0, len(cs) - 1)
    ub = re.search(r"error: Undefined Behavior: .*", t) or re.search(r"^failed: .*", t, re.M)
    if ub and cs and bad is None:
        bad = (int(cs[-1]), t[ub.start():][:3000])
p = v + "/evidence/C08.json"
e = json.load(open(p))
e["coverage"]["cases_under_miri"] = cases
if bad:
    e["violations"] = 1
json.dump(e, open(p, "w"), indent=1)
print(f"C08: {cases} cases under Miri")
if bad:
    r = f"{v}/replays/C08-miri-{seed}-{bad[0]}.json"
    json.dump({"property": "C08", "seed": seed, "case": bad[0], "miri": True, "message": bad[1]}, open(r, "w"))
    print(bad[1], file=sys.stderr)
    print(f"VIOLATION property=C08 replay={r}")
    sys.exit(1)
P

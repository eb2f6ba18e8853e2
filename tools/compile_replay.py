"""compile_replay.py LOG SEED COUNT VERIF TIER: report that a generated derive(Value) type does not compile (C19)."""
import json, re, sys
log, seed, count, root, tier = sys.argv[1:]
text = open(log, errors="replace").read()
lines = open(root + "/target/derive-gen/src/types.rs").read().split("\n")
at = int(re.search(r"--> src/types.rs:(\d+)", text).group(1))
start = at
while start > 0 and not lines[start - 1].startswith("#[derive("):
    start -= 1
end = start
while end < len(lines) and not lines[end].startswith("impl Mk for"):
    end += 1
definition = "\n".join(lines[max(start - 1, 0):end])
m = re.search(r"(?ms)^error.*?--> src/types.rs:.*?(?=^error|\Z)", text)
msg = "the derived impl does not compile:\n" + (m.group(0) if m else text)[:3000]
path = "%s/replays/C19-compile-%s-%s.json" % (root, seed, count)
json.dump({"property": "C19", "seed": int(seed), "types": int(count), "case": 0, "choices": [], "message": msg, "input": definition}, open(path, "w"))
json.dump({"property": "C19", "tier": tier, "seed": int(seed), "level": "exploration", "coverage": {
    "evaluations": int(count), "distinct_nontrivial": int(count), "rule": "every generated definition is compiled; one did not compile",
    "samples": [definition]}, "assumptions": [], "wall_s": 0, "violations": 1}, open(root + "/evidence/C19.json", "w"), indent=1)
print("C19: %s\n  input: %s" % (msg, definition), file=sys.stderr)
print("VIOLATION property=C19 replay=" + path)

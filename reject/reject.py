#!/usr/bin/env python3
"""C25: derive(Value) refuses every attribute it has no meaning for.

usage: reject.py run VERIF SEED TIER | reject.py replay VERIF FILE

Generates type definitions that are valid by the documented attribute grammar, puts one mistake into each,
and compiles them. A definition with a mistake must have a compile error of its own; the same definition
without the mistake must compile. The verdict is rustc's, per definition, never the wording of an error."""
import copy, json, os, random, subprocess, sys, time

SCALARS = ["bool", "u8", "i64", "f32", "String", "&'static str", "Option<u8>", "Vec<i8>", "()", "char"]
FLATS = ["Vec<u8>", "(i8, bool)", "std::collections::BTreeMap<String, u8>", "[i32; 3]"]
FLAGS = ["unlabeled_fields", "unindexed_fields", "unlabeled_variants", "unindexed_variants", "dynamic", "transparent", "skip", "flatten"]
VALUES = ["tag", "data_tag", "label", "index"]
NAMES = FLAGS + VALUES
# where each attribute means something
ALLOWED = {
    "struct": ["tag", "label", "index", "unlabeled_fields", "unindexed_fields"],
    "unit struct": ["tag", "label", "index"],
    "newtype": ["tag", "label", "index", "transparent"],
    "enum": ["tag", "label", "index", "dynamic", "unlabeled_variants", "unindexed_variants"],
    "void enum": [],
    "field": ["tag", "data_tag", "label", "index", "skip", "flatten"],
    "newtype field": [],
    "unit variant": ["tag", "label", "index"],
    "newtype variant": ["tag", "label", "index"],
    "fields variant": ["tag", "label", "index", "unlabeled_fields", "unindexed_fields"],
}
UNKNOWN = ["rename", "name", "Label", "labels", "lable", "tags", "skip_all", "skipped", "flattened", "id", "default", "with", "data", "data_label",
           "transparents", "Index", "indexed", "r#struct", "sval", "sval::label", "x::tag", "self::index", "unlabeled", "unindexed", "static_"]


def stop(msg):
    """no verdict"""
    print(msg, file=sys.stderr)
    sys.exit(2)


def name_of(a):
    return a.split("=")[0].split("(")[0].strip()


class Gen:
    def __init__(self, r):
        self.r = r

    def value(self, n):
        r = self.r
        if n in ("tag", "data_tag"):
            p = r.choice(["T0", "crate::t::T1", "sval::tags::NUMBER"])
            return '%s = "%s"' % (n, p) if r.random() < 0.5 else "%s = %s" % (n, p)
        if n == "label":
            return "label = " + r.choice(['"a"', '""', '"two words"', "L0", "crate::t::L1", 'r#"raw"#'])
        if n == "index":
            return "index = " + r.choice(["0", "1", "42", "-1", "-7", "I0", "crate::t::I1", "0x10", "1_0"])
        return n if r.random() < 0.7 else n + " = true"

    def some(self, names, p=0.35):
        return [self.value(n) for n in names if self.r.random() < p]

    def fields(self, named, n, unlabeled, unindexed):
        """well-formed fields: labels for all or none, explicit indexes from some point on"""
        r = self.r
        labelled = named or (not unlabeled and r.random() < 0.3)
        explicit = not unindexed and r.random() < 0.3
        out = []
        for i in range(n):
            a, ty = [], r.choice(SCALARS)
            skip = r.random() < 0.1
            if skip:
                a.append("skip")
            elif not explicit and r.random() < 0.15:
                a.append(self.value("flatten"))
                ty = r.choice(FLATS)
                if labelled and not named:
                    a.append(self.value("label"))
            else:
                a += self.some(["tag", "data_tag"], 0.25)
                if not unlabeled and (r.random() < 0.3 if named else labelled):
                    a.append(self.value("label"))
                if explicit:
                    a.append("index = %d" % (10 + i))
                if r.random() < 0.05:
                    a.append(r.choice(["skip = false", "flatten = false"]))
            out.append(dict(place="field", name="f%d" % i if named else None, ty=ty, attrs=self.group(a), skip=skip))
        return out

    def group(self, items):
        """attributes as written: a list of #[sval(..)] groups"""
        items = list(items)
        self.r.shuffle(items)
        out = []
        while items:
            k = self.r.randint(1, len(items))
            out.append(items[:k])
            items = items[k:]
        return out

    def body(self, kind, d, flags):
        r = self.r
        if kind in ("named", "tuple"):
            n = r.randint(1, 4) if kind == "named" else r.choice([0, 2, 2, 3, 4])
            d["fields"] = self.fields(kind == "named", n, "unlabeled_fields" in flags, "unindexed_fields" in flags)
        elif kind == "newtype":
            d["fields"] = [dict(place="newtype field", name=None, ty=r.choice(SCALARS), attrs=[], skip=False)]

    def item(self, kind=None):
        """a definition with no mistake in it"""
        r = self.r
        kind = kind or r.choices(["named", "tuple", "newtype", "unit", "enum", "void"], [5, 3, 3, 2, 7, 1])[0]
        place = {"named": "struct", "tuple": "struct", "newtype": "newtype", "unit": "unit struct", "enum": "enum", "void": "void enum"}[kind]
        names = list(ALLOWED[place])
        if kind == "newtype":
            names = ["transparent"] if r.random() < 0.3 else ["tag", "label", "index"]
        if kind == "enum":
            names = ["dynamic"] if r.random() < 0.25 else [n for n in names if n != "dynamic"]
        a = self.some(names, 0.8 if len(names) == 1 else 0.3)
        flags = [name_of(x) for x in a]
        d = dict(place=place, kind=kind, attrs=self.group(a), fields=[], variants=[])
        self.body(kind, d, flags)
        if kind == "enum":
            plain = not ({"dynamic", "unlabeled_variants", "unindexed_variants"} & set(flags))
            for i in range(r.randint(1, 4)):
                k = r.choice(["unit", "newtype", "named", "tuple"])
                p = {"unit": "unit variant", "newtype": "newtype variant"}.get(k, "fields variant")
                ns = [n for n in ALLOWED[p] if plain or n not in ("tag", "label", "index")]
                va = self.some(ns, 0.3)
                if any(x.startswith("index") for v in d["variants"] for g in v["attrs"] for x in g):
                    va = [x for x in va if not x.startswith("index")] + ["index = %d" % (100 + i)]
                v = dict(place=p, kind=k, name="V%d" % i, attrs=self.group(va), fields=[])
                self.body(k, v, [name_of(x) for x in va])
                d["variants"].append(v)
        return d


def places(d):
    """every node that can carry attributes, with the node that contains it"""
    yield d, None
    for f in d["fields"]:
        yield f, d
    for v in d["variants"]:
        yield v, d
        for f in v["fields"]:
            yield f, v


def attrs_of(n):
    return [x for g in n["attrs"] for x in g]


def names_of(n):
    return [name_of(x) for x in attrs_of(n)]


def bad_value(r, n):
    if n in FLAGS:
        v = r.choice(["1", '"true"', "'t'", "1.0", "T0", "(true)", "!false", "[true]", 'b"x"'])
        return "%s = %s" % (n, v)
    if n in ("tag", "data_tag"):
        return r.choice([n, n + " = 5", n + " = true", n + ' = "not a path!"', n + ' = ""', n + ' = "1"', n + " = 'c'", n + " = -1", n + " = f()", n + ' = b"T0"'])
    if n == "label":
        return r.choice(["label", "label = 5", "label = true", "label = 'c'", "label = 1.5", "label = -1", 'label = b"x"', "label = f()", 'label = ("x")', 'label = &"x"'])
    return r.choice(["index", 'index = "1"', "index = true", "index = 1.5", "index = 'c'", "index = f()", "index = 1 + 1", 'index = -"1"',
                     "index = 99999999999999999999", "index = -99999999999999999999", "index = !1"])


RAW = ["#[sval]", '#[sval = "x"]', "#[sval(=)]", '#[sval("label")]', "#[sval(label = )]", "#[sval(skip skip)]", "#[sval(5)]", "#[sval(,)]", '#[sval(label "x")]',
       '#[sval(label("x"))]', "#[sval(skip(true))]", "#[sval(index(1))]", "#[sval(label: 1)]", "#[sval(tag => T0)]", "#[sval[=]]"]


def mistakes(r, d):
    """all (class, node index, text or raw text) mistakes that fit this definition: one is chosen per class at random"""
    out = []
    for i, (n, up) in enumerate(places(d)):
        have, ok = names_of(n), ALLOWED[n["place"]]
        skip = n.get("skip")
        for m in NAMES:
            if m not in ok:
                out.append(("%s on %s" % (m, n["place"]), i, ("attr", Gen(r).value(m))))
        u = r.choice(UNKNOWN)
        out.append(("unknown name on " + n["place"], i, ("attr", r.choice([u, u + " = 1", u + ' = "x"', u + " = true"]))))
        out.append(("malformed on " + n["place"], i, ("raw", r.choice(RAW))))
        for m in have:
            if m in ok:
                out.append(("duplicate %s on %s" % (m, n["place"]), i, ("attr", Gen(r).value(m))))
        dyn = "dynamic" in have or (up is not None and "dynamic" in names_of(up))
        for m in ok:
            if m in have or skip or dyn:
                continue
            # a value that is not the attribute's type (never on a field whose label or index is not looked at)
            flat = "flatten" in have
            if flat and m in ("label", "index"):
                continue
            out.append(("bad value for %s on %s" % (m, n["place"]), i, ("attr", bad_value(r, m))))
        if n["place"] == "newtype":
            if "transparent" in have:
                for m in ("tag", "label", "index"):
                    out.append(("transparent with " + m, i, ("attr", Gen(r).value(m))))
            elif have:
                out.append(("transparent with " + "+".join(sorted(have)), i, ("attr", Gen(r).value("transparent"))))
        if n["place"] == "enum":
            if "dynamic" in have:
                for m in ("tag", "label", "index", "unlabeled_variants", "unindexed_variants"):
                    out.append(("dynamic with " + m, i, ("attr", Gen(r).value(m))))
            elif have:
                out.append(("dynamic with " + "+".join(sorted(have)), i, ("attr", Gen(r).value("dynamic"))))
        if n["place"] == "field" and not skip:
            ups = names_of(up)
            if "unlabeled_fields" in ups and "label" not in have:
                out.append(("label on a field of unlabeled_fields", i, ("attr", Gen(r).value("label"))))
            if "unindexed_fields" in ups and "index" not in have:
                out.append(("index on a field of unindexed_fields", i, ("attr", Gen(r).value("index"))))
            live = [f for f in up["fields"] if not f["skip"]]
            if n["name"] is None and len(live) > 1 and "unlabeled_fields" not in ups:
                if "label" in have:
                    out.append(("label missing on one tuple field", i, ("drop", "label")))
                else:
                    out.append(("label on one tuple field only", i, ("attr", Gen(r).value("label"))))
    if d["kind"] == "named":
        out.append(("union", 0, ("union", None)))
    return out


def apply(r, d, m):
    """the definition with the mistake, as (definition, index of the changed node)"""
    _, i, (op, x) = m
    d = copy.deepcopy(d)
    n = list(places(d))[i][0]
    if op == "attr":
        if n["attrs"] and r.random() < 0.5:
            g = r.choice(n["attrs"])
            g.insert(r.randint(0, len(g)), x)
        else:
            n["attrs"].insert(r.randint(0, len(n["attrs"])), [x])
        if n["place"] == "newtype field" or n["place"] == "field":
            if name_of(x) == "flatten":
                n["ty"] = r.choice(FLATS)
    elif op == "raw":
        n["raw"] = x
    elif op == "drop":
        n["attrs"] = [[y for y in g if name_of(y) != x] for g in n["attrs"]]
        n["attrs"] = [g for g in n["attrs"] if g]
    elif op == "union":
        d["union"] = True
    return d


def attr_lines(n, ind):
    s = "".join("%s#[sval(%s)]\n" % (ind, ", ".join(g)) for g in n["attrs"])
    if n.get("raw"):
        s += ind + n["raw"] + "\n"
    return s


def fields_text(n, ind):
    if n["kind"] == "unit":
        return ""
    named = n["kind"] == "named"
    s = "".join("%s%s%s%s,\n" % (attr_lines(f, ind), ind, f["name"] + ": " if named else "", f["ty"]) for f in n["fields"])
    return (" {\n%s%s}" if named else "(\n%s%s)") % (s, ind[4:])


def text(d, name):
    head = "#[derive(Value)]\n" + attr_lines(d, "")
    if d["kind"] == "enum" or d["kind"] == "void":
        s = head + "pub enum %s {\n" % name
        for v in d["variants"]:
            s += attr_lines(v, "    ") + "    " + v["name"] + fields_text(v, "        ") + ",\n"
        return s + "}\n"
    if d.get("union"):
        for f in d["fields"]:
            f["ty"] = "u8"
        return head + "#[derive(Clone, Copy)]\npub union %s%s\n" % (name, fields_text(d, "    "))
    return head + "pub struct %s%s%s\n" % (name, fields_text(d, "    "), "" if d["kind"] == "named" else ";")


HEAD = """#![allow(dead_code, unused, non_snake_case, non_camel_case_types)]
extern crate sval;
extern crate sval_derive;
use sval_derive::Value;
pub mod t {
    pub const T1: sval::Tag = sval::Tag::new("t1");
    pub const L1: sval::Label<'static> = sval::Label::new("l1");
    pub const I1: isize = 5;
}
pub const T0: sval::Tag = sval::Tag::new("t0");
pub const L0: sval::Label<'static> = sval::Label::new("l0");
pub const I0: isize = 3;
pub const fn f() -> isize { 0 }
"""

CARGO = """[package]
name = "@NAME@"
version = "0.0.0"
edition = "2021"
publish = false

[workspace]

[dependencies]
sval = { path = "/repo", features = ["std"] }
sval_derive = { path = "/repo/derive", features = [@FEATURES@] }
"""


class Compiler:
    def __init__(self, root, flatten=True):
        self.name = "reject-gen" if flatten else "reject-noflatten"
        self.dir = root + "/target/" + self.name
        os.makedirs(self.dir + "/src", exist_ok=True)
        open(self.dir + "/Cargo.toml", "w").write(CARGO.replace("@NAME@", self.name).replace("@FEATURES@", '"std", "flatten"' if flatten else '"std"'))
        lock = open(root + "/harness/Cargo.lock").read()
        open(self.dir + "/Cargo.lock", "w").write(lock)
        self.runs = 0
        # the crates themselves have to build; when they don't, there is no verdict
        _, other, ok = self.check([])
        if not ok:
            stop("C25: the empty crate does not compile:\n" + other[:4000])

    def check(self, items):
        """{index of item: first error in it}, errors elsewhere, whether it compiled"""
        src, starts = HEAD, []
        line = HEAD.count("\n") + 1
        for k, d in enumerate(items):
            t = "\n" + text(copy.deepcopy(d), "Ty%d" % k)
            starts.append(line)
            src += t
            line += t.count("\n")
        open(self.dir + "/src/lib.rs", "w").write(src)
        self.runs += 1
        p = subprocess.run(["cargo", "check", "--offline", "--quiet", "--message-format=json"], cwd=self.dir, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        found, other = {}, ""
        for l in p.stdout.split("\n"):
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get("reason") != "compiler-message" or m["message"]["level"] not in ("error", "error: internal compiler error"):
                continue
            msg, hit = m["message"], False
            for s in msg["spans"]:
                while s.get("expansion") and s["expansion"].get("span"):
                    s = s["expansion"]["span"]
                if s["is_primary"] is False and any(x["is_primary"] for x in msg["spans"]):
                    continue
                if not s["file_name"].endswith("lib.rs") or m["target"]["name"].replace("_", "-") != self.name:
                    continue
                at = s["line_start"]
                lo, hi = 0, len(starts)
                while lo < hi:
                    mid = (lo + hi) // 2
                    if starts[mid] <= at:
                        lo = mid + 1
                    else:
                        hi = mid
                if lo > 0:
                    found.setdefault(lo - 1, msg["rendered"])
                    hit = True
            if not hit and msg["spans"]:
                other += msg["rendered"]
        ok = p.returncode == 0
        if not ok and not found and not other:
            other = p.stderr
        return found, other, ok

    def accepted(self, items):
        """indexes of the items that compile: errors of one phase hide those of later ones, so repeat with the rest"""
        left = list(range(len(items)))
        while left:
            found, other, ok = self.check([items[i] for i in left])
            if ok:
                return left
            if not found:
                stop("C25: cannot tell which definition is at fault:\n" + other[:4000])
            left = [x for k, x in enumerate(left) if k not in found]
        return []

    def rejected(self, items):
        """{index: error} of items that do not compile"""
        left, bad = list(range(len(items))), {}
        while left:
            found, other, ok = self.check([items[i] for i in left])
            if ok:
                break
            if not found:
                stop("C25: cannot tell which definition is at fault:\n" + other[:4000])
            for k in found:
                bad[left[k]] = found[k]
            left = [x for k, x in enumerate(left) if k not in found]
        return bad


def smaller(good, bad):
    """pairs (without, with the mistake) with one thing less in both"""
    gp, bp = list(places(good)), list(places(bad))
    out = []
    for i in range(len(gp)):
        for a in attrs_of(gp[i][0]):
            if a in attrs_of(bp[i][0]):
                g, b = copy.deepcopy(good), copy.deepcopy(bad)
                for x in (g, b):
                    n = list(places(x))[i][0]
                    done = False
                    for q in n["attrs"]:
                        if a in q and not done:
                            q.remove(a)
                            done = True
                    n["attrs"] = [q for q in n["attrs"] if q]
                    if "skip" in n:
                        n["skip"] = n["skip"] and name_of(a) != "skip"
                out.append((g, b))
    for key in ("fields", "variants"):
        for k in range(len(good[key])):
            g, b = copy.deepcopy(good), copy.deepcopy(bad)
            if g[key][k] == b[key][k]:
                del g[key][k]
                del b[key][k]
                out.append((g, b))
    for j in range(len(good["variants"])):
        for k in range(len(good["variants"][j]["fields"])):
            g, b = copy.deepcopy(good), copy.deepcopy(bad)
            if g["variants"][j]["fields"][k] == b["variants"][j]["fields"][k]:
                del g["variants"][j]["fields"][k]
                del b["variants"][j]["fields"][k]
                out.append((g, b))

    def sane(d):
        def one(n):
            return n["kind"] in ("unit", "enum", "void") or (len(n["fields"]) == 1 if n["kind"] == "newtype" else n["kind"] != "tuple" or len(n["fields"]) != 1)
        return one(d) and all(one(v) for v in d["variants"]) and (d["kind"] != "enum" or d["variants"])

    def still(g, b):
        # the mistake has to be one by the same rules
        return sane(g) and sane(b)
    return [(g, b) for g, b in out if still(g, b)]


def wrong(cls, d):
    """whether the definition still contains a mistake of this class (shrinking must not remove its reason)"""
    for n, up in places(d):
        have = names_of(n)
        if n.get("raw") or d.get("union"):
            return True
        if any(h not in ALLOWED[n["place"]] for h in have) or len(set(have)) < len(have):
            return True
        if "transparent" in have and len(have) > 1 or "dynamic" in have and len(have) > 1:
            return True
        if cls.startswith("bad value"):
            return True
        if n["place"] == "field" and not n["skip"]:
            if "label" in have and "unlabeled_fields" in names_of(up) or "index" in have and "unindexed_fields" in names_of(up):
                return True
    for n, _ in places(d):
        live = [f for f in n.get("fields", []) if f["place"] == "field" and f["name"] is None and not f["skip"]]
        k = sum("label" in names_of(f) for f in live)
        if 0 < k < len(live):
            return True
    return False


def shrink(c, cls, good, bad):
    for _ in range(25):
        cand = [(g, b) for g, b in smaller(good, bad) if wrong(cls, b)]
        if not cand:
            break
        keep = set(c.accepted([b for _, b in cand]))
        cand = [p for k, p in enumerate(cand) if k in keep]
        if not cand:
            break
        good, bad = cand[0]
    return good, bad


def describe(cls, good, bad):
    return "%s, which the derive has no meaning for, is accepted:\n%s\n(without it)\n%s" % (cls, text(copy.deepcopy(bad), "T"), text(copy.deepcopy(good), "T"))


def evidence(root, tier, seed, n, nontrivial, classes, samples, wall, violations, runs):
    json.dump({"property": "C25", "tier": tier, "seed": seed, "level": "exploration", "coverage": {
        "evaluations": n, "distinct_nontrivial": nontrivial,
        "rule": "a case is one generated definition with one mistake in it plus the same definition without the mistake; it counts when the definition has at least one other attribute, field or variant, and its text was not generated before",
        "samples": samples, "classes": classes, "compiler_runs": runs},
        "assumptions": ["rustc attributes each error to the definition that caused it",
                        "attributes that are accepted today on places where nothing is derived from them (fields marked skip, the variants of dynamic, unlabeled or unindexed enums, label, tag and index next to flatten) are left open and not generated as mistakes"],
        "wall_s": round(wall, 2), "violations": violations}, open(root + "/evidence/C25.json", "w"), indent=1)


def main():
    mode, root = sys.argv[1], sys.argv[2]
    t0 = time.time()
    if mode == "replay":
        p = json.load(open(sys.argv[3]))
        c = Compiler(root, p.get("flatten", True))
        if p.get("good"):
            if c.rejected([p["good"]]) or c.accepted([p["bad"]] if p.get("bad") else []):
                print(p["message"], file=sys.stderr)
                print("VIOLATION property=C25 replay=" + sys.argv[3])
                return 1
        print("C25: held")
        return 0
    c = Compiler(root)
    seed, tier = int(sys.argv[3]), sys.argv[4]
    count = int(os.environ.get("VERIF_CASES") or (4000 if tier != "thorough" else 24000))
    r = random.Random(seed * 7919 + 25)
    goods, bads, classes, texts, nontrivial, counts = [], [], [], set(), 0, {}
    while len(goods) < count:
        d = Gen(r).item()
        ms = mistakes(r, d)
        # the classes seen least come first
        r.shuffle(ms)
        ms.sort(key=lambda m: counts.get(m[0], 0))
        for m in ms[:3]:
            b = apply(r, d, m)
            cls = m[0]
            counts[cls] = counts.get(cls, 0) + 1
            t = text(copy.deepcopy(b), "T")
            if t not in texts and (len(list(places(d))) > 1 or attrs_of(d)):
                nontrivial += 1
            texts.add(t)
            goods.append(d)
            bads.append(b)
            classes.append(cls)
    fail, flat = None, True
    chunk = 3000
    for at in range(0, len(goods), chunk):
        uniq, seen = [], set()
        for d in goods[at:at + chunk]:
            t = text(copy.deepcopy(d), "T")
            if t not in seen:
                seen.add(t)
                uniq.append(d)
        rej = c.rejected(uniq)
        if rej:
            k = min(rej, key=lambda k: len(text(copy.deepcopy(uniq[k]), "T")))
            fail = ("a definition that only uses documented attributes is rejected:\n%s\n%s" % (text(copy.deepcopy(uniq[k]), "T"), rej[k][:2000]), uniq[k], None)
            break
        acc = c.accepted(bads[at:at + chunk])
        if acc:
            k = at + min(acc, key=lambda k: len(text(copy.deepcopy(bads[at + k]), "T")))
            g, b = shrink(c, classes[k], goods[k], bads[k])
            fail = (describe(classes[k], g, b), g, b)
            break
    if not fail:
        # flatten needs its Cargo feature: without it the attribute is refused, and everything else is as before
        flat = False
        c2 = Compiler(root, False)
        some = goods[:chunk:2]
        cls = "flatten without the Cargo feature"
        plain, pairs = [], []
        for d in some:
            with_ = [i for i, (n, _) in enumerate(places(d)) if "flatten" in names_of(n) and not n.get("skip")]
            g = copy.deepcopy(d)
            for n, _ in places(g):
                n["attrs"] = [[a for a in q if name_of(a) != "flatten"] for q in n["attrs"]]
                n["attrs"] = [q for q in n["attrs"] if q]
            plain.append(g)
            if with_:
                pairs.append((g, d))
        counts[cls] = len(pairs)
        rej = c2.rejected(plain)
        acc = c2.accepted([b for _, b in pairs])
        if rej:
            k = min(rej)
            fail = ("a definition that only uses documented attributes is rejected without the flatten feature:\n%s\n%s" % (text(copy.deepcopy(plain[k]), "T"), rej[k][:2000]), plain[k], None)
        elif acc:
            k = min(acc, key=lambda k: len(text(copy.deepcopy(pairs[k][1]), "T")))
            fail = (describe(cls, *pairs[k]),) + pairs[k]
        c.runs += c2.runs
    samples = [text(copy.deepcopy(bads[k]), "T") for k in range(0, len(bads), max(1, len(bads) // 12))][:12]
    evidence(root, tier, seed, len(goods), nontrivial, counts, samples, time.time() - t0, 1 if fail else 0, c.runs)
    if fail:
        os.makedirs(root + "/replays", exist_ok=True)
        path = "%s/replays/C25-%d.json" % (root, seed)
        json.dump({"property": "C25", "seed": seed, "message": fail[0], "good": fail[1], "bad": fail[2], "flatten": flat}, open(path, "w"))
        print("C25: " + fail[0], file=sys.stderr)
        print("VIOLATION property=C25 replay=" + path)
        return 1
    print("C25: held on %d definitions (%d non-trivial, %d classes of mistake, %d compiler runs)" % (len(goods), nontrivial, len(counts), c.runs))
    return 0


sys.exit(main())

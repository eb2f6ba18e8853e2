#!/usr/bin/env python3
"""Writes a crate of random derive(Value) types together with the calls each must make.

usage: gen.py OUTDIR SEED COUNT
The expected calls come from the model in this file (the documented attribute semantics), never from
running the macro. Deterministic in SEED and COUNT."""
import os, random, sys

out, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
R = random.Random(seed * 1000003 + 17)

TAGS = ["T0", "T1", "tags::T2", "tags::deep::T3", "crate::rt::tags::T4", "sval::tags::NUMBER"]
TAG_EXPR = {t: ("sval::Tag::new(\"%s\")" % t.split("::")[-1]) if not t.startswith("sval") else t for t in TAGS}
LABELS = {  # path -> model expression
    "L0": 'st("zero")',
    "labels::L1": 'tagged(st("one"), sval::tags::VALUE_IDENT)',
    "rt::labels::L2": 'tagged(st(""), T0)',
}
INDEXES = {"I0": 7, "idx::I1": -3, "crate::rt::idx::I2": 1000}
TEXTS = ["", "a", "id", "two words", "quo\\\"te", "tab\\t", "nl\\n", "\\u{1F600}", "\\u{e9}t\\u{e9}", "back\\\\slash", "type", "a.b", "\\u{0}", "x" * 40]
IDENTS = ["a", "b", "c", "d", "e", "f", "g", "id", "name", "value", "stream", "field0", "field1", "field2", "index", "label", "tag", "sval",
          "__sval_index", "__sval_label", "r#type", "r#fn", "r#match", "r#struct", "naïve", "数", "_x", "snake_case", "camelCase", "A", "UPPER", "x1", "result", "ok", "i", "s", "self_"]
VARIANTS = ["A", "B", "C", "D", "E", "Some_", "None_", "Variant", "r#type", "lower", "Ünit", "Null", "X1", "Value", "Enum", "Tag"]
SCALARS = ["bool", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "f32", "f64", "char", "String", "&'static str", "()"]


def unraw(i):
    return i[2:] if i.startswith("r#") else i


def lit(s):
    return '"%s"' % s


made = []  # (instance type string, kinds)


def field_ty(params, d=0):
    """(type text as written, concrete text)"""
    r = R.random()
    if params and r < 0.35:
        p = R.choice(params)
        t, c = p
        w = R.random()
        if w < 0.2:
            return "Vec<%s>" % t, "Vec<%s>" % c
        if w < 0.35:
            return "Option<%s>" % t, "Option<%s>" % c
        return t, c
    if r < 0.70 or d > 1:
        t = R.choice(SCALARS)
        return t, t
    if r < 0.85 and made:
        t = R.choice(made)
        return t, t
    t, c = field_ty(params, d + 1)
    k = R.randrange(6)
    f = ["Vec<%s>", "Option<%s>", "Box<%s>", "(%s, i8)", "[%s; 2]", "std::collections::BTreeMap<String, %s>"][k]
    return f % t, f % c


FLATS = ["Vec<u8>", "(i8, bool)", "std::collections::BTreeMap<String, u8>", "u8", "Option<Vec<String>>", "Box<(u8, String)>", "[i32; 3]", "String"]
flat_made = []


def flat_ty():
    if flat_made and R.random() < 0.6:
        return R.choice(flat_made)
    return R.choice(FLATS)


def attr_text(items, indent):
    """items: list of 'k = v' strings -> attribute text, split/ordered at random"""
    items = list(items)
    R.shuffle(items)
    s = ""
    if R.random() < 0.1:
        s += indent + "/// doc\n"
    if items and R.random() < 0.07:
        s += indent + "#[cfg_attr(all(), sval(%s))]\n" % ", ".join(items)
        items = []
    while items:
        n = len(items) if R.random() < 0.7 else R.randint(1, len(items))
        trail = "," if R.random() < 0.1 else ""
        s += indent + "#[sval(%s%s)]\n" % (", ".join(items[:n]), trail)
        items = items[n:]
    if R.random() < 0.07:
        s += indent + "#[allow(dead_code)]\n"
    return s


def tag_attr(key, t):
    return "%s = %s" % (key, '"%s"' % t if R.random() < 0.5 else t)


def int_text(v):
    a = abs(v)
    s = str(a)
    r = R.random()
    if r < 0.1:
        s = hex(a)
    elif r < 0.15:
        s = "0b" + bin(a)[2:]
    elif r < 0.2 and a >= 10:
        s = s[0] + "_" + s[1:]
    return ("-" if v < 0 else "") + s


def pick_label():
    """(attr value text, model expr)"""
    if R.random() < 0.2:
        p = R.choice(list(LABELS))
        return p, LABELS[p]
    t = R.choice(TEXTS)
    return lit(t), "st(%s)" % lit(t)


def pick_index():
    """(attr text, value or None if a path, model value)"""
    if R.random() < 0.2:
        p = R.choice(list(INDEXES))
        return p, None, INDEXES[p]
    v = R.choice([0, 1, 2, 3, 5, 10, 255, 256, 65536, -1, -2, -128, 2**31, -2**31, 2**62, -2**62, R.randint(-50, 50)])
    return int_text(v), v, v


def pick_meta(attrs, label_default, allow_label=True, allow_index=True):
    """adds attrs, returns (tag expr|None, label expr, index expr|None)"""
    tag = label = index = None
    if R.random() < 0.25:
        t = R.choice(TAGS)
        attrs.append(tag_attr("tag", t))
        tag = TAG_EXPR[t]
    label = label_default
    if allow_label and R.random() < 0.25:
        a, label = pick_label()
        attrs.append("label = " + a)
    if allow_index and R.random() < 0.25:
        a, _, v = pick_index()
        attrs.append("index = " + a)
        index = "ix(%d)" % v
    return tag, label, index


def opt(x):
    return "None" if x is None else "Some(%s)" % x


def meta(tag, label, index):
    return "M { tag: %s, label: %s, index: %s }" % (opt(tag), opt(label), opt(index))


def ident_label(i):
    return "ident(%s)" % lit(unraw(i))


class Alloc:
    def __init__(self):
        self.next, self.explicit = 0, False

    def implicit(self):
        v = self.next
        self.next += 1
        return v, self.explicit

    def set(self, const, _value):
        self.explicit = True
        self.next = (const if const is not None else self.next) + 1


def fields(named, params, unl, unx, classes, newtype_ok=False, maxf=6):
    """Returns (list of (attr text, name, type text, concrete, mode)), model) where model(access) gives Rust
    statements pushing onto `e`, and kind in rt/rec/tup/seq, size expr."""
    n = R.choice([0, 1, 2, 2, 3, 3, 4, maxf])
    if R.random() < 0.03:
        n = R.choice([8, 9, 13, 16, 17, 20, 33])
    if not named and not newtype_ok and n == 1:
        n = 2
    names = R.sample(IDENTS + (["fld%d" % i for i in range(20)] if n > 6 else []), n) if named else list(range(n))
    lab_all = named or (not unl and R.random() < 0.2)
    has_flat = R.random() < 0.25
    alloc = Alloc()
    explicit_seen = False
    fs = []
    plan = []  # (kind, tag, label, index, access name, data_tag)
    live = 0
    for i, nm in enumerate(names):
        attrs = []
        tt, ct = field_ty(params)
        skip = R.random() < 0.15
        if skip:
            attrs.append("skip" if R.random() < 0.7 else "skip = true")
            if R.random() < 0.3:
                tt = ct = "NoValue"
            if R.random() < 0.2:
                attrs.append(tag_attr("tag", R.choice(TAGS)))
            if R.random() < 0.2 and not unl:
                attrs.append("label = " + pick_label()[0])
            if R.random() < 0.2 and not unx:
                attrs.append("index = " + pick_index()[0])
            classes.add("skipped field")
            fs.append((attr_text(attrs, "        "), nm, tt, ct))
            continue
        live += 1
        if R.random() < 0.04:
            attrs.append("skip = false")
        flat = has_flat and R.random() < 0.5 and not explicit_seen
        label = None
        if not unl:
            if named:
                label = ident_label(nm)
                if R.random() < 0.25:
                    a, label = pick_label()
                    attrs.append("label = " + a)
            elif lab_all:
                a, label = pick_label()
                attrs.append("label = " + a)
        if flat:
            attrs.append("flatten" if R.random() < 0.7 else "flatten = true")
            tt = ct = flat_ty()
            classes.add("flattened field")
            if not unx:
                alloc.implicit()
            plan.append(("flat", None, None, None, i, None))
            fs.append((attr_text(attrs, "        "), nm, tt, ct))
            continue
        if R.random() < 0.04:
            attrs.append("flatten = false")
        tag = dtag = None
        if R.random() < 0.2:
            t = R.choice(TAGS)
            attrs.append(tag_attr("tag", t))
            tag = TAG_EXPR[t]
        if R.random() < 0.15:
            t = R.choice(TAGS)
            attrs.append(tag_attr("data_tag", t))
            dtag = TAG_EXPR[t]
            classes.add("data_tag")
        index = None
        if not unx:
            path_ok = not any(p[0] == "flat" for p in plan)
            if R.random() < 0.2:
                while True:
                    a, c, v = pick_index()
                    if c is not None or path_ok:
                        break
                attrs.append("index = " + a)
                alloc.set(c, v)
                explicit_seen = True
                index = "ix(%d)" % v
                classes.add("explicit field index")
            else:
                v, ex = alloc.implicit()
                # implicit indexes count flattened values too, so they come from a counter at run time
                index = "ix(%d)" % v if ex else "off(&mut n)"
        plan.append(("val", tag, label, index, i, dtag))
        fs.append((attr_text(attrs, "        "), nm, tt, ct))
    if live == 0:
        kind = "rt" if named else "tup"
    else:
        kind = {(True, True): "rt", (True, False): "rec", (False, True): "tup", (False, False): "seq"}[(lab_all and not unl, not unx)]
    anyflat = any(p[0] == "flat" for p in plan)
    size = "None" if anyflat else "Some(%d)" % live

    def model(m, access):
        s = "let m = %s;\n" % m
        s += "let mut n = 0isize;\n"
        b, x = {"rt": ("Ev::RtBegin(m.clone(), %s)", "Ev::RtEnd(m)"), "rec": ("Ev::RecBegin(m.clone(), %s)", "Ev::RecEnd(m)"),
                "tup": ("Ev::TupBegin(m.clone(), %s)", "Ev::TupEnd(m)"), "seq": ("Ev::SeqBegin(%s)", "Ev::SeqEnd")}[kind]
        if kind == "seq":
            s += "e.push(Ev::TaggedBegin(m.clone()));\n"
        s += "e.push(%s);\n" % (b % size)
        for k, tag, label, index, i, dtag in plan:
            acc = access(i)
            if k == "flat":
                s += "flat_%s(&mut e, %s, &mut n);\n" % (kind, acc)
                continue
            s += "{ let t: Option<Tag> = %s; " % opt(tag)
            if kind == "rt":
                s += "let l = %s; let i = %s; e.push(Ev::RtValueBegin(t.clone(), l.clone(), i.clone())); " % (label, index)
                end = "Ev::RtValueEnd(t, l, i)"
            elif kind == "rec":
                s += "let l = %s; e.push(Ev::RecValueBegin(t.clone(), l.clone())); " % label
                end = "Ev::RecValueEnd(t, l)"
            elif kind == "tup":
                s += "let i = %s; e.push(Ev::TupValueBegin(t.clone(), i.clone())); " % index
                end = "Ev::TupValueEnd(t, i)"
            else:
                s += "let _ = t; e.push(Ev::SeqValueBegin); "
                end = "Ev::SeqValueEnd"
            if dtag:
                s += "let d = M { tag: Some(%s), label: None, index: None }; e.push(Ev::TaggedBegin(d.clone())); val(&mut e, %s); e.push(Ev::TaggedEnd(d)); " % (dtag, acc)
            else:
                s += "val(&mut e, %s); " % acc
            s += "e.push(%s); }\n" % end
        s += "let _ = n; e.push(%s);\n" % x
        if kind == "seq":
            s = s.replace("e.push(Ev::SeqEnd);\n", "e.push(Ev::SeqEnd); e.push(Ev::TaggedEnd(m));\n")
        return s

    classes.add({"rt": "record_tuple", "rec": "record", "tup": "tuple", "seq": "unlabeled unindexed sequence"}[kind])
    return fs, model, kind, live


def fields_text(named, fs, pub=True):
    vis = lambda: R.choice(["", "pub ", "pub(crate) "]) if pub else ""
    if named:
        return "{\n" + "".join("%s        %s%s: %s,\n" % (a, vis(), n, t) for a, n, t, _ in fs) + "}"
    return "(\n" + "".join("%s        %s%s,\n" % (a, vis(), t) for a, n, t, _ in fs) + ")"


def flags(attrs):
    unl, unx = R.random() < 0.2, R.random() < 0.2
    if unl:
        attrs.append("unlabeled_fields" if R.random() < 0.8 else "unlabeled_fields = true")
    elif R.random() < 0.04:
        attrs.append("unlabeled_fields = false")
    if unx:
        attrs.append("unindexed_fields" if R.random() < 0.8 else "unindexed_fields = true")
    elif R.random() < 0.04:
        attrs.append("unindexed_fields = false")
    return unl, unx


def make(k):
    kind = R.choices(["named", "unnamed", "newtype", "unit", "enum"], [5, 4, 2, 1, 7])[0]
    name = "Ty%d" % k if R.random() < 0.8 else R.choice(["r#try%d", "Tÿ%d", "lower%d"]) % k
    classes = set()
    # generics
    params, gtext, ginst = [], [], []
    where = ""
    if kind not in ("unit",) and R.random() < 0.3:
        if R.random() < 0.3:
            gtext.append("'a")
            ginst.append("'static")
            params.append(("&'a str", "&'static str"))
        for p in R.sample(["T", "U", "S", "Value"], R.choice([1, 1, 2])):
            c = R.choice(SCALARS + [m for m in made[-20:]])
            b = R.choice(["", "", ": Clone", ": 'static"]) if c in SCALARS else R.choice(["", ": 'static"])
            gtext.append(p + b)
            ginst.append(c)
            params.append((p, c))
        if R.random() < 0.3:
            gtext.append("const N: usize")
            ginst.append("3")
            params.append(("[u8; N]", "[u8; 3]"))
        if R.random() < 0.3:
            p = [g for g in params if g[0] in ("T", "U", "S", "Value")][0][0]
            where = " where %s: std::marker::Sized" % p
        classes.add("generic")
    gdecl = "<%s>" % ", ".join(gtext) if gtext else ""
    ginst_t = "<%s>" % ", ".join(ginst) if ginst else ""
    inst = name + ginst_t
    attrs = []
    flat_ok = False
    pre = "#[derive(sval_derive::Value)]\n"
    # unused generics: PhantomData cannot implement Value, so a skipped phantom field carries them all
    phantom = ""
    if gtext:
        ph = []
        for g in gtext:
            if g.startswith("'"):
                ph.append("&%s ()" % g)
            elif g.startswith("const"):
                ph.append("[(); N]")
            else:
                ph.append(g.split(":")[0].strip())
        phantom = "std::marker::PhantomData<(%s,)>" % ", ".join(ph)
    if kind == "unit":
        tag, label, index = pick_meta(attrs, ident_label(name))
        text = attr_text(attrs, "") + "struct %s;\n" % name
        mk = name
        model = "let m = %s; e.push(Ev::Tag(m));" % meta(tag, label, index)
        classes.add("unit struct")
    elif kind == "newtype":
        trans = R.random() < 0.3
        if trans:
            attrs.append("transparent")
            tag = label = index = None
            classes.add("transparent newtype")
        else:
            if R.random() < 0.05:
                attrs.append("transparent = false")
            tag, label, index = pick_meta(attrs, ident_label(name))
        if params:
            # every parameter must be used by the single field
            tt = "(%s,)" % ", ".join(p[0] for p in params)
            ct = "(%s,)" % ", ".join(p[1] for p in params)
        else:
            tt, ct = field_ty(params)
        text = attr_text(attrs, "") + "struct %s%s(%s%s)%s;\n" % (name, gdecl, R.choice(["", "pub "]), tt, where)
        mk = "%s(Mk::mk(s, d))" % name
        if trans:
            model = "val(&mut e, &self.0);"
        else:
            model = "let m = %s; e.push(Ev::TaggedBegin(m.clone())); val(&mut e, &self.0); e.push(Ev::TaggedEnd(m));" % meta(tag, label, index)
        classes.add("newtype")
    elif kind in ("named", "unnamed"):
        named = kind == "named"
        while True:
            attrs = []
            cl = set()
            tag, label, index = pick_meta(attrs, ident_label(name))
            unl, unx = flags(attrs)
            fs, mod, knd, live = fields(named, params, unl, unx, cl)
            if live == 0 and (unl or unx):
                continue
            if gtext:
                fs.append(("        #[sval(skip)]\n", "phantom_data" if named else len(fs), phantom, "std::marker::PhantomData<_>"))
                if not named and len(fs) == 1:
                    continue
            break
        classes |= cl
        if named:
            text = attr_text(attrs, "") + "struct %s%s%s %s\n" % (name, gdecl, where, fields_text(True, fs))
            mk = "%s { %s }" % (name, ", ".join("%s: Mk::mk(s, d)" % f[1] for f in fs))
            acc = lambda i: "&self.%s" % fs[i][1]
        else:
            text = attr_text(attrs, "") + "struct %s%s%s%s;\n" % (name, gdecl, fields_text(False, fs), where)
            mk = "%s(%s)" % (name, ", ".join("Mk::mk(s, d)" for f in fs))
            acc = lambda i: "&self.%d" % i
        model = mod(meta(tag, label, index), acc)
        classes.add(kind + " struct")
        flat_ok = True
        if not fs:
            classes.add("no fields")
    else:
        mode = R.choices(["plain", "dynamic", "unl", "unx", "both"], [10, 3, 2, 2, 1])[0]
        nv = R.choice([1, 2, 3, 4, 5])
        if R.random() < 0.05:
            nv = R.choice([8, 9, 11, 16, 17, 20])
        vnames = R.sample(VARIANTS + (["Vr%d" % i for i in range(20)] if nv > 5 else []), nv)
        has_disc = mode in ("plain", "unl") and R.random() < 0.3
        # explicit index attributes only on a tail of the variants, so that the offset of the others is unambiguous
        tail = R.randint(0, nv) if mode in ("plain", "unl") and not has_disc and R.random() < 0.35 else nv
        if mode == "dynamic":
            attrs.append("dynamic" if R.random() < 0.8 else "dynamic = true")
            tag = label = index = None
        else:
            tag, label, index = pick_meta(attrs, ident_label(name))
            if mode in ("unl", "both"):
                attrs.append("unlabeled_variants")
            if mode in ("unx", "both"):
                attrs.append("unindexed_variants")
        classes.add({"plain": "enum", "dynamic": "dynamic enum", "unl": "unlabeled variants", "unx": "unindexed variants", "both": "unlabeled unindexed variants"}[mode])
        body, arms, mks = "", "", []
        alloc = Alloc()
        used = set()
        disc_next = 0
        all_unit = True
        for vi, vn in enumerate(vnames):
            vk = R.choices(["unit", "newtype", "named", "unnamed"], [3, 3, 3, 3])[0]
            vattrs = []
            disc = ""
            want_label = mode in ("plain", "unx") or (mode == "dynamic" and vk == "unit")
            vtag, vlabel, _ = (None, None, None)
            if not (mode == "dynamic" and vk == "newtype"):
                vtag, vlabel, _ = pick_meta(vattrs, ident_label(vn), allow_label=want_label, allow_index=False)
            if mode in ("unl", "both") or (mode == "dynamic" and vk != "unit"):
                vlabel = None
            vindex = None
            if mode in ("plain", "unl"):
                if vi >= tail:
                    a, c, v = pick_index()
                    vattrs.append("index = " + a)
                    vindex = "ix(%d)" % v
                    classes.add("explicit variant index")
                else:
                    if has_disc and (R.random() < 0.5 or disc_next in used):
                        while True:
                            a, c, v = pick_index()
                            if v not in used and -2**31 <= v < 2**31 - 10:
                                break
                        disc = " = " + (a if c is not None else R.choice([p for p in INDEXES if INDEXES[p] == v]))
                        alloc.set(c, v)
                        vindex = "ix(%d)" % v
                        used.add(v)
                        disc_next = v + 1
                        classes.add("discriminant")
                    else:
                        v, ex = alloc.implicit()
                        vindex = ("ix(%d)" if ex else "offv(%d)") % v
                        used.add(disc_next)
                        disc_next += 1
            m = meta(vtag, vlabel, vindex)
            if vk == "unit":
                body += attr_text(vattrs, "    ") + "    %s%s,\n" % (vn, disc)
                arms += "%s::%s => { e.push(Ev::Tag(%s)); }\n" % (name, vn, m)
                mks.append("%s::%s" % (name, vn))
            elif vk == "newtype":
                all_unit = False
                tt, ct = field_ty(params)
                body += attr_text(vattrs, "    ") + "    %s(%s)%s,\n" % (vn, tt, disc)
                if mode == "dynamic":
                    arms += "%s::%s(x) => { val(&mut e, x); }\n" % (name, vn)
                else:
                    arms += "%s::%s(x) => { let m = %s; e.push(Ev::TaggedBegin(m.clone())); val(&mut e, x); e.push(Ev::TaggedEnd(m)); }\n" % (name, vn, m)
                mks.append("%s::%s(Mk::mk(s, d))" % (name, vn))
            else:
                all_unit = False
                while True:
                    va = list(vattrs)
                    cl = set()
                    unl, unx = flags(va)
                    fs, mod, knd, live = fields(vk == "named", params, unl, unx, cl, maxf=3)
                    if live == 0 and (unl or unx):
                        continue
                    break
                classes |= cl
                body += attr_text(va, "    ") + "    %s %s%s,\n" % (vn, fields_text(vk == "named", fs, pub=False), disc)
                if vk == "named":
                    arms += "%s::%s { %s } => { %s }\n" % (name, vn, ", ".join("%s: x%d" % (f[1], i) for i, f in enumerate(fs)), mod(m, lambda i: "x%d" % i))
                    mks.append("%s::%s { %s }" % (name, vn, ", ".join("%s: Mk::mk(s, d)" % f[1] for f in fs)))
                else:
                    arms += "%s::%s(%s) => { %s }\n" % (name, vn, ", ".join("x%d" % i for i in range(len(fs))), mod(m, lambda i: "x%d" % i))
                    mks.append("%s::%s(%s)" % (name, vn, ", ".join("Mk::mk(s, d)" for f in fs)))
                classes.add("struct variant")
        if gtext:
            # a variant that holds the parameters; never constructed with values that matter
            extra = "Params"
            body += "    #[sval(label = \"params\"%s)]\n    %s { #[sval(skip)] phantom_data: %s },\n" % ("", extra, phantom) if mode in ("plain", "unx") else "    %s { #[sval(skip)] phantom_data: %s },\n" % (extra, phantom)
            if mode in ("plain", "unl"):
                if tail < nv:
                    body = body.replace("    Params {", "    #[sval(index = 99)]\n    Params {")
                    vindex = "ix(99)"
                elif has_disc and disc_next in used:
                    v = max(used) + 1
                    body = body.rstrip().rstrip(",") + " = %d,\n" % v
                    vindex = "ix(%d)" % v
                    used.add(v)
                else:
                    v, ex = alloc.implicit()
                    vindex = ("ix(%d)" if ex else "offv(%d)") % v
            else:
                vindex = None
            arms += "%s::Params { .. } => { let m = %s; e.push(Ev::RtBegin(m.clone(), Some(0))); e.push(Ev::RtEnd(m)); }\n" % (
                name, meta(None, 'st("params")' if mode in ("plain", "unx") else None, vindex))
            mks.append("%s::Params { phantom_data: Mk::mk(s, d) }" % name)
            all_unit = False
        repr_ = "#[repr(isize)]\n" if has_disc and (not all_unit or R.random() < 0.3) else ""
        text = repr_ + attr_text(attrs, "") + "enum %s%s%s {\n%s}\n" % (name, gdecl, where, body)
        mk = "match s.n(%d) { %s _ => %s }" % (len(mks), " ".join("%d => %s," % (i, x) for i, x in enumerate(mks[:-1])), mks[-1])
        if mode == "dynamic":
            model = "match self {\n%s}" % arms
            tag = None
        else:
            model = "let em = %s; e.push(Ev::EnumBegin(em.clone()));\nmatch self {\n%s}\ne.push(Ev::EnumEnd(em));" % (meta(tag, label, index), arms)
    made.append(inst)
    if flat_ok:
        flat_made.append(inst)
    return dict(name=name, inst=inst, text=pre + text, mk=mk, model=model, tag="None" if ("dynamic enum" in classes or "transparent newtype" in classes) else "Some(%s)" % opt(tag), classes=sorted(classes), generic=bool(gtext))


types = [make(k) for k in range(count)]
# cases shrink towards type 0: put short definitions first
order = sorted(range(count), key=lambda i: (len(types[i]["text"]), i))

os.makedirs(out + "/src", exist_ok=True)
here = os.path.dirname(os.path.abspath(__file__))
with open(out + "/src/types.rs", "w") as f:
    f.write("// generated by gen.py: seed %d, %d types\nuse crate::rt::*;\nuse crate::rt;\n\n" % (seed, count))
    for t in types:
        f.write(t["text"])
        # a generic type's own parameters never appear here: the impl is for one instance
        f.write("impl Mk for %s {\nfn mk(s: &mut Src, d: usize) -> Self { let d = d + 1; let _ = (&s, d); %s }\n}\n" % (t["inst"], t["mk"]))
        f.write("impl Model for %s {\nfn model(&self) -> Vec<Ev> {\nlet mut e = Vec::new();\n%s\ne\n}\nfn exp_tag() -> Option<Option<Tag>> { %s }\n}\n\n" % (t["inst"], t["model"], t["tag"]))
    f.write("pub static TYPES: &[Entry] = &[\n")
    for i in order:
        t = types[i]
        f.write("Entry { name: %s, text: r####\"%s\"####, run: run_ty::<%s>, classes: &[%s] },\n" % (
            lit(t["name"]), t["text"], t["inst"], ", ".join(lit(c) for c in t["classes"])))
    f.write("];\n")

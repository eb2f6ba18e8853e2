//! C01-C04: sval_json.
use crate::engine::*;
use crate::ensure;
use crate::ev::*;
use crate::jsonm::*;
use crate::val::*;
use sval_json::JsonStr;
use std::error::Error as _;
use std::fmt::Write as _;
use std::io;
use sval::tags;

pub fn cfg(big: bool) -> Cfg {
    Cfg { scalar_keys: true, json_tags: true, nodes: if big { 60 } else { 20 }, depth: if big { 9 } else { 6 }, ..Cfg::default() }
}

pub static C01: Check = Check {
    id: "C01",
    rule: "random value trees (all sval shapes, tags, labels, indexes, hints, inline/borrowed/computed streaming) -> sval_json::stream_to_string, parsed by an independent RFC 8259 parser and compared with the model's JSON image; trees with a container as map key must fail; non-trivial = at least 3 nodes and depth >= 2; distinct by choice sequence",
    quick: 2_000_000,
    thorough: 12_000_000,
    run: c01,
    assumptions: &["JSON_* and NUMBER tags are only applied to text they are valid for, VALUE_IDENT only to identifiers", "enum variants are tags, tagged values, records, tuples or enums"],
};
fn c01(cx: &mut Ctx) -> R {
    let big = cx.src.chance(1, 12);
    let mut c = cfg(big);
    c.scalar_keys = !cx.src.chance(1, 6);
    let v = gen(&mut cx.src, &c);
    cx.sample(|| format!("{v:?}"));
    cx.nontrivial_if(size(&v) >= 3 && depth(&v) >= 2);
    let img = image(&v);
    let got = sval_json::stream_to_string(&v);
    cx.class_if(img.is_err(), "container key (must fail)");
    let mut has_enum = false;
    walk(&v, &mut |x| has_enum |= matches!(x, V::Enum(..)));
    cx.class_if(has_enum, "has enum");
    cx.class_if(depth(&v) >= 5, "depth>=5");
    match (img, got) {
        (Err(_), Err(e)) => {
            let _ = e;
            Ok(())
        }
        (Err(_), Ok(s)) => fail(format!("a container used as a map key was accepted: {s}")),
        (Ok(_), Err(e)) => fail(format!("well-formed value rejected: {e}")),
        (Ok(j), Ok(s)) => {
            let p = match parse(&s) {
                Ok(p) => p,
                Err(e) => return fail(format!("malformed JSON ({e}): {s}")),
            };
            match matches(&j, &p) {
                Ok(()) => Ok(()),
                Err(e) => fail(format!("wrong JSON {s}: {e}")),
            }
        }
    }
}

pub static C02: Check = Check {
    id: "C02",
    rule: "random Unicode text (escape-heavy, all planes) split into random borrowed/computed fragments and placed as value, map key, record label, record-tuple label, tag label, enum variant label or JSON_TEXT/JSON_VALUE text, with random tags on labels and in random company; the JSON literal is decoded by an independent parser and must equal the text, and bytes must equal those of the unsplit form; non-trivial = text has a character that needs escaping or is not ASCII, or is split",
    quick: 4_800_000,
    thorough: 30_000_000,
    run: c02,
    assumptions: &[],
};
fn c02(cx: &mut Ctx) -> R {
    let s = &mut cx.src;
    let t: String = match s.weighted(&[6, 2, 1, 1]) {
        0 => gen_text(s, 40),
        1 => {
            // raw scalar values over the whole range
            let n = s.len(12);
            (0..n).map(|_| char::from_u32(s.below(0x110000) as u32).unwrap_or('\u{fffd}')).collect()
        }
        2 => {
            let c = gen_char(s);
            let n = s.n(70);
            std::iter::repeat(c).take(n).collect()
        }
        _ => {
            // one special character somewhere in a long plain run
            let n = s.n(80);
            let p = s.n(n + 1);
            let c = char::from_u32(s.below(0x100) as u32).unwrap();
            (0..=n).map(|i| if i == p { c } else { 'x' }).collect()
        }
    };
    let fs = split_text(s, &t, true);
    let hint = if s.bool() { Some(t.len()) } else { None };
    let place = s.n(9);
    cx.nontrivial = fs.len() > 1 || t.chars().any(|c| (c as u32) < 0x20 || c == '"' || c == '\\' || (c as u32) > 0x7e);
    cx.sample(|| format!("place {place} text {t:?} in {} fragments", fs.len()));
    cx.class(["value", "map key", "record label", "record tuple label", "tag label", "variant label", "tagged variant label", "JSON_TEXT", "JSON_VALUE"][place]);
    let one = vec![Frag { data: t.clone(), borrowed: true }];
    let owned = cx.src.bool();
    let lt = match cx.src.n(4) {
        0 => None,
        1 if !t.is_empty() && t.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') => Some(sval::tags::VALUE_IDENT),
        _ => Some(cx.src.pick(TAGS).clone()),
    };
    let mt = if cx.src.bool() { Some(cx.src.pick(TAGS).clone()) } else { None };
    let mode = *cx.src.pick(&[Mode::Inline, Mode::Value, Mode::Computed]);
    let around = cx.src.n(7);
    let lb = || Lb { text: t.clone(), stat: None, owned, tag: lt.clone() };
    let m = || M { tag: mt.clone(), label: Some(lb()), index: None };
    let q = jstr(&t);
    // what the text follows and precedes must not matter
    let wrap = |v: V| -> V {
        let other = |k: usize| -> V {
            let text = |t: &str| V::Text(None, vec![Frag { data: t.into(), borrowed: true }]);
            let tagged = |tag: sval::Tag, t: &str| V::Tagged(M { tag: Some(tag), label: None, index: None }, Box::new(C::inline(text(t))));
            match k {
                1 => tagged(T_JSON_TEXT, "a\\n"),
                2 => tagged(T_JSON_VALUE, "{}"),
                3 => tagged(T_JSON_NUMBER, "1"),
                4 => tagged(sval::tags::NUMBER, "-0"),
                5 => V::Map(None, vec![(C::inline(text("\"")), C::inline(V::Null))]),
                _ => V::Enum(M::default(), Some(Box::new(C::inline(V::Tag(m()))))),
            }
        };
        if around == 0 { v } else { V::Seq(None, vec![C::inline(other(around)), C { mode, v }, C::inline(other(around))]) }
    };
    let build = |fs: Vec<Frag<String>>, hint: Option<usize>| -> V {
        let text = V::Text(hint, fs);
        match place {
            0 => V::Seq(None, vec![C::inline(text)]),
            1 => V::Map(None, vec![(C::inline(text), C::inline(V::Null))]),
            2 => V::Rec(M::default(), None, vec![(mt.clone(), lb(), C::inline(text))]),
            3 => V::Rt(M::default(), None, vec![(mt.clone(), lb(), Ix::new(0), C::inline(text))]),
            4 => V::Tag(m()),
            5 => V::Enum(M::default(), Some(Box::new(C::inline(V::Tag(m()))))),
            6 => V::Enum(M::default(), Some(Box::new(C::inline(V::Tagged(m(), Box::new(C::inline(text))))))),
            // handled below: the payload is the escaped form
            _ => V::Tagged(M { tag: Some(if place == 7 { T_JSON_TEXT } else { T_JSON_VALUE }), label: None, index: None }, Box::new(C::inline(text))),
        }
    };
    let (v, plain, expect_verbatim) = if place >= 7 {
        let payload = if place == 7 { q[1..q.len() - 1].to_string() } else { q.clone() };
        let fs = split_text(&mut cx.src, &payload, true);
        let out = if place == 7 { format!("\"{payload}\"") } else { payload.clone() };
        (build(fs, None), build(vec![Frag { data: payload, borrowed: true }], None), Some(out))
    } else {
        (build(fs, hint), build(one, Some(t.len())), None)
    };
    let alone = match sval_json::stream_to_string(&v) {
        Ok(g) => g,
        Err(e) => return fail(format!("error {e}")),
    };
    if let Some(e) = expect_verbatim {
        ensure!(alone == e, "native JSON not embedded verbatim: {alone} vs {e}");
    }
    let (v, plain) = (wrap(v), wrap(plain));
    let got = match sval_json::stream_to_string(&v) {
        Ok(g) => g,
        Err(e) => return fail(format!("error {e}")),
    };
    let whole = match sval_json::stream_to_string(&plain) {
        Ok(g) => g,
        Err(e) => return fail(format!("error {e}")),
    };
    ensure!(got == whole, "output depends on fragmentation: {got} vs {whole}");
    ensure!(got.contains(&alone), "{alone} is written differently next to other values: {got}");
    let p = match parse(&got) {
        Ok(p) => p,
        Err(e) => return fail(format!("malformed ({e}): {got}")),
    };
    let j = image(&v).unwrap();
    if let Err(e) = matches(&j, &p) {
        return fail(format!("{got}: {e}"));
    }
    Ok(())
}

pub static C03: Check = Check {
    id: "C03",
    rule: "random integers of all ten widths (boundary-heavy), random f32/f64 bit patterns and NUMBER-grammar texts (leading zeroes, signs, fractions, exponents, NaN/infinity spellings) in random fragment splits, as value, array element, map value, enum payload or map key; oracle = exact integer text, bit-identical float parse, equal decimal value; non-trivial = anything except single-digit integers",
    quick: 8_000_000,
    thorough: 60_000_000,
    run: c03,
    assumptions: &["NaN/infinity spellings are s?nan, inf, infinity in any case, optionally signed"],
};
fn c03(cx: &mut Ctx) -> R {
    let s = &mut cx.src;
    let kind = s.weighted(&[3, 3, 3, 6, 1]);
    let (v, expect): (V, J) = match kind {
        0 => {
            let n = gen_int(s);
            (V::Num(n.clone()), J::Num(N::Int(n.text())))
        }
        1 => {
            let f = gen_f64(s);
            (V::F64(f), if f.is_finite() { J::Num(N::F64(f.to_bits())) } else { J::Null })
        }
        2 => {
            let f = gen_f32(s);
            (V::F32(f), if f.is_finite() { J::Num(N::F32(f.to_bits())) } else { J::Null })
        }
        3 => {
            let t = gen_number_text(s);
            let fs = split_text(s, &t, true);
            let label = if s.chance(1, 3) { Some(Lb::stat("N")) } else { None };
            (V::Tagged(M { tag: Some(tags::NUMBER), label, index: None }, Box::new(C { mode: [Mode::Inline, Mode::Value, Mode::Computed][s.n(3)], v: V::Text(None, fs) })), J::Num(N::Dec(t)))
        }
        _ => {
            let mut t: String = s.pick(&["nan", "NaN", "NAN", "inf", "Inf", "infinity", "Infinity", "INFINITY", "snan", "sNaN"]).to_string();
            match s.n(3) {
                0 => {}
                1 => t.insert(0, '-'),
                _ => t.insert(0, '+'),
            }
            let fs = split_text(s, &t, true);
            (V::Tagged(M { tag: Some(tags::NUMBER), label: None, index: None }, Box::new(C { mode: Mode::Value, v: V::Text(None, fs) })), J::Null)
        }
    };
    let place = s.n(6);
    cx.class(["integer", "f64", "f32", "NUMBER text", "NaN/inf text"][kind]);
    cx.nontrivial_if(!matches!(&v, V::Num(n) if n.text().len() == 1));
    let c = C { mode: Mode::Value, v };
    let (v, expect) = match place {
        0 => (c.v, expect),
        1 => (V::Seq(None, vec![c.clone(), c]), J::Arr(vec![expect.clone(), expect])),
        2 => (V::Map(None, vec![(C::inline(V::Text(None, vec![])), c)]), J::Obj(vec![(J::Str("".into()), expect)])),
        3 => {
            let m = M { tag: None, label: Some(Lb::stat("V")), index: None };
            (V::Enum(M::default(), Some(Box::new(C::inline(V::Tagged(m, Box::new(c)))))), J::Obj(vec![(J::Str("V".into()), expect)]))
        }
        4 => {
            let k = if expect == J::Null { J::Str("null".into()) } else { expect };
            let x = C::inline(V::Text(None, vec![Frag { data: "t".into(), borrowed: true }]));
            (V::Map(None, vec![(c.clone(), x.clone()), (c, x)]), J::Obj(vec![(k.clone(), J::Str("t".into())), (k, J::Str("t".into()))]))
        }
        _ => {
            // directly as an enum variant when it is tagged
            match c.v {
                V::Tagged(m, x) => {
                    let e = wrap(&m, expect);
                    (V::Enum(M::default(), Some(Box::new(C::inline(V::Tagged(m, x))))), e)
                }
                v => (v, expect),
            }
        }
    };
    cx.sample(|| format!("{v:?}"));
    let got = match sval_json::stream_to_string(&v) {
        Ok(g) => g,
        Err(e) => return fail(format!("error {e} for {v:?}")),
    };
    let p = match parse(&got) {
        Ok(p) => p,
        Err(e) => return fail(format!("malformed ({e}): {got}")),
    };
    match matches(&expect, &p) {
        Ok(()) => Ok(()),
        Err(e) => fail(format!("{got}: {e}")),
    }
}

#[derive(Clone, Copy, Debug)]
enum Act {
    Take(usize),
    Interrupt,
}
struct Io<'a> {
    out: Vec<u8>,
    acts: &'a [Act],
    i: usize,
    /// byte position at which the writer stops accepting, and how
    stop: Option<(usize, Stop)>,
    calls: usize,
    after: usize,
    stopped: bool,
    /// fail once, then accept again
    oneshot: bool,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Stop {
    Zero,
    Err(io::ErrorKind),
}
impl<'a> io::Write for Io<'a> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        assert!(self.calls < 40_000_000, "writer is called without end");
        if self.stopped {
            self.after += 1;
        }
        let act = if self.acts.is_empty() { Act::Take(usize::MAX) } else { self.acts[self.i % self.acts.len()] };
        self.i += 1;
        let n = match act {
            Act::Interrupt => return Err(io::Error::from(io::ErrorKind::Interrupted)),
            Act::Take(n) => n.min(b.len()),
        };
        let n = match self.stop {
            Some((p, how)) if !(self.oneshot && self.stopped) && (self.out.len() + n > p || self.out.len() == p) => {
                let room = p - self.out.len();
                if room == 0 {
                    if b.is_empty() {
                        return Ok(0);
                    }
                    self.stopped = true;
                    return match how {
                        Stop::Zero => Ok(0),
                        Stop::Err(k) => Err(io::Error::new(k, "injected")),
                    };
                }
                room
            }
            _ => n,
        };
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
struct Fw {
    out: String,
    fail_at: Option<usize>,
    failed: bool,
    after: usize,
}
impl std::fmt::Write for Fw {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.failed {
            self.after += 1;
            return Err(std::fmt::Error);
        }
        if let Some(p) = self.fail_at {
            if self.out.len() + s.len() > p {
                self.failed = true;
                return Err(std::fmt::Error);
            }
        }
        self.out.push_str(s);
        Ok(())
    }
}

pub static C04: Check = Check {
    id: "C04",
    rule: "random values x all JSON entry points x a generated writer: cyclic schedule of short writes and Interrupted results, and optionally an error (several kinds) or a zero-length write at a random byte position, for good or only once, plus fmt::Write failures, and every way to make and read a JsonStr; complete delivery or an error with io source and a prefix; non-trivial = output longer than 8 bytes and a schedule with a short write, interrupt or fault",
    quick: 1_600_000,
    thorough: 12_000_000,
    run: c04,
    assumptions: &["writers follow the io::Write contract (n <= buf.len())"],
};
fn c04(cx: &mut Ctx) -> R {
    let mut c = cfg(false);
    c.scalar_keys = !cx.src.chance(1, 10);
    let v = gen(&mut cx.src, &c);
    let full = sval_json::stream_to_string(&v);
    let s = &mut cx.src;
    let mut acts: Vec<Act> = Vec::new();
    for _ in 0..s.n(5) {
        acts.push(if s.chance(1, 3) { Act::Interrupt } else { Act::Take(1 + s.len(20)) });
    }
    if acts.iter().all(|a| matches!(a, Act::Interrupt)) {
        acts.push(Act::Take(1 + s.n(30)));
    }
    let full = match full {
        Ok(f) => f,
        Err(_) => {
            // every other entry point has to fail as well, leaving no success behind
            let mut buf = String::new();
            ensure!(sval_json::stream_to_vec(&v).is_err(), "stream_to_vec accepts what stream_to_string rejects");
            ensure!(sval_json::stream_to_fmt_write(&mut buf, &v).is_err(), "stream_to_fmt_write accepts what stream_to_string rejects");
            ensure!(sval_json::stream_to_json_str(&v).is_err(), "stream_to_json_str accepts what stream_to_string rejects");
            let mut w = Io { out: vec![], acts: &acts, i: 0, stop: None, calls: 0, after: 0, stopped: false, oneshot: false };
            ensure!(sval_json::stream_to_io_write(&mut w, &v).is_err(), "stream_to_io_write accepts what stream_to_string rejects");
            cx.class("rejected value");
            return Ok(());
        }
    };
    // agreement of all entry points
    match sval_json::stream_to_vec(&v) {
        Ok(b) => ensure!(b == full.as_bytes(), "stream_to_vec differs: {:?} vs {full}", String::from_utf8_lossy(&b)),
        Err(e) => return fail(format!("stream_to_vec: {e}")),
    }
    match sval_json::stream_to_json_str(&v) {
        Ok(b) => {
            ensure!(b.as_str() == full, "stream_to_json_str differs: {} vs {full}", b.as_str());
            // embedding a JsonStr reproduces it verbatim
            match sval_json::stream_to_string(&*b) {
                Ok(again) => ensure!(again == full, "embedding a JsonStr changes it: {again} vs {full}"),
                Err(e) => return fail(format!("embedding a JsonStr fails: {e}")),
            }
            // every way to make one and to look at one
            let t: Box<str> = full.as_str().into();
            let all: [Box<JsonStr>; 4] = [b, JsonStr::boxed(full.as_str()), JsonStr::boxed(full.clone()), t.into()];
            let r: &JsonStr = full.as_str().into();
            for j in all.iter().map(|b| &**b).chain([r, JsonStr::new(&full)]) {
                let same = j.as_str() == full
                    && j.as_bytes() == full.as_bytes()
                    && AsRef::<str>::as_ref(j) == full
                    && std::borrow::Borrow::<str>::borrow(j) == full
                    && j.to_string() == full
                    && format!("{j:?}") == format!("{full:?}")
                    && *j == *full.as_str()
                    && *j == *r;
                ensure!(same, "a JsonStr of {full:?} gives another text: {j:?}");
            }
            ensure!(*r != *"" && *r != *JsonStr::new(&format!("{full} ")), "different JsonStrs are equal");
        }
        Err(e) => return fail(format!("stream_to_json_str: {e}")),
    }
    let mut buf = String::new();
    let _ = write!(buf, "");
    match sval_json::stream_to_fmt_write(&mut buf, &v) {
        Ok(()) => ensure!(buf == full, "stream_to_fmt_write differs"),
        Err(e) => return fail(format!("stream_to_fmt_write: {e}")),
    }
    // a writer with faults
    let stop = if s.bool() {
        let p = s.n(full.len() + 1);
        let how = match s.n(4) {
            0 => Stop::Zero,
            1 => Stop::Err(io::ErrorKind::Other),
            2 => Stop::Err(io::ErrorKind::WouldBlock),
            _ => Stop::Err(io::ErrorKind::BrokenPipe),
        };
        Some((p, how))
    } else {
        None
    };
    let fmt_fail = if s.bool() { Some(s.n(full.len() + 1)) } else { None };
    let oneshot = s.chance(1, 3);
    cx.nontrivial_if(full.len() > 8 && (!acts.is_empty() || stop.is_some()));
    cx.class_if(matches!(stop, Some((_, Stop::Zero))), "zero-length write");
    cx.class_if(matches!(stop, Some((_, Stop::Err(_)))), "io error");
    cx.class_if(stop.is_none(), "no fault");
    cx.sample(|| format!("acts {acts:?} stop {stop:?} on {full}"));
    let mut w = Io { out: vec![], acts: &acts, i: 0, stop, calls: 0, after: 0, stopped: false, oneshot };
    let r = sval_json::stream_to_io_write(&mut w, &v);
    let must_fail = matches!(stop, Some((p, _)) if p < full.len());
    if must_fail {
        let (p, how) = stop.unwrap();
        match r {
            Ok(()) => return fail(format!("writer accepted only {p} of {} bytes ({how:?}) but the call returned Ok; delivered {:?}", full.len(), String::from_utf8_lossy(&w.out))),
            Err(e) => {
                let src = e.source().and_then(|s| s.downcast_ref::<io::Error>());
                ensure!(src.is_some(), "write failure reported without the io error as source: {e}");
                if let Stop::Err(k) = how {
                    ensure!(src.unwrap().kind() == k, "io error kind {:?} reported as {:?}", k, src.unwrap().kind());
                }
            }
        }
        ensure!(full.as_bytes().starts_with(&w.out), "delivered bytes are not a prefix of the output");
        ensure!(w.out.len() == p, "bytes before the fault were not delivered: {} of {p}", w.out.len());
    } else {
        if let Err(e) = r {
            return fail(format!("writer that accepts everything: {e}"));
        }
        ensure!(w.out == full.as_bytes(), "short writes or interrupts changed the output: {:?} vs {full}", String::from_utf8_lossy(&w.out));
    }
    if let Some(p) = fmt_fail {
        let mut w = Fw { out: String::new(), fail_at: Some(p), failed: false, after: 0 };
        let r = sval_json::stream_to_fmt_write(&mut w, &v);
        ensure!(r.is_err() == (p < full.len()), "fmt::Write failing at byte {p} of {}: call returned {}", full.len(), if r.is_ok() { "Ok" } else { "Err" });
        ensure!(full.starts_with(&w.out), "bytes after a failed fmt write are not a prefix: {:?}", w.out);
        ensure!(w.after == 0, "{} writes after the formatter failed", w.after);
    }
    Ok(())
}

//! C26: the JSON reader of sval_experiments.
use crate::engine::*;
use crate::ensure;
use crate::ev::*;
use crate::jsonm::*;
use crate::val::*;
use sval::tags;
use sval_experiments::json::from_slice;

pub static C26: Check = Check {
    id: "C26",
    rule: "random JSON documents (objects with duplicate and empty keys, arrays, strings with the supported escapes, number spellings, literals, mixed nesting up to several hundred levels) with random whitespace between tokens -> sval_experiments::json::from_slice, streamed into a recorder, a failing recorder, a ValueBuf and sval_json; oracle = the call sequence built from the document model and an independent parser; documents cut off between two tokens inside a container must fail, and brackets that do not match are never accepted; non-trivial = at least 3 values; distinct by choice sequence",
    quick: 900_000,
    thorough: 8_000_000,
    run: c26,
    assumptions: &["only documents the reader is written for: valid JSON, escapes \\n \\r \\\" \\\\, exponents with a lower-case e"],
};

fn gen_string(s: &mut Src) -> (String, String) {
    let t: String = gen_text(s, 8).chars().filter(|c| *c >= ' ' || matches!(c, '\n' | '\r')).collect();
    let mut q = String::from("\"");
    for c in t.chars() {
        match c {
            '\n' => q.push_str("\\n"),
            '\r' => q.push_str("\\r"),
            '"' => q.push_str("\\\""),
            '\\' => q.push_str("\\\\"),
            c => q.push(c),
        }
    }
    q.push('"');
    (t, q)
}
fn digits(s: &mut Src, max: usize) -> String {
    (0..1 + s.len(max)).map(|_| (b'0' + s.n(10) as u8) as char).collect()
}
fn gen_number(s: &mut Src) -> String {
    let mut t = String::new();
    if s.chance(1, 3) {
        t.push('-');
    }
    if s.chance(1, 4) {
        t.push('0');
    } else {
        t.push((b'1' + s.n(9) as u8) as char);
        if s.bool() {
            t.push_str(&digits(s, 6));
        }
    }
    if s.chance(1, 3) {
        t.push('.');
        t.push_str(&digits(s, 6));
    }
    if s.chance(1, 3) {
        t.push('e');
        t.push_str(s.pick(&["", "+", "-"]));
        t.push_str(&digits(s, 2));
    }
    t
}
/// the document's tokens, and the calls it should make
struct Doc {
    toks: Vec<String>,
    evs: Vec<Ev>,
    values: usize,
    depth: usize,
}
impl Doc {
    fn text(&mut self, s: &mut Src) {
        let (t, q) = gen_string(s);
        self.toks.push(q);
        self.evs.push(Ev::TextBegin(None));
        if !t.is_empty() {
            self.evs.push(Ev::TextFrag(t, false));
        }
        self.evs.push(Ev::TextEnd);
    }
    fn value(&mut self, s: &mut Src, nodes: &mut usize, d: usize, max: usize) {
        self.values += 1;
        self.depth = self.depth.max(d);
        let open = d < max && *nodes > 0;
        *nodes = nodes.saturating_sub(1);
        match s.weighted(if open { &[1, 1, 2, 2, 4, 4] } else { &[1, 1, 2, 2] }) {
            0 => {
                self.toks.push("null".into());
                self.evs.push(Ev::Null)
            }
            1 => {
                let b = s.bool();
                self.toks.push(b.to_string());
                self.evs.push(Ev::Bool(b))
            }
            2 => {
                let n = gen_number(s);
                let m = |t| M { tag: Some(t), label: None, index: None };
                self.evs.push(Ev::TaggedBegin(m(T_JSON_NUMBER)));
                self.evs.push(Ev::TaggedBegin(m(tags::NUMBER)));
                self.evs.push(Ev::TextBegin(None));
                self.evs.push(Ev::TextFrag(n.clone(), false));
                self.evs.push(Ev::TextEnd);
                self.evs.push(Ev::TaggedEnd(m(tags::NUMBER)));
                self.evs.push(Ev::TaggedEnd(m(T_JSON_NUMBER)));
                self.toks.push(n)
            }
            3 => self.text(s),
            4 => {
                self.toks.push("[".into());
                self.evs.push(Ev::SeqBegin(None));
                for i in 0..s.len(6) {
                    if i > 0 {
                        self.toks.push(",".into());
                    }
                    self.evs.push(Ev::SeqValueBegin);
                    self.value(s, nodes, d + 1, max);
                    self.evs.push(Ev::SeqValueEnd);
                }
                self.toks.push("]".into());
                self.evs.push(Ev::SeqEnd)
            }
            _ => {
                self.toks.push("{".into());
                self.evs.push(Ev::MapBegin(None));
                for i in 0..s.len(6) {
                    if i > 0 {
                        self.toks.push(",".into());
                    }
                    self.evs.push(Ev::MapKeyBegin);
                    self.text(s);
                    self.evs.push(Ev::MapKeyEnd);
                    self.toks.push(":".into());
                    self.evs.push(Ev::MapValueBegin);
                    self.value(s, nodes, d + 1, max);
                    self.evs.push(Ev::MapValueEnd);
                }
                self.toks.push("}".into());
                self.evs.push(Ev::MapEnd)
            }
        }
    }
    /// containers around what is there
    fn wrap(&mut self, s: &mut Src, n: usize) {
        let pattern = s.n(4);
        let (mut pre, mut post, mut epre, mut epost) = (vec![], vec![], vec![], vec![]);
        for i in 0..n {
            let map = match pattern {
                0 => false,
                1 => true,
                2 => i % 2 == 0,
                _ => s.bool(),
            };
            if map {
                pre.extend(["{".to_string(), "\"k\"".into(), ":".into()]);
                post.push("}".to_string());
                epre.extend([Ev::MapBegin(None), Ev::MapKeyBegin, Ev::TextBegin(None), Ev::TextFrag("k".into(), false), Ev::TextEnd, Ev::MapKeyEnd, Ev::MapValueBegin]);
                epost.extend([Ev::MapEnd, Ev::MapValueEnd]);
            } else {
                pre.push("[".into());
                post.push("]".into());
                epre.extend([Ev::SeqBegin(None), Ev::SeqValueBegin]);
                epost.extend([Ev::SeqEnd, Ev::SeqValueEnd]);
            }
            if s.chance(1, 8) {
                if !map {
                    pre.extend(["{".to_string(), "}".into(), ",".into()]);
                    epre.extend([Ev::MapBegin(None), Ev::MapEnd, Ev::SeqValueEnd, Ev::SeqValueBegin]);
                }
            }
        }
        post.reverse();
        epost.reverse();
        self.toks.splice(0..0, pre);
        self.toks.extend(post);
        self.evs.splice(0..0, epre);
        self.evs.extend(epost);
        self.depth += n;
    }
}
fn c26(cx: &mut Ctx) -> R {
    let s = &mut cx.src;
    let mut d = Doc { toks: vec![], evs: vec![], values: 0, depth: 0 };
    let big = s.chance(1, 12);
    d.value(s, &mut if big { 40 } else { 12 }, 0, if big { 8 } else { 4 });
    match s.weighted(&[12, 2, 1]) {
        0 => {}
        1 => {
            let n = 1 + s.len(12);
            d.wrap(s, n)
        }
        _ => {
            let n = *s.pick(&[20, 40, 60, 63, 64, 65, 70, 100, 200, 500]);
            d.wrap(s, n)
        }
    }
    let ws_style = s.weighted(&[3, 3, 1]);
    let ws = |s: &mut Src| -> String {
        match ws_style {
            0 => String::new(),
            1 => (0..s.n(3)).map(|_| *s.pick(&[' ', '\t', '\r', '\n'])).collect(),
            _ => " ".into(),
        }
    };
    let mut text = ws(s);
    let mut cut_at = vec![text.len()];
    for t in &d.toks {
        text.push_str(t);
        text.push_str(&ws(s));
        cut_at.push(text.len());
    }
    let how = s.weighted(&[5, 2, 2, 2, 2, 1]);
    let cut = s.n(d.toks.len().max(1));
    let k = s.n(d.evs.len() + 2);
    cx.sample(|| clip(&text, 400));
    cx.nontrivial_if(d.values >= 3 || d.depth >= 3);
    cx.class_if(d.depth >= 64, "nested 64 levels or deeper");
    cx.class_if(text.contains('\\'), "has escapes");
    let exp = norm_frags(&d.evs);
    let model = match parse(&text) {
        Ok(p) => p,
        Err(e) => return fail(format!("generator wrote invalid JSON ({e}): {text}")),
    };
    // nesting is counted in two integers that fill up no earlier than this
    let may_fail = d.depth > 80;
    match how {
        // the calls it makes
        0 => {
            let mut r = Rec::new();
            let ok = sval::Value::stream(from_slice(&text), &mut r).is_ok();
            if !ok {
                cx.class("error for deep nesting");
                ensure!(may_fail, "a document was rejected after {:?}", r.evs);
                return Ok(());
            }
            let got = norm_frags(&drop_sizes(&r.evs));
            ensure!(got == exp, "wrong calls: {}", diff(&exp, &got));
            // borrowed text comes from the document or is an unescaped character
            let (a, b) = (text.as_ptr() as usize, text.as_ptr() as usize + text.len());
            for (p, n) in &r.ptrs {
                ensure!((*p >= a && p + n <= b) || *n <= 1, "a borrowed fragment of {n} bytes does not come from the document");
            }
            Ok(())
        }
        // and through the JSON writer
        1 => match sval_json::stream_to_string(from_slice(&text)) {
            Err(e) => {
                ensure!(may_fail, "rejected: {e}");
                Ok(())
            }
            Ok(out) => {
                let p = match parse(&out) {
                    Ok(p) => p,
                    Err(e) => return fail(format!("malformed ({e}): {out}")),
                };
                matches(&model.to_j(), &p).or_else(|e| fail(format!("{out}: {e}")))
            }
        },
        // through a buffer
        2 => match sval_buffer::Value::collect(from_slice(&text)) {
            Err(e) => {
                ensure!(may_fail, "rejected: {e}");
                Ok(())
            }
            Ok(v) => {
                let got = match record(&v) {
                    Ok(g) => norm_frags(&drop_sizes(&g)),
                    Err(e) => return fail(e),
                };
                ensure!(got == exp, "wrong calls through a buffer: {}", diff(&exp, &got));
                Ok(())
            }
        },
        // a document that ends early, inside a container
        3 => {
            // the value is not over while a container is open
            let mut open = 0i32;
            for t in &d.toks[..cut] {
                match t.as_str() {
                    "[" | "{" => open += 1,
                    "]" | "}" => open -= 1,
                    _ => {}
                }
            }
            if open == 0 {
                cx.class("nothing open at the cut");
                return Ok(());
            }
            cx.class("cut off");
            let part = &text[..cut_at[cut]];
            let mut r = Rec::new();
            ensure!(sval::Value::stream(from_slice(part), &mut r).is_err(), "success for a document that is cut off: {part}");
            // what was streamed until then is the beginning of the document's calls
            let mut full = Rec::new();
            let ok = sval::Value::stream(from_slice(&text), &mut full).is_ok();
            if ok {
                let (a, b) = (norm_computed(&r.evs), norm_computed(&full.evs));
                ensure!(b.starts_with(&a), "a cut off document streams something else: {:?}", diff(&b, &a));
            }
            Ok(())
        }
        // a closing bracket too many, or of the wrong kind
        5 => {
            let closers: Vec<usize> = (0..d.toks.len()).filter(|i| matches!(d.toks[*i].as_str(), "]" | "}")).collect();
            let mut toks = d.toks.clone();
            let what = k % 3;
            if what > 0 && !closers.is_empty() {
                let t = &mut toks[closers[cut % closers.len()]];
                *t = if t == "]" { "}".into() } else { "]".into() };
            } else {
                toks.push(if what == 1 { "]".into() } else { "}".into() });
            }
            cx.class("brackets that do not match");
            let text = toks.concat();
            // reported as an error or refused with a panic, but not accepted
            let r = no_panic(|| sval::Value::stream(from_slice(&text), &mut Rec::new()).is_ok());
            ensure!(r != Ok(true), "success for brackets that do not match: {text}");
            Ok(())
        }
        // a stream that fails
        _ => {
            let mut r = Rec::failing(k);
            let ok = sval::Value::stream(from_slice(&text), &mut r).is_ok();
            if r.failed {
                cx.class("failing stream");
                ensure!(!ok, "success although the stream failed at call {k}");
                ensure!(r.after_fail == 0, "{} calls after the stream failed at call {k}", r.after_fail);
            } else {
                ensure!(ok || may_fail, "rejected");
            }
            Ok(())
        }
    }
}

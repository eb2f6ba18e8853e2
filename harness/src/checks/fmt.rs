//! C10, C11: sval_fmt.
use crate::dual::*;
use crate::engine::*;
use crate::ensure;
use crate::ev::*;
use crate::fmtm::*;
use crate::val::*;
use std::fmt::{self, Write as _};
use sval::tags;
use sval_fmt::{ToFmt, TokenWrite};

// ------------------------------------------------------------------ C10

pub static C10: Check = Check {
    id: "C10",
    rule: "random values of a recursive family of types deriving Value and Debug (structs, tuple structs, newtypes, unit structs, generic and nested enums of all variant kinds, Option, Vec, arrays, tuples, integers, floats, strings); ToFmt's Debug and Display and stream_to_fmt must print what the derived Debug prints, directly, through dyn and through a buffer; integer formatting flags are kept; non-trivial = at least 3 streamed calls",
    quick: 2_400_000,
    thorough: 12_000_000,
    run: c10,
    assumptions: &["excluded because std and sval_fmt have different styles by design: map spacing, char quotes, one-element tuples, structs with braces but no fields, ' and grapheme extenders in strings"],
};
/// std escapes these only at the start of a string
fn grapheme_extend(c: char) -> bool {
    !c.is_ascii() && format!("{:?}", format!("a{c}"))[2..] != format!("{:?}", c.to_string())[1..]
}
fn dbg_text(s: &mut Src) -> String {
    gen_text(s, 10).chars().filter(|c| *c != '\'' && !grapheme_extend(*c)).collect()
}
const FMT_FEAT: Feat = Feat { floats: true, text: dbg_text, chars: false, maps: false, one_tuples: false, arrays: true, unit_structs: true, empty_structs: false };
/// formats through stream_to_fmt
struct Via<'a, T>(&'a T);
impl<T: sval::Value> fmt::Debug for Via<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        sval_fmt::stream_to_fmt(f, self.0)
    }
}
fn c10(cx: &mut Ctx) -> R {
    if cx.src.chance(1, 12) {
        return c10_flags(cx);
    }
    let big = cx.src.chance(1, 10);
    let d = gen_dual(&mut cx.src, FMT_FEAT, if big { 40 } else { 10 }, if big { 9 } else { 5 });
    let exp = format!("{d:?}");
    cx.nontrivial_if(dual_size(&d) >= 3);
    cx.sample(|| exp.clone());
    let got = format!("{:?}", ToFmt::new(&d));
    ensure!(got == exp, "ToFmt prints {got}, Debug prints {exp}");
    let got = match cx.src.n(5) {
        0 => format!("{}", ToFmt::new(&d)),
        1 => format!("{:?}", Via(&d)),
        2 => {
            let mut s = String::new();
            d.with(&mut |v| s = format!("{:?}", ToFmt::new(v)));
            s
        }
        3 => match sval_buffer::ValueBuf::collect(&d) {
            Ok(b) => format!("{:?}", ToFmt::new(&b)),
            Err(e) => return fail(format!("buffering failed: {e}")),
        },
        _ => format!("{:?}", ToFmt::new_borrowed(&d)),
    };
    ensure!(got == exp, "an equivalent route prints {got}, Debug prints {exp}");
    // and back: a Debug streamed as a value is its text
    let dv = sval_fmt::DebugToValue::new(&d);
    let t = sval_buffer::TextBuf::collect(&dv).map_err(|e| Fail { msg: e.to_string() })?;
    ensure!(t.as_str() == exp, "DebugToValue gives {:?}", t.as_str());
    Ok(())
}
fn c10_flags(cx: &mut Ctx) -> R {
    let n = gen_int(&mut cx.src);
    cx.nontrivial = true;
    cx.class("flags");
    cx.sample(|| format!("{n:?} with flags"));
    macro_rules! go {
        ($($v:ident)+) => { match n { $(Num::$v(x) => {
            let v = ToFmt::new(x);
            let pairs = [
                (format!("{x:?}"), format!("{v:?}")),
                (format!("{x:12?}"), format!("{v:12?}")),
                (format!("{x:<9?}"), format!("{v:<9?}")),
                (format!("{x:^+9?}"), format!("{v:^+9?}")),
                (format!("{x:024?}"), format!("{v:024?}")),
                (format!("{x:+}"), format!("{v:+}")),
                (format!("{x:08}"), format!("{v:08}")),
                (format!("{x:x?}"), format!("{v:x?}")),
                (format!("{x:#06X?}"), format!("{v:#06X?}")),
            ];
            for (e, g) in pairs {
                ensure!(e == g, "{e:?} expected, got {g:?}");
            }
        })+ } };
    }
    go!(I8 I16 I32 I64 I128 U8 U16 U32 U64 U128);
    macro_rules! fl {
        ($x:expr) => {{
            let x = $x;
            let v = ToFmt::new(x);
            let pairs = [
                (format!("{x:?}"), format!("{v:?}")),
                (format!("{x:.3?}"), format!("{v:.3?}")),
                (format!("{x:+12.1?}"), format!("{v:+12.1?}")),
                (format!("{x:>030?}"), format!("{v:>030?}")),
                (format!("{:.2?}", vec![x, -x]), format!("{:.2?}", ToFmt::new(vec![x, -x]))),
            ];
            for (e, g) in pairs {
                ensure!(e == g, "{e:?} expected, got {g:?}");
            }
        }};
    }
    fl!(gen_f64(&mut cx.src));
    fl!(gen_f32(&mut cx.src));
    Ok(())
}

// ------------------------------------------------------------------ C11

pub static C11: Check = Check {
    id: "C11",
    rule: "random value trees of every sval shape rendered by ToFmt Debug/Display, stream_to_fmt, stream_to_string, stream_to_write, stream_to_token_write with a custom TokenWrite (by value and by &mut), each compared with a reference rendering (float tokens compared by value); the same tree re-streamed with other fragments/borrowing/hints and through a buffer; token tags checked; a TokenWrite that overrides every hook must get exactly the hooks, with the is_first and is_empty flags, that the value has, also through &mut references; NUMBER-tagged containers; a fmt::Write failing at a random byte (for good or only once) must make every sink fail having received a prefix; non-trivial = at least 3 nodes",
    quick: 300_000,
    thorough: 10_000_000,
    run: c11,
    assumptions: &["NUMBER-tagged text is printed verbatim", "float spelling may differ between sinks but must parse back to the same float"],
};
/// keeps tokens with their tags
#[derive(Default)]
struct Toks {
    out: String,
    toks: Vec<(String, String)>,
}
impl fmt::Write for Toks {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.out.push_str(s);
        Ok(())
    }
}
impl TokenWrite for Toks {
    fn write_token<T: fmt::Display>(&mut self, tag: &sval::Tag, token: T) -> fmt::Result {
        let t = token.to_string();
        self.out.push_str(&t);
        let tag = if *tag == tags::NUMBER {
            "n"
        } else if *tag == sval_fmt::tags::ATOM {
            "a"
        } else if *tag == sval_fmt::tags::PUNCT {
            "p"
        } else if *tag == sval_fmt::tags::IDENT {
            "i"
        } else if *tag == sval_fmt::tags::TEXT {
            "t"
        } else if *tag == sval_fmt::tags::WS {
            "w"
        } else {
            "?"
        };
        self.toks.push((tag.into(), t));
        Ok(())
    }
}
/// fails once its budget of bytes is used up
struct Lim {
    out: String,
    left: usize,
    failed: bool,
    /// fail once, then accept again
    oneshot: bool,
}
impl fmt::Write for Lim {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.failed {
            if self.oneshot {
                self.out.push_str(s);
                return Ok(());
            }
            return Err(fmt::Error);
        }
        if s.len() > self.left {
            let mut n = self.left;
            while !s.is_char_boundary(n) {
                n -= 1;
            }
            self.out.push_str(&s[..n]);
            self.failed = true;
            return Err(fmt::Error);
        }
        self.left -= s.len();
        self.out.push_str(s);
        Ok(())
    }
}
impl TokenWrite for Lim {}

/// a TokenWrite that overrides every hook and keeps what it was called with
#[derive(Default, Debug, PartialEq)]
struct Hooks(Vec<String>);
impl Hooks {
    fn put(&mut self, s: String) -> fmt::Result {
        // how a text is cut up is up to the value
        if let (Some(new), Some(last)) = (s.strip_prefix("text "), self.0.last_mut()) {
            if last.starts_with("text ") {
                last.push_str(new);
                return Ok(());
            }
        }
        self.0.push(s);
        Ok(())
    }
}
impl fmt::Write for Hooks {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.put(format!("str {s}"))
    }
}
macro_rules! hooks {
    ($($f:ident($($a:ident: $t:ty),*) = $n:literal;)*) => {
        impl TokenWrite for Hooks {
            $(fn $f(&mut self, $($a: $t),*) -> fmt::Result {
                #[allow(unused_mut)]
                let mut s = String::from($n);
                $(write!(s, " {}", $a)?;)*
                self.put(s)
            })*
            fn write_f32(&mut self, value: f32) -> fmt::Result {
                self.put(format!("f32 {}", if value.is_nan() { 0 } else { value.to_bits() }))
            }
            fn write_f64(&mut self, value: f64) -> fmt::Result {
                self.put(format!("f64 {}", if value.is_nan() { 0 } else { value.to_bits() }))
            }
            fn write_token<T: fmt::Display>(&mut self, tag: &sval::Tag, token: T) -> fmt::Result {
                self.put(format!("token {tag:?} {token}"))
            }
            fn write_number<N: fmt::Display>(&mut self, num: N) -> fmt::Result {
                self.put(format!("number {num}"))
            }
            fn write_atom<A: fmt::Display>(&mut self, atom: A) -> fmt::Result {
                self.put(format!("atom {atom}"))
            }
        }
    };
}
hooks! {
    write_u8(v: u8) = "u8";
    write_u16(v: u16) = "u16";
    write_u32(v: u32) = "u32";
    write_u64(v: u64) = "u64";
    write_u128(v: u128) = "u128";
    write_i8(v: i8) = "i8";
    write_i16(v: i16) = "i16";
    write_i32(v: i32) = "i32";
    write_i64(v: i64) = "i64";
    write_i128(v: i128) = "i128";
    write_null() = "null";
    write_bool(v: bool) = "bool";
    write_type(v: &str) = "type";
    write_field(v: &str) = "field";
    write_ident(v: &str) = "ident";
    write_punct(v: &str) = "punct";
    write_ws(v: &str) = "ws";
    write_text_quote() = "quote";
    write_text(v: &str) = "text";
    write_map_begin() = "map {";
    write_map_key_begin(v: bool) = "key";
    write_map_value_begin(v: bool) = "value";
    write_map_end(v: bool) = "map }";
    write_record_type(v: &str) = "record type";
    write_record_begin() = "record {";
    write_record_value_begin(f: &str, v: bool) = "record value";
    write_record_end(v: bool) = "record }";
    write_seq_begin() = "seq [";
    write_seq_value_begin(v: bool) = "seq value";
    write_seq_end(v: bool) = "seq ]";
    write_tuple_type(v: &str) = "tuple type";
    write_tuple_begin() = "tuple (";
    write_tuple_value_begin(v: bool) = "tuple value";
    write_tuple_end(v: bool) = "tuple )";
}
/// the hooks a value has to go through
fn hook_calls(v: &V, num: bool, o: &mut Vec<String>) {
    let tag = |m: &M, o: &mut Vec<String>| match &m.label {
        Some(l) => o.push(format!("type {}", l.text)),
        None => o.push("null".into()),
    };
    let rec = |m: &M, xs: Vec<(&Lb, &C)>, o: &mut Vec<String>| {
        if let Some(l) = &m.label {
            o.push(format!("record type {}", l.text));
        }
        o.push("record {".into());
        for (i, (l, x)) in xs.iter().enumerate() {
            o.push(format!("record value {} {}", l.text, i == 0));
            hook_calls(&x.v, false, o);
        }
        o.push(format!("record }} {}", xs.is_empty()));
    };
    match v {
        V::Null => o.push("null".into()),
        V::Bool(b) => o.push(format!("bool {b}")),
        V::Num(n) => o.push(format!("{} {}", format!("{n:?}").split('(').next().unwrap_or("").to_lowercase(), n.text())),
        V::F32(x) => o.push(format!("f32 {}", if x.is_nan() { 0 } else { x.to_bits() })),
        V::F64(x) => o.push(format!("f64 {}", if x.is_nan() { 0 } else { x.to_bits() })),
        V::Text(_, fs) if num => o.extend(fs.iter().map(|f| format!("number {}", f.data))),
        V::Text(_, fs) => {
            o.push("quote".into());
            if !fs.is_empty() {
                o.push(format!("text {}", text_of(fs)));
            }
            o.push("quote".into());
        }
        V::Bin(_, fs) => {
            o.push("seq [".into());
            let bs = bytes_of(fs);
            for (i, b) in bs.iter().enumerate() {
                o.push(format!("seq value {}", i == 0));
                o.push(format!("u8 {b}"));
            }
            o.push(format!("seq ] {}", bs.is_empty()));
        }
        V::Seq(_, xs) => {
            o.push("seq [".into());
            for (i, x) in xs.iter().enumerate() {
                o.push(format!("seq value {}", i == 0));
                hook_calls(&x.v, false, o);
            }
            o.push(format!("seq ] {}", xs.is_empty()));
        }
        V::Map(_, xs) => {
            o.push("map {".into());
            for (i, (k, x)) in xs.iter().enumerate() {
                o.push(format!("key {}", i == 0));
                hook_calls(&k.v, false, o);
                o.push("value".into());
                hook_calls(&x.v, false, o);
            }
            o.push(format!("map }} {}", xs.is_empty()));
        }
        V::Tag(m) | V::Enum(m, None) => tag(m, o),
        V::Tagged(m, x) => {
            if let Some(l) = &m.label {
                o.push(format!("tuple type {}", l.text));
                o.push("tuple (".into());
            }
            hook_calls(&x.v, num || m.tag == Some(tags::NUMBER), o);
            if m.label.is_some() {
                o.push("tuple ) false".into());
            }
        }
        V::Rec(m, _, xs) => rec(m, xs.iter().map(|(_, l, x)| (l, x)).collect(), o),
        V::Rt(m, _, xs) => rec(m, xs.iter().map(|(_, l, _, x)| (l, x)).collect(), o),
        V::Tup(m, _, xs) => {
            if let Some(l) = &m.label {
                o.push(format!("tuple type {}", l.text));
            }
            o.push("tuple (".into());
            for (i, (_, _, x)) in xs.iter().enumerate() {
                o.push(format!("tuple value {}", i == 0));
                hook_calls(&x.v, false, o);
            }
            o.push(format!("tuple ) {}", xs.is_empty()));
        }
        V::Enum(_, Some(x)) | V::Hinted(_, x) => hook_calls(&x.v, num, o),
    }
}
/// how a text is cut up, and the flag of a map value (it has no documented meaning), are left out
fn hook_norm(h: Vec<String>) -> Vec<String> {
    let mut o: Vec<String> = Vec::new();
    for s in h {
        if s.starts_with("value ") {
            o.push("value".into());
            continue;
        }
        if let Some(n) = s.strip_prefix("number ") {
            if n.is_empty() {
                continue;
            }
            if let Some(l) = o.last_mut().filter(|l| l.starts_with("number ")) {
                l.push_str(n);
                continue;
            }
        }
        if s == "text " {
            continue;
        }
        o.push(s);
    }
    o
}
/// every method of a writer, through any number of references
fn every_hook<W: TokenWrite>(mut w: W, n: u64, t: &str) -> fmt::Result {
    let b = n % 2 == 0;
    w.write_token(&sval_fmt::tags::WS, t)?;
    w.write_number(n)?;
    w.write_atom(t)?;
    w.write_null()?;
    w.write_bool(b)?;
    w.write_u8(n as u8)?;
    w.write_u16(n as u16)?;
    w.write_u32(n as u32)?;
    w.write_u64(n)?;
    w.write_u128(n as u128 * 3)?;
    w.write_i8(n as i8)?;
    w.write_i16(n as i16)?;
    w.write_i32(n as i32)?;
    w.write_i64(n as i64)?;
    w.write_i128(-(n as i128))?;
    w.write_f32(n as f32)?;
    w.write_f64(n as f64)?;
    w.write_type(t)?;
    w.write_field(t)?;
    w.write_ident(t)?;
    w.write_punct(t)?;
    w.write_ws(t)?;
    w.write_text_quote()?;
    w.write_text(t)?;
    w.write_map_begin()?;
    w.write_map_key_begin(b)?;
    w.write_map_value_begin(b)?;
    w.write_map_end(b)?;
    w.write_record_type(t)?;
    w.write_record_begin()?;
    w.write_record_value_begin(t, b)?;
    w.write_record_end(b)?;
    w.write_seq_begin()?;
    w.write_seq_value_begin(b)?;
    w.write_seq_end(b)?;
    w.write_tuple_type(t)?;
    w.write_tuple_begin()?;
    w.write_tuple_value_begin(b)?;
    w.write_tuple_end(b)?;
    w.write_str(t)
}
fn c11_hooks(cx: &mut Ctx, v: &V) -> R {
    cx.class("every hook overridden");
    let mut exp = Vec::new();
    hook_calls(v, false, &mut exp);
    let exp = hook_norm(exp);
    let mut h = Hooks::default();
    let r = match cx.src.n(3) {
        0 => sval_fmt::stream_to_token_write(&mut h, v),
        1 => {
            let mut m = &mut h;
            sval_fmt::stream_to_token_write(&mut m, v)
        }
        _ => sval_fmt::stream_to_token_write(&mut &mut &mut h, v),
    };
    ensure!(r.is_ok(), "stream_to_token_write failed");
    let got = hook_norm(h.0);
    if got != exp {
        let i = got.iter().zip(&exp).take_while(|(a, b)| a == b).count();
        return fail(format!("hook {i} of a custom TokenWrite is {:?}, expected {:?}", got.get(i), exp.get(i)));
    }
    let n = cx.src.bits() as u64;
    let t = gen_text(&mut cx.src, 6);
    let (mut a, mut b, mut c) = (Hooks::default(), Hooks::default(), Hooks::default());
    let rs = (every_hook(&mut a, n, &t), every_hook(&mut &mut b, n, &t));
    // one call at a time on the writer itself
    let direct = {
        let b = n % 2 == 0;
        let w = &mut c;
        (|| -> fmt::Result {
            TokenWrite::write_token(w, &sval_fmt::tags::WS, &t)?;
            TokenWrite::write_number(w, n)?;
            TokenWrite::write_atom(w, &t)?;
            w.put("null".into())?;
            w.put(format!("bool {b}"))?;
            w.put(format!("u8 {}", n as u8))?;
            w.put(format!("u16 {}", n as u16))?;
            w.put(format!("u32 {}", n as u32))?;
            w.put(format!("u64 {n}"))?;
            w.put(format!("u128 {}", n as u128 * 3))?;
            w.put(format!("i8 {}", n as i8))?;
            w.put(format!("i16 {}", n as i16))?;
            w.put(format!("i32 {}", n as i32))?;
            w.put(format!("i64 {}", n as i64))?;
            w.put(format!("i128 {}", -(n as i128)))?;
            w.put(format!("f32 {}", (n as f32).to_bits()))?;
            w.put(format!("f64 {}", (n as f64).to_bits()))?;
            for k in ["type", "field", "ident", "punct", "ws"] {
                w.put(format!("{k} {t}"))?;
            }
            w.put("quote".into())?;
            w.put(format!("text {t}"))?;
            w.put("map {".into())?;
            w.put(format!("key {b}"))?;
            w.put(format!("value {b}"))?;
            w.put(format!("map }} {b}"))?;
            w.put(format!("record type {t}"))?;
            w.put("record {".into())?;
            w.put(format!("record value {t} {b}"))?;
            w.put(format!("record }} {b}"))?;
            w.put("seq [".into())?;
            w.put(format!("seq value {b}"))?;
            w.put(format!("seq ] {b}"))?;
            w.put(format!("tuple type {t}"))?;
            w.put("tuple (".into())?;
            w.put(format!("tuple value {b}"))?;
            w.put(format!("tuple ) {b}"))?;
            w.put(format!("str {t}"))
        })()
    };
    ensure!(rs == (Ok(()), Ok(())) && direct.is_ok(), "a TokenWrite behind a reference fails");
    ensure!(a == c, "a TokenWrite behind &mut is called with {a:?}, not {c:?}");
    ensure!(b == c, "a TokenWrite behind &mut &mut is called with {b:?}, not {c:?}");
    Ok(())
}

fn c11(cx: &mut Ctx) -> R {
    let c = super::core::cfg(&mut cx.src);
    let mut v = gen(&mut cx.src, &c);
    if cx.src.chance(1, 12) && matches!(v, V::Seq(..) | V::Map(..) | V::Rec(..) | V::Tup(..) | V::Rt(..) | V::Bin(..)) {
        // the NUMBER tag of a container says nothing about the texts in it
        v = V::Tagged(M { tag: Some(tags::NUMBER), ..M::default() }, Box::new(C { mode: Mode::Value, v }));
        cx.class("NUMBER-tagged container");
    }
    cx.nontrivial_if(size(&v) >= 3);
    let p = rendering(&v);
    let ok = |what: &str, t: &str| -> R {
        match match_text(&p, t) {
            Ok(()) => Ok(()),
            Err(e) => fail(format!("{what} printed {:?}: {e}", clip(t, 600))),
        }
    };
    let full = format!("{:?}", ToFmt::new(&v));
    cx.sample(|| full.clone());
    ok("ToFmt Debug", &full)?;
    let t = format!("{}", ToFmt::new_borrowed(&v));
    ensure!(t == full, "Display prints {t}, Debug prints {full}");
    let t = format!("{:?}", Via(&v));
    ensure!(t == full, "stream_to_fmt prints {t}, Debug prints {full}");
    let s = sval_fmt::stream_to_string(&v);
    ok("stream_to_string", &s)?;
    let mut w = String::new();
    ensure!(sval_fmt::stream_to_write(&mut w, &v).is_ok(), "stream_to_write failed");
    ensure!(w == s, "stream_to_write prints {w}, stream_to_string prints {s}");
    let mut k = Toks::default();
    let r = if cx.src.bool() {
        let mut m = &mut k;
        sval_fmt::stream_to_token_write(&mut m, &v)
    } else {
        sval_fmt::stream_to_token_write(&mut k, &v)
    };
    ensure!(r.is_ok(), "stream_to_token_write failed");
    ok("stream_to_token_write", &k.out)?;
    ensure!(k.toks.iter().map(|t| t.1.as_str()).collect::<String>() == k.out, "some text was not written as a token: {:?}", k.toks);
    for (tag, t) in &k.toks {
        let good = match tag.as_str() {
            "w" => t.chars().all(|c| c == ' '),
            "p" => !t.is_empty() && t.chars().all(|c| "{}[](),:".contains(c)),
            "a" => ["()", "true", "false"].contains(&t.as_str()),
            "n" => t.chars().all(|c| c.is_ascii_alphanumeric() || "+-.".contains(c)),
            "i" | "t" => true,
            _ => false,
        };
        ensure!(good, "token {t:?} has tag {tag}");
    }
    // idents are exactly the labels, text tokens exactly the quoted texts
    let mut labels = Vec::new();
    idents(&v, &mut labels);
    let got: Vec<&str> = k.toks.iter().filter(|t| t.0 == "i").map(|t| t.1.as_str()).collect();
    ensure!(got == labels.iter().map(|s| s.as_str()).collect::<Vec<_>>(), "identifier tokens {got:?}, expected {labels:?}");
    if cx.src.chance(1, 3) {
        c11_hooks(cx, &v)?;
    }
    // streaming style
    let evs = events(&v);
    let other = Play(restyle(&mut cx.src, &evs));
    let t = format!("{:?}", ToFmt::new(&other));
    ensure!(t == full, "restyled streaming prints {t}, expected {full}");
    match sval_buffer::ValueBuf::collect(&v) {
        Ok(b) => {
            let t = format!("{:?}", ToFmt::new(&b));
            ensure!(t == full, "buffer prints {t}, expected {full}");
        }
        Err(e) => return fail(format!("buffering failed: {e}")),
    }
    // faults
    if cx.src.chance(1, 2) {
        let which = cx.src.n(4);
        let want: &str = match which {
            0 => &s,
            1 => &k.out,
            _ => &full,
        };
        let left = cx.src.n(want.len() + 2);
        cx.class_if(left < want.len(), "write failure");
        // ToFmt's Debug and Display may write <error> to a writer that recovers
        let oneshot = which != 2 && cx.src.chance(1, 3);
        let mut l = Lim { out: String::new(), left, failed: false, oneshot };
        let r = match which {
            0 => sval_fmt::stream_to_write(&mut l, &v),
            1 => sval_fmt::stream_to_token_write(&mut l, &v),
            2 => write!(l, "{:?}", ToFmt::new(&v)),
            _ => write!(l, "{:?}", Via(&v)),
        };
        if left < want.len() {
            ensure!(r.is_err(), "the writer failed after {left} bytes but formatting succeeded");
            ensure!(want.starts_with(&l.out), "after a write failure {:?} had been written, not a prefix of {want:?}", l.out);
        } else {
            ensure!(r.is_ok() && l.out == want, "formatting failed without a write failure");
        }
    }
    // a value that fails
    if cx.src.chance(1, 4) && !evs.is_empty() {
        let k = cx.src.n(evs.len());
        let mut e = evs[..k].to_vec();
        e.push(Ev::Fail);
        let bad = Play(e);
        cx.class("failing value");
        let mut w = String::new();
        ensure!(sval_fmt::stream_to_write(&mut w, &bad).is_err(), "a failing value was formatted successfully");
        ensure!(sval_fmt::stream_to_token_write(&mut Toks::default(), &bad).is_err(), "a failing value was formatted successfully");
        let mut w2 = String::new();
        ensure!(write!(w2, "{:?}", Via(&bad)).is_err(), "stream_to_fmt of a failing value succeeded");
        // Debug is documented to swallow the error but has to stay usable
        let mut w3 = String::new();
        ensure!(write!(w3, "{:?}", ToFmt::new(&bad)).is_ok(), "Debug of a failing value fails");
        ensure!(w3.starts_with(&w2) && w3.len() > w2.len(), "Debug of a failing value prints {w3:?}");
    }
    Ok(())
}
fn idents(v: &V, o: &mut Vec<String>) {
    let lab = |m: &M, o: &mut Vec<String>| {
        if let Some(l) = &m.label {
            o.push(l.text.clone());
        }
    };
    match v {
        V::Tag(m) | V::Enum(m, None) => lab(m, o),
        V::Tagged(m, x) => {
            lab(m, o);
            idents(&x.v, o);
        }
        V::Rec(m, _, xs) => {
            lab(m, o);
            for (_, l, x) in xs {
                o.push(l.text.clone());
                idents(&x.v, o);
            }
        }
        V::Rt(m, _, xs) => {
            lab(m, o);
            for (_, l, _, x) in xs {
                o.push(l.text.clone());
                idents(&x.v, o);
            }
        }
        V::Tup(m, _, xs) => {
            lab(m, o);
            for (_, _, x) in xs {
                idents(&x.v, o);
            }
        }
        v => {
            for x in kids(v) {
                idents(x, o);
            }
        }
    }
}
/// the same data streamed differently: other fragments, borrowing and size hints
pub fn restyle(s: &mut Src, evs: &[Ev]) -> Vec<Ev> {
    let mut out = Vec::new();
    for e in norm_frags(evs) {
        match e {
            Ev::TextFrag(t, _) => out.extend(split_text(s, &t, true).into_iter().map(|f| Ev::TextFrag(f.data, f.borrowed))),
            Ev::BinFrag(t, _) => out.extend(split_bytes(s, &t, true).into_iter().map(|f| Ev::BinFrag(f.data, f.borrowed))),
            Ev::TextBegin(n) => out.push(Ev::TextBegin(if s.bool() { n } else { None })),
            Ev::BinBegin(n) => out.push(Ev::BinBegin(if s.bool() { n } else { None })),
            Ev::SeqBegin(n) => out.push(Ev::SeqBegin(if s.bool() { n } else { None })),
            Ev::MapBegin(n) => out.push(Ev::MapBegin(if s.bool() { n } else { None })),
            e => out.push(e),
        }
    }
    out
}

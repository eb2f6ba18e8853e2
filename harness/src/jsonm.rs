//! JSON oracle: the JSON image of a model value, and a strict RFC 8259 parser.
use crate::ev::*;
use crate::val::*;
use sval::tags;

#[derive(Clone, Debug, PartialEq)]
pub enum N {
    Int(String),
    F64(u64),
    F32(u32),
    Dec(String),
}
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(N),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(J, J)>),
}

pub fn wrap(m: &M, j: J) -> J {
    if let Some(l) = &m.label {
        J::Obj(vec![(J::Str(l.text.clone()), j)])
    } else if let Some(i) = m.index.as_ref().filter(|i| i64::try_from(i.v).is_ok()) {
        J::Obj(vec![(J::Str(i.v.to_string()), j)])
    } else {
        j
    }
}
fn tag_img(m: &M) -> J {
    if m.tag == Some(tags::RUST_OPTION_NONE) {
        J::Null
    } else if let Some(l) = &m.label {
        J::Str(l.text.clone())
    } else if let Some(i) = m.index.as_ref().filter(|i| i64::try_from(i.v).is_ok()) {
        J::Num(N::Int(i.v.to_string()))
    } else {
        J::Null
    }
}
#[derive(Debug)]
pub struct KeyErr;

pub fn image(v: &V) -> Result<J, KeyErr> {
    img(v, false)
}
fn img(v: &V, key: bool) -> Result<J, KeyErr> {
    Ok(match v {
        V::Null => J::Null,
        V::Bool(b) => J::Bool(*b),
        V::Num(n) => J::Num(N::Int(n.text())),
        V::F32(x) if x.is_finite() => J::Num(N::F32(x.to_bits())),
        V::F64(x) if x.is_finite() => J::Num(N::F64(x.to_bits())),
        V::F32(_) | V::F64(_) => J::Null,
        V::Text(_, fs) => J::Str(text_of(fs)),
        V::Bin(_, fs) => J::Arr(bytes_of(fs).iter().map(|b| J::Num(N::Int(b.to_string()))).collect()),
        V::Seq(_, xs) => J::Arr(xs.iter().map(|x| image(&x.v)).collect::<Result<_, _>>()?),
        V::Map(_, xs) => J::Obj(
            xs.iter()
                .map(|(k, v)| {
                    let k = img(&k.v, true)?;
                    let k = match k {
                        J::Arr(_) | J::Obj(_) => return Err(KeyErr),
                        J::Null => J::Str("null".into()),
                        J::Bool(b) => J::Str(b.to_string()),
                        J::Num(N::Int(s)) => J::Str(s),
                        k => k,
                    };
                    Ok((k, image(&v.v)?))
                })
                .collect::<Result<_, _>>()?,
        ),
        V::Tag(m) => tag_img(m),
        V::Tagged(m, x) => match (&m.tag, peel(&x.v)) {
            (Some(t), V::Text(_, fs)) if *t == tags::NUMBER || *t == T_JSON_NUMBER => J::Num(N::Dec(text_of(fs))),
            (Some(t), V::Text(_, fs)) if *t == T_JSON_TEXT => match parse(&format!("\"{}\"", text_of(fs))) {
                Ok(P::Str(s)) => J::Str(s),
                e => panic!("generator: JSON_TEXT {e:?}"),
            },
            (Some(t), V::Text(_, fs)) if *t == T_JSON_VALUE && !key => parse(&text_of(fs)).expect("generator: JSON_VALUE").to_j(),
            _ => img(&x.v, key)?,
        },
        V::Rec(_, _, xs) => J::Obj(xs.iter().map(|(_, l, x)| Ok((J::Str(l.text.clone()), image(&x.v)?))).collect::<Result<_, _>>()?),
        V::Rt(_, _, xs) => J::Obj(xs.iter().map(|(_, l, _, x)| Ok((J::Str(l.text.clone()), image(&x.v)?))).collect::<Result<_, _>>()?),
        V::Tup(_, _, xs) => J::Arr(xs.iter().map(|(_, _, x)| image(&x.v)).collect::<Result<_, _>>()?),
        V::Enum(m, None) => tag_img(m),
        V::Enum(_, Some(x)) => variant(&x.v, key)?,
        V::Hinted(_, x) => img(&x.v, key)?,
    })
}
pub fn peel(v: &V) -> &V {
    match v {
        V::Hinted(_, x) => peel(&x.v),
        v => v,
    }
}
fn variant(v: &V, key: bool) -> Result<J, KeyErr> {
    Ok(match v {
        V::Hinted(_, x) => variant(&x.v, key)?,
        V::Tag(m) => tag_img(m),
        V::Tagged(m, _) | V::Rec(m, _, _) | V::Tup(m, _, _) | V::Rt(m, _, _) | V::Enum(m, _) => {
            // an embedded value is only embedded as a key if the key is not wrapped
            wrap(m, img(v, key)?)
        }
        v => img(v, key)?,
    })
}

/// parsed JSON; numbers keep their lexeme
#[derive(Clone, Debug, PartialEq)]
pub enum P {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<P>),
    Obj(Vec<(String, P)>),
}
impl P {
    pub fn to_j(&self) -> J {
        match self {
            P::Null => J::Null,
            P::Bool(b) => J::Bool(*b),
            P::Num(s) => J::Num(N::Dec(s.clone())),
            P::Str(s) => J::Str(s.clone()),
            P::Arr(x) => J::Arr(x.iter().map(P::to_j).collect()),
            P::Obj(x) => J::Obj(x.iter().map(|(k, v)| (J::Str(k.clone()), v.to_j())).collect()),
        }
    }
}

struct Ps<'a> {
    b: &'a [u8],
    s: &'a str,
    i: usize,
}
pub fn parse(s: &str) -> Result<P, String> {
    let mut p = Ps { b: s.as_bytes(), s, i: 0 };
    p.ws();
    let v = p.value(0)?;
    p.ws();
    if p.i != p.b.len() {
        return Err(format!("trailing data at byte {}", p.i));
    }
    Ok(v)
}
impl<'a> Ps<'a> {
    fn ws(&mut self) {
        while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\t' | b'\n' | b'\r') {
            self.i += 1;
        }
    }
    fn err<T>(&self, m: &str) -> Result<T, String> {
        Err(format!("{m} at byte {}", self.i))
    }
    fn lit(&mut self, t: &str, v: P) -> Result<P, String> {
        if self.s[self.i..].starts_with(t) {
            self.i += t.len();
            Ok(v)
        } else {
            self.err("bad literal")
        }
    }
    fn value(&mut self, d: usize) -> Result<P, String> {
        if d > 4000 {
            return self.err("too deep");
        }
        match self.b.get(self.i) {
            None => self.err("unexpected end"),
            Some(b'n') => self.lit("null", P::Null),
            Some(b't') => self.lit("true", P::Bool(true)),
            Some(b'f') => self.lit("false", P::Bool(false)),
            Some(b'"') => Ok(P::Str(self.string()?)),
            Some(b'[') => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.b.get(self.i) == Some(&b']') {
                    self.i += 1;
                    return Ok(P::Arr(v));
                }
                loop {
                    self.ws();
                    v.push(self.value(d + 1)?);
                    self.ws();
                    match self.b.get(self.i) {
                        Some(b',') => self.i += 1,
                        Some(b']') => {
                            self.i += 1;
                            return Ok(P::Arr(v));
                        }
                        _ => return self.err("expected , or ]"),
                    }
                }
            }
            Some(b'{') => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.b.get(self.i) == Some(&b'}') {
                    self.i += 1;
                    return Ok(P::Obj(v));
                }
                loop {
                    self.ws();
                    if self.b.get(self.i) != Some(&b'"') {
                        return self.err("expected a key");
                    }
                    let k = self.string()?;
                    self.ws();
                    if self.b.get(self.i) != Some(&b':') {
                        return self.err("expected :");
                    }
                    self.i += 1;
                    self.ws();
                    let x = self.value(d + 1)?;
                    v.push((k, x));
                    self.ws();
                    match self.b.get(self.i) {
                        Some(b',') => self.i += 1,
                        Some(b'}') => {
                            self.i += 1;
                            return Ok(P::Obj(v));
                        }
                        _ => return self.err("expected , or }"),
                    }
                }
            }
            Some(b'-' | b'0'..=b'9') => self.number(),
            _ => self.err("unexpected character"),
        }
    }
    fn number(&mut self) -> Result<P, String> {
        let st = self.i;
        let dig = |s: &mut Self| {
            let a = s.i;
            while s.i < s.b.len() && s.b[s.i].is_ascii_digit() {
                s.i += 1;
            }
            s.i - a
        };
        if self.b[self.i] == b'-' {
            self.i += 1;
        }
        match self.b.get(self.i) {
            Some(b'0') => self.i += 1,
            Some(b'1'..=b'9') => {
                dig(self);
            }
            _ => return self.err("bad number"),
        }
        if self.b.get(self.i) == Some(&b'.') {
            self.i += 1;
            if dig(self) == 0 {
                return self.err("bad fraction");
            }
        }
        if matches!(self.b.get(self.i), Some(b'e' | b'E')) {
            self.i += 1;
            if matches!(self.b.get(self.i), Some(b'+' | b'-')) {
                self.i += 1;
            }
            if dig(self) == 0 {
                return self.err("bad exponent");
            }
        }
        Ok(P::Num(self.s[st..self.i].to_string()))
    }
    fn hex4(&mut self) -> Result<u32, String> {
        if self.i + 4 > self.b.len() {
            return self.err("short \\u");
        }
        let mut v = 0u32;
        for _ in 0..4 {
            let d = (self.b[self.i] as char).to_digit(16).ok_or("bad hex")?;
            v = v * 16 + d;
            self.i += 1;
        }
        Ok(v)
    }
    fn string(&mut self) -> Result<String, String> {
        self.i += 1;
        let mut out = String::new();
        loop {
            let c = match self.s[self.i..].chars().next() {
                None => return self.err("unterminated string"),
                Some(c) => c,
            };
            match c {
                '"' => {
                    self.i += 1;
                    return Ok(out);
                }
                '\\' => {
                    self.i += 1;
                    let e = match self.b.get(self.i) {
                        None => return self.err("unterminated escape"),
                        Some(e) => *e,
                    };
                    self.i += 1;
                    match e {
                        b'"' => out.push('"'),
                        b'\\' => out.push('\\'),
                        b'/' => out.push('/'),
                        b'b' => out.push('\u{8}'),
                        b'f' => out.push('\u{c}'),
                        b'n' => out.push('\n'),
                        b'r' => out.push('\r'),
                        b't' => out.push('\t'),
                        b'u' => {
                            let a = self.hex4()?;
                            if (0xd800..0xdc00).contains(&a) {
                                if !self.s[self.i..].starts_with("\\u") {
                                    return self.err("lone surrogate");
                                }
                                self.i += 2;
                                let b = self.hex4()?;
                                if !(0xdc00..0xe000).contains(&b) {
                                    return self.err("bad surrogate");
                                }
                                out.push(char::from_u32(0x10000 + ((a - 0xd800) << 10) + (b - 0xdc00)).unwrap());
                            } else {
                                match char::from_u32(a) {
                                    Some(c) => out.push(c),
                                    None => return self.err("lone surrogate"),
                                }
                            }
                        }
                        _ => return self.err("bad escape"),
                    }
                }
                c if (c as u32) < 0x20 => return self.err("raw control character"),
                c => {
                    out.push(c);
                    self.i += c.len_utf8();
                }
            }
        }
    }
}

/// sign, digits without leading/trailing zeroes, exponent of the last digit; zero is (false, "", 0)
pub fn dec(s: &str) -> Option<(bool, String, i64)> {
    let (neg, r) = match s.as_bytes().first()? {
        b'-' => (true, &s[1..]),
        b'+' => (false, &s[1..]),
        _ => (false, s),
    };
    let (mant, exp) = match r.find(['e', 'E']) {
        Some(i) => (&r[..i], r[i + 1..].parse::<i64>().ok()?),
        None => (r, 0),
    };
    let (i, f) = match mant.find('.') {
        Some(p) => (&mant[..p], &mant[p + 1..]),
        None => (mant, ""),
    };
    if i.is_empty() && f.is_empty() || !i.bytes().chain(f.bytes()).all(|b| b.is_ascii_digit()) {
        return None;
    }
    let mut digits: String = format!("{i}{f}");
    let mut e = exp - f.len() as i64;
    while digits.ends_with('0') {
        digits.pop();
        e += 1;
    }
    let digits = digits.trim_start_matches('0').to_string();
    if digits.is_empty() {
        return Some((false, digits, 0));
    }
    Some((neg, digits, e))
}

fn num_matches(n: &N, lex: &str) -> bool {
    match n {
        N::Int(s) => s == lex,
        N::F64(b) => lex.parse::<f64>().map(|x| x.to_bits() == *b).unwrap_or(false),
        N::F32(b) => lex.parse::<f32>().map(|x| x.to_bits() == *b).unwrap_or(false),
        N::Dec(s) => dec(s).is_some() && dec(s) == dec(lex),
    }
}
pub fn matches(e: &J, g: &P) -> Result<(), String> {
    match (e, g) {
        (J::Null, P::Null) => Ok(()),
        (J::Bool(a), P::Bool(b)) if a == b => Ok(()),
        (J::Str(a), P::Str(b)) if a == b => Ok(()),
        (J::Num(n), P::Num(l)) if num_matches(n, l) => Ok(()),
        (J::Arr(a), P::Arr(b)) if a.len() == b.len() => a.iter().zip(b).try_for_each(|(a, b)| matches(a, b)),
        (J::Obj(a), P::Obj(b)) if a.len() == b.len() => a.iter().zip(b).try_for_each(|((ka, va), (kb, vb))| {
            match ka {
                J::Str(k) if k == kb => {}
                J::Num(n) if num_matches(n, kb) => {}
                k => return Err(format!("key: expected {k:?} got {kb:?}")),
            }
            matches(va, vb)
        }),
        _ => Err(format!("expected {} got {}", crate::engine::clip(&format!("{e:?}"), 300), crate::engine::clip(&format!("{g:?}"), 300))),
    }
}

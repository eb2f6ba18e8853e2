//! The reference rendering of sval_fmt: text with float tokens compared by value.
use crate::engine::clip;
use crate::ev::*;
use crate::val::*;
use sval::tags;

#[derive(Clone, Debug, PartialEq)]
pub enum P {
    S(String),
    F64(u64),
    F32(u32),
}
struct Rd(Vec<P>);
impl Rd {
    fn s(&mut self, t: &str) {
        if let Some(P::S(x)) = self.0.last_mut() {
            x.push_str(t);
        } else {
            self.0.push(P::S(t.into()));
        }
    }
    /// the reference rendering
    fn v(&mut self, v: &V, num: bool) {
        match v {
            V::Null => self.s("()"),
            V::Bool(b) => self.s(if *b { "true" } else { "false" }),
            V::Num(n) => self.s(&n.text()),
            V::F32(x) => self.0.push(P::F32(x.to_bits())),
            V::F64(x) => self.0.push(P::F64(x.to_bits())),
            V::Text(_, fs) => {
                if num {
                    self.s(&text_of(fs));
                } else {
                    let t: String = text_of(fs).chars().flat_map(|c| c.escape_debug()).collect();
                    self.s(&format!("\"{t}\""));
                }
            }
            V::Bin(_, fs) => {
                let b: Vec<String> = bytes_of(fs).iter().map(|b| b.to_string()).collect();
                self.s(&format!("[{}]", b.join(", ")));
            }
            V::Seq(_, xs) => {
                self.s("[");
                for (i, x) in xs.iter().enumerate() {
                    if i > 0 {
                        self.s(", ");
                    }
                    self.v(&x.v, false);
                }
                self.s("]");
            }
            V::Map(_, xs) => {
                self.s("{");
                for (i, (k, x)) in xs.iter().enumerate() {
                    self.s(if i > 0 { ", " } else { " " });
                    self.v(&k.v, false);
                    self.s(": ");
                    self.v(&x.v, false);
                }
                self.s(if xs.is_empty() { "}" } else { " }" });
            }
            V::Tag(m) => self.tag(m),
            V::Tagged(m, x) => {
                let num = num || m.tag == Some(tags::NUMBER);
                if let Some(l) = &m.label {
                    self.s(&l.text);
                    self.s("(");
                }
                self.v(&x.v, num);
                if m.label.is_some() {
                    self.s(")");
                }
            }
            V::Rec(m, _, xs) => self.rec(m, xs.iter().map(|(_, l, x)| (l, x)).collect()),
            V::Rt(m, _, xs) => self.rec(m, xs.iter().map(|(_, l, _, x)| (l, x)).collect()),
            V::Tup(m, _, xs) => {
                if let Some(l) = &m.label {
                    self.s(&l.text);
                }
                self.s("(");
                for (i, (_, _, x)) in xs.iter().enumerate() {
                    if i > 0 {
                        self.s(", ");
                    }
                    self.v(&x.v, false);
                }
                self.s(")");
            }
            V::Enum(m, None) => self.tag(m),
            V::Enum(_, Some(x)) => self.v(&x.v, num),
            V::Hinted(_, x) => self.v(&x.v, num),
        }
    }
    fn tag(&mut self, m: &M) {
        match &m.label {
            Some(l) => self.s(&l.text),
            None => self.s("()"),
        }
    }
    fn rec(&mut self, m: &M, xs: Vec<(&Lb, &C)>) {
        if let Some(l) = &m.label {
            self.s(&l.text);
            self.s(" ");
        }
        self.s("{");
        for (i, (l, x)) in xs.iter().enumerate() {
            self.s(if i > 0 { ", " } else { " " });
            self.s(&l.text);
            self.s(": ");
            self.v(&x.v, false);
        }
        self.s(if xs.is_empty() { "}" } else { " }" });
    }
}
/// `Ok` if the text is the rendering, floats compared by value
pub fn match_text(p: &[P], t: &str) -> Result<(), String> {
    let mut rest = t;
    for x in p {
        match x {
            P::S(s) => match rest.strip_prefix(s.as_str()) {
                Some(r) => rest = r,
                None => return Err(format!("expected {:?} at {:?}", clip(s, 200), clip(rest, 200))),
            },
            P::F64(_) | P::F32(_) => {
                let n = rest.find(|c: char| !(c.is_ascii_alphanumeric() || "+-.".contains(c))).unwrap_or(rest.len());
                let (f, r) = rest.split_at(n);
                rest = r;
                let ok = match x {
                    P::F64(b) => {
                        let e = f64::from_bits(*b);
                        f.parse::<f64>().map_or(false, |g| g.to_bits() == *b || (g.is_nan() && e.is_nan()))
                    }
                    P::F32(b) => {
                        let e = f32::from_bits(*b);
                        f.parse::<f32>().map_or(false, |g| g.to_bits() == *b || (g.is_nan() && e.is_nan()))
                    }
                    _ => unreachable!(),
                };
                if !ok {
                    return Err(format!("expected float {x:?}, got {f:?}"));
                }
            }
        }
    }
    if rest.is_empty() {
        Ok(())
    } else {
        Err(format!("extra text {:?}", clip(rest, 200)))
    }
}
pub fn rendering(v: &V) -> Vec<P> {
    let mut r = Rd(Vec::new());
    r.v(v, false);
    r.0
}

//! C05, C16: sval and serde views of the same data.
use crate::checks::core::cfg;
use crate::checks::nested::norm;
use crate::dual::*;
use crate::engine::*;
use crate::ensure;
use crate::ev::*;
use crate::val::*;
use serde::ser::{self, Serialize, Serializer};
use std::cell::Cell;
use std::fmt;
use std::rc::Rc;
use sval::{tags, Tag};
use sval_serde::{ToSerialize, ToValue};

/// serde's data model
#[derive(Clone, Debug)]
pub enum S {
    Bool(bool),
    Num(Num),
    F32(f32),
    F64(f64),
    Char(char),
    Str(String),
    /// through collect_str
    Disp(String),
    Bytes(Vec<u8>),
    None,
    Some(Box<S>),
    Unit,
    UnitStruct(&'static str),
    UnitVariant(&'static str, u32, &'static str),
    Newtype(&'static str, Box<S>),
    NewtypeVariant(&'static str, u32, &'static str, Box<S>),
    Seq(Option<usize>, Vec<S>),
    Tuple(usize, Vec<S>),
    TupleStruct(&'static str, usize, Vec<S>),
    TupleVariant(&'static str, u32, &'static str, usize, Vec<S>),
    Map(Option<usize>, Vec<(S, S)>),
    Struct(&'static str, usize, Vec<(&'static str, S)>),
    StructVariant(&'static str, u32, &'static str, usize, Vec<(&'static str, S)>),
    /// fails
    Fail,
}
fn same(a: &S, b: &S) -> bool {
    // Debug text tells everything apart except NaN payloads, and -0.0 from 0.0 it does
    format!("{a:?}") == format!("{b:?}")
}
impl Serialize for S {
    fn serialize<X: Serializer>(&self, x: X) -> Result<X::Ok, X::Error> {
        use ser::{SerializeMap as _, SerializeSeq as _, SerializeStruct as _, SerializeStructVariant as _, SerializeTuple as _, SerializeTupleStruct as _, SerializeTupleVariant as _};
        match self {
            S::Bool(b) => x.serialize_bool(*b),
            S::Num(n) => match *n {
                Num::I8(n) => x.serialize_i8(n),
                Num::I16(n) => x.serialize_i16(n),
                Num::I32(n) => x.serialize_i32(n),
                Num::I64(n) => x.serialize_i64(n),
                Num::I128(n) => x.serialize_i128(n),
                Num::U8(n) => x.serialize_u8(n),
                Num::U16(n) => x.serialize_u16(n),
                Num::U32(n) => x.serialize_u32(n),
                Num::U64(n) => x.serialize_u64(n),
                Num::U128(n) => x.serialize_u128(n),
            },
            S::F32(n) => x.serialize_f32(*n),
            S::F64(n) => x.serialize_f64(*n),
            S::Char(c) => x.serialize_char(*c),
            S::Str(s) => x.serialize_str(s),
            S::Disp(s) => x.collect_str(&Chop(s)),
            S::Bytes(b) => x.serialize_bytes(b),
            S::None => x.serialize_none(),
            S::Some(v) => x.serialize_some(&**v),
            S::Unit => x.serialize_unit(),
            S::UnitStruct(n) => x.serialize_unit_struct(n),
            S::UnitVariant(n, i, v) => x.serialize_unit_variant(n, *i, v),
            S::Newtype(n, v) => x.serialize_newtype_struct(n, &**v),
            S::NewtypeVariant(n, i, l, v) => x.serialize_newtype_variant(n, *i, l, &**v),
            S::Seq(n, xs) => {
                let mut s = x.serialize_seq(*n)?;
                for v in xs {
                    s.serialize_element(v)?;
                }
                s.end()
            }
            S::Tuple(n, xs) => {
                let mut s = x.serialize_tuple(*n)?;
                for v in xs {
                    s.serialize_element(v)?;
                }
                s.end()
            }
            S::TupleStruct(l, n, xs) => {
                let mut s = x.serialize_tuple_struct(l, *n)?;
                for v in xs {
                    s.serialize_field(v)?;
                }
                s.end()
            }
            S::TupleVariant(l, i, v, n, xs) => {
                let mut s = x.serialize_tuple_variant(l, *i, v, *n)?;
                for v in xs {
                    s.serialize_field(v)?;
                }
                s.end()
            }
            S::Map(n, xs) => {
                let mut s = x.serialize_map(*n)?;
                for (i, (k, v)) in xs.iter().enumerate() {
                    if i % 2 == 0 {
                        s.serialize_entry(k, v)?;
                    } else {
                        s.serialize_key(k)?;
                        s.serialize_value(v)?;
                    }
                }
                s.end()
            }
            S::Struct(l, n, xs) => {
                let mut s = x.serialize_struct(l, *n)?;
                for (k, v) in xs {
                    s.serialize_field(k, v)?;
                }
                s.end()
            }
            S::StructVariant(l, i, v, n, xs) => {
                let mut s = x.serialize_struct_variant(l, *i, v, *n)?;
                for (k, v) in xs {
                    s.serialize_field(k, v)?;
                }
                s.end()
            }
            S::Fail => Err(ser::Error::custom("injected")),
        }
    }
}
/// displays in several pieces
struct Chop<'a>(&'a str);
impl fmt::Display for Chop<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        for c in self.0.chars() {
            write!(f, "{c}")?;
        }
        Ok(())
    }
}

/// records serde calls as `S`, failing at the k-th
#[derive(Default)]
pub struct Faults {
    fail_at: Option<usize>,
    calls: Cell<usize>,
    failed: Cell<bool>,
    after: Cell<usize>,
}
#[derive(Debug)]
pub struct E(String);
impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: fmt::Display>(m: T) -> E {
        E(m.to_string())
    }
}
#[derive(Clone)]
pub struct SerRec(Rc<Faults>);
pub struct Parts {
    cx: SerRec,
    out: S,
    key: Option<S>,
}
impl SerRec {
    fn new(fail_at: Option<usize>) -> SerRec {
        SerRec(Rc::new(Faults { fail_at, ..Default::default() }))
    }
    fn tick(&self) -> Result<(), E> {
        let f = &self.0;
        if f.failed.get() {
            f.after.set(f.after.get() + 1);
        }
        let n = f.calls.get();
        f.calls.set(n + 1);
        if f.fail_at == Some(n) {
            f.failed.set(true);
            return Err(E("injected".into()));
        }
        Ok(())
    }
    fn ok(&self, s: S) -> Result<S, E> {
        self.tick()?;
        Ok(s)
    }
    fn part(self, out: S) -> Result<Parts, E> {
        self.tick()?;
        Ok(Parts { cx: self, out, key: None })
    }
}
pub fn serde_calls<T: Serialize + ?Sized>(v: &T) -> Result<S, E> {
    v.serialize(SerRec::new(None))
}
macro_rules! nums {
    ($($f:ident $t:ty, $v:ident;)*) => { $(fn $f(self, v: $t) -> Result<S, E> { self.ok(S::Num(Num::$v(v))) })* };
}
impl Serializer for SerRec {
    type Ok = S;
    type Error = E;
    type SerializeSeq = Parts;
    type SerializeTuple = Parts;
    type SerializeTupleStruct = Parts;
    type SerializeTupleVariant = Parts;
    type SerializeMap = Parts;
    type SerializeStruct = Parts;
    type SerializeStructVariant = Parts;
    nums! {
        serialize_i8 i8, I8; serialize_i16 i16, I16; serialize_i32 i32, I32; serialize_i64 i64, I64; serialize_i128 i128, I128;
        serialize_u8 u8, U8; serialize_u16 u16, U16; serialize_u32 u32, U32; serialize_u64 u64, U64; serialize_u128 u128, U128;
    }
    fn serialize_bool(self, v: bool) -> Result<S, E> {
        self.ok(S::Bool(v))
    }
    fn serialize_f32(self, v: f32) -> Result<S, E> {
        self.ok(S::F32(v))
    }
    fn serialize_f64(self, v: f64) -> Result<S, E> {
        self.ok(S::F64(v))
    }
    fn serialize_char(self, v: char) -> Result<S, E> {
        self.ok(S::Char(v))
    }
    fn serialize_str(self, v: &str) -> Result<S, E> {
        self.ok(S::Str(v.into()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<S, E> {
        self.ok(S::Bytes(v.into()))
    }
    fn serialize_none(self) -> Result<S, E> {
        self.ok(S::None)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<S, E> {
        self.tick()?;
        Ok(S::Some(Box::new(v.serialize(self)?)))
    }
    fn serialize_unit(self) -> Result<S, E> {
        self.ok(S::Unit)
    }
    fn serialize_unit_struct(self, n: &'static str) -> Result<S, E> {
        self.ok(S::UnitStruct(n))
    }
    fn serialize_unit_variant(self, n: &'static str, i: u32, v: &'static str) -> Result<S, E> {
        self.ok(S::UnitVariant(n, i, v))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, n: &'static str, v: &T) -> Result<S, E> {
        self.tick()?;
        Ok(S::Newtype(n, Box::new(v.serialize(self)?)))
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, n: &'static str, i: u32, l: &'static str, v: &T) -> Result<S, E> {
        self.tick()?;
        Ok(S::NewtypeVariant(n, i, l, Box::new(v.serialize(self)?)))
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Parts, E> {
        self.part(S::Seq(n, vec![]))
    }
    fn serialize_tuple(self, n: usize) -> Result<Parts, E> {
        self.part(S::Tuple(n, vec![]))
    }
    fn serialize_tuple_struct(self, l: &'static str, n: usize) -> Result<Parts, E> {
        self.part(S::TupleStruct(l, n, vec![]))
    }
    fn serialize_tuple_variant(self, l: &'static str, i: u32, v: &'static str, n: usize) -> Result<Parts, E> {
        self.part(S::TupleVariant(l, i, v, n, vec![]))
    }
    fn serialize_map(self, n: Option<usize>) -> Result<Parts, E> {
        self.part(S::Map(n, vec![]))
    }
    fn serialize_struct(self, l: &'static str, n: usize) -> Result<Parts, E> {
        self.part(S::Struct(l, n, vec![]))
    }
    fn serialize_struct_variant(self, l: &'static str, i: u32, v: &'static str, n: usize) -> Result<Parts, E> {
        self.part(S::StructVariant(l, i, v, n, vec![]))
    }
}
impl Parts {
    fn elem<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        self.cx.tick()?;
        let v = v.serialize(self.cx.clone())?;
        match &mut self.out {
            S::Seq(_, xs) | S::Tuple(_, xs) | S::TupleStruct(_, _, xs) | S::TupleVariant(_, _, _, _, xs) => xs.push(v),
            _ => unreachable!(),
        }
        Ok(())
    }
    fn field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), E> {
        self.cx.tick()?;
        let v = v.serialize(self.cx.clone())?;
        match &mut self.out {
            S::Struct(_, _, xs) | S::StructVariant(_, _, _, _, xs) => xs.push((k, v)),
            _ => unreachable!(),
        }
        Ok(())
    }
    fn done(self) -> Result<S, E> {
        self.cx.tick()?;
        if self.key.is_some() {
            return Err(E("a map key without a value".into()));
        }
        Ok(self.out)
    }
}
impl ser::SerializeSeq for Parts {
    type Ok = S;
    type Error = E;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        self.elem(v)
    }
    fn end(self) -> Result<S, E> {
        self.done()
    }
}
impl ser::SerializeTuple for Parts {
    type Ok = S;
    type Error = E;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        self.elem(v)
    }
    fn end(self) -> Result<S, E> {
        self.done()
    }
}
impl ser::SerializeTupleStruct for Parts {
    type Ok = S;
    type Error = E;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        self.elem(v)
    }
    fn end(self) -> Result<S, E> {
        self.done()
    }
}
impl ser::SerializeTupleVariant for Parts {
    type Ok = S;
    type Error = E;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        self.elem(v)
    }
    fn end(self) -> Result<S, E> {
        self.done()
    }
}
impl ser::SerializeMap for Parts {
    type Ok = S;
    type Error = E;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        self.cx.tick()?;
        if self.key.is_some() {
            return Err(E("two map keys in a row".into()));
        }
        self.key = Some(v.serialize(self.cx.clone())?);
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        self.cx.tick()?;
        let v = v.serialize(self.cx.clone())?;
        let Some(k) = self.key.take() else { return Err(E("a map value without a key".into())) };
        match &mut self.out {
            S::Map(_, xs) => xs.push((k, v)),
            _ => unreachable!(),
        }
        Ok(())
    }
    fn end(self) -> Result<S, E> {
        self.done()
    }
}
impl ser::SerializeStruct for Parts {
    type Ok = S;
    type Error = E;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), E> {
        self.field(k, v)
    }
    fn end(self) -> Result<S, E> {
        self.done()
    }
}
impl ser::SerializeStructVariant for Parts {
    type Ok = S;
    type Error = E;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), E> {
        self.field(k, v)
    }
    fn end(self) -> Result<S, E> {
        self.done()
    }
}

fn smap(s: &S, f: &dyn Fn(S) -> S) -> S {
    let v = |xs: &Vec<S>| xs.iter().map(|x| smap(x, f)).collect();
    let b = |x: &S| Box::new(smap(x, f));
    let fs = |xs: &Vec<(&'static str, S)>| xs.iter().map(|(k, x)| (*k, smap(x, f))).collect();
    f(match s {
        S::Some(x) => S::Some(b(x)),
        S::Newtype(n, x) => S::Newtype(n, b(x)),
        S::NewtypeVariant(n, i, l, x) => S::NewtypeVariant(n, *i, l, b(x)),
        S::Seq(n, xs) => S::Seq(*n, v(xs)),
        S::Tuple(n, xs) => S::Tuple(*n, v(xs)),
        S::TupleStruct(l, n, xs) => S::TupleStruct(l, *n, v(xs)),
        S::TupleVariant(l, i, w, n, xs) => S::TupleVariant(l, *i, w, *n, v(xs)),
        S::Map(n, xs) => S::Map(*n, xs.iter().map(|(k, x)| (smap(k, f), smap(x, f))).collect()),
        S::Struct(l, n, xs) => S::Struct(l, *n, fs(xs)),
        S::StructVariant(l, i, w, n, xs) => S::StructVariant(l, *i, w, *n, fs(xs)),
        s => s.clone(),
    })
}
/// sval has no char type
fn no_char(s: &S) -> S {
    smap(s, &|s| match s {
        S::Char(c) => S::Str(c.into()),
        S::Disp(t) => S::Str(t),
        s => s,
    })
}
/// serde has no fixed-size sequence other than the tuple
fn no_tuple(s: &S) -> S {
    smap(s, &|s| match s {
        S::Tuple(n, xs) => S::Seq(Some(n), xs),
        s => s,
    })
}
fn ssize(s: &S) -> usize {
    let n = Cell::new(0);
    smap(s, &|s| {
        n.set(n.get() + 1);
        s
    });
    n.get()
}

const NAMES: &[&str] = &["Point", "A", "Option", "Some", "None", "a b", "", "日本", "type", "x\"y"];
struct SG<'a> {
    s: &'a mut Src,
    left: usize,
    fails: bool,
}
impl SG<'_> {
    fn nm(&mut self) -> &'static str {
        self.s.pick(NAMES)
    }
    fn ix(&mut self) -> u32 {
        *self.s.pick(&[0u32, 1, 2, 3, 255, 256, 65535, i32::MAX as u32, 1 << 31, u32::MAX])
    }
    fn kids(&mut self, d: usize) -> Vec<S> {
        let n = self.s.n(4);
        let mut xs: Vec<S> = (0..n).map(|_| self.any(d)).collect();
        if let Some(w) = self.wide() {
            xs.extend((xs.len()..w).map(|i| S::Num(Num::I32(i as i32))));
        }
        xs
    }
    /// rarely a container with many entries
    fn wide(&mut self) -> Option<usize> {
        if self.left == 0 || !self.s.chance(1, 50) {
            return None;
        }
        let w = if self.s.chance(1, 12) && !std::mem::replace(&mut self.s.huge, true) { *self.s.pick(&[255usize, 256, 257, 300, 1025]) } else { *self.s.pick(&[8usize, 9, 12, 13, 16, 17, 20, 32, 33, 65]) };
        self.left = self.left.saturating_sub(10);
        Some(w)
    }
    fn fields(&mut self, d: usize) -> Vec<(&'static str, S)> {
        let n = self.s.n(4);
        let mut xs: Vec<_> = (0..n).map(|_| (self.nm(), self.any(d))).collect();
        if let Some(w) = self.wide() {
            xs.extend((xs.len()..w).map(|i| (NAMES[i % NAMES.len()], S::Num(Num::I32(i as i32)))));
        }
        xs
    }
    fn leaf(&mut self) -> S {
        if self.fails && self.s.chance(1, 8) {
            return S::Fail;
        }
        match self.s.n(14) {
            0 => S::Unit,
            1 => S::Bool(self.s.bool()),
            2 | 3 => S::Num(gen_int(self.s)),
            4 => S::F32(gen_f32(self.s)),
            5 => S::F64(gen_f64(self.s)),
            6 => S::Char(gen_char(self.s)),
            7 | 8 => S::Str(gen_text(self.s, 12)),
            9 => S::Disp(gen_text(self.s, 12)),
            10 => S::Bytes(gen_bytes(self.s, 12)),
            11 => S::None,
            12 => S::UnitStruct(self.nm()),
            _ => S::UnitVariant(self.nm(), self.ix(), self.nm()),
        }
    }
    fn any(&mut self, d: usize) -> S {
        if d == 0 || self.left == 0 {
            return self.leaf();
        }
        self.left -= 1;
        let d = d - 1;
        match self.s.n(12) {
            0 => self.leaf(),
            1 => S::Some(Box::new(self.any(d))),
            2 => S::Newtype(self.nm(), Box::new(self.any(d))),
            3 => S::NewtypeVariant(self.nm(), self.ix(), self.nm(), Box::new(self.any(d))),
            4 | 5 => {
                let k = self.kids(d);
                S::Seq(if self.s.bool() { Some(k.len()) } else { None }, k)
            }
            6 => {
                let k = self.kids(d);
                S::Tuple(k.len(), k)
            }
            7 => {
                let k = self.kids(d);
                S::TupleStruct(self.nm(), k.len(), k)
            }
            8 => {
                let k = self.kids(d);
                S::TupleVariant(self.nm(), self.ix(), self.nm(), k.len(), k)
            }
            9 => {
                let n = self.s.n(4);
                let mut k: Vec<_> = (0..n).map(|_| (self.any(d), self.any(d))).collect();
                if let Some(w) = self.wide() {
                    k.extend((k.len()..w).map(|i| (S::Str(format!("k{i}")), S::Num(Num::I32(i as i32)))));
                }
                S::Map(if self.s.bool() { Some(k.len()) } else { None }, k)
            }
            10 => {
                let k = self.fields(d);
                S::Struct(self.nm(), k.len(), k)
            }
            _ => {
                let k = self.fields(d);
                S::StructVariant(self.nm(), self.ix(), self.nm(), k.len(), k)
            }
        }
    }
}

/// the sval calls a serde value stands for
fn s_events(s: &S, o: &mut Vec<Ev>) {
    let lab = |l: &'static str| M { tag: None, label: Some(Lb::stat(l)), index: None };
    let var = |l: &'static str, i: u32| M { tag: None, label: Some(Lb::stat(l)), index: Some(Ix::new(i as i128)) };
    let text = |t: &str, o: &mut Vec<Ev>| {
        o.push(Ev::TextBegin(None));
        o.push(Ev::TextFrag(t.into(), false));
        o.push(Ev::TextEnd);
    };
    let opt = |t: Tag, l: &'static str, i: i128| M { tag: Some(t), label: Some(Lb::stat(l)), index: Some(Ix::new(i)) };
    let tup = |xs: &[S], o: &mut Vec<Ev>| {
        for (i, x) in xs.iter().enumerate() {
            let ix = Ix::new(i as i128);
            o.push(Ev::TupValueBegin(None, ix.clone()));
            s_events(x, o);
            o.push(Ev::TupValueEnd(None, ix));
        }
    };
    let rec = |xs: &[(&'static str, S)], o: &mut Vec<Ev>| {
        for (k, x) in xs {
            o.push(Ev::RecValueBegin(None, Lb::stat(k)));
            s_events(x, o);
            o.push(Ev::RecValueEnd(None, Lb::stat(k)));
        }
    };
    match s {
        S::Bool(b) => o.push(Ev::Bool(*b)),
        S::Num(n) => o.push(Ev::Num(n.clone())),
        S::F32(x) => o.push(Ev::F32(x.to_bits())),
        S::F64(x) => o.push(Ev::F64(x.to_bits())),
        S::Char(c) => text(&c.to_string(), o),
        S::Str(t) | S::Disp(t) => text(t, o),
        S::Bytes(b) => {
            o.push(Ev::BinBegin(None));
            o.push(Ev::BinFrag(b.clone(), false));
            o.push(Ev::BinEnd);
        }
        S::None => o.push(Ev::Tag(opt(tags::RUST_OPTION_NONE, "None", 0))),
        S::Some(x) => {
            let m = opt(tags::RUST_OPTION_SOME, "Some", 1);
            o.push(Ev::TaggedBegin(m.clone()));
            s_events(x, o);
            o.push(Ev::TaggedEnd(m));
        }
        S::Unit => o.push(Ev::Tag(M { tag: Some(tags::RUST_UNIT), label: None, index: None })),
        S::UnitStruct(n) => o.push(Ev::Tag(lab(n))),
        S::UnitVariant(n, i, v) => {
            o.push(Ev::EnumBegin(lab(n)));
            o.push(Ev::Tag(var(v, *i)));
            o.push(Ev::EnumEnd(lab(n)));
        }
        S::Newtype(n, x) => {
            o.push(Ev::TaggedBegin(lab(n)));
            s_events(x, o);
            o.push(Ev::TaggedEnd(lab(n)));
        }
        S::NewtypeVariant(n, i, v, x) => {
            o.push(Ev::EnumBegin(lab(n)));
            o.push(Ev::TaggedBegin(var(v, *i)));
            s_events(x, o);
            o.push(Ev::TaggedEnd(var(v, *i)));
            o.push(Ev::EnumEnd(lab(n)));
        }
        S::Seq(n, xs) => {
            o.push(Ev::SeqBegin(*n));
            for x in xs {
                o.push(Ev::SeqValueBegin);
                s_events(x, o);
                o.push(Ev::SeqValueEnd);
            }
            o.push(Ev::SeqEnd);
        }
        S::Tuple(n, xs) => {
            o.push(Ev::TupBegin(M::default(), Some(*n)));
            tup(xs, o);
            o.push(Ev::TupEnd(M::default()));
        }
        S::TupleStruct(l, n, xs) => {
            o.push(Ev::TupBegin(lab(l), Some(*n)));
            tup(xs, o);
            o.push(Ev::TupEnd(lab(l)));
        }
        S::TupleVariant(l, i, v, n, xs) => {
            o.push(Ev::EnumBegin(lab(l)));
            o.push(Ev::TupBegin(var(v, *i), Some(*n)));
            tup(xs, o);
            o.push(Ev::TupEnd(var(v, *i)));
            o.push(Ev::EnumEnd(lab(l)));
        }
        S::Map(n, xs) => {
            o.push(Ev::MapBegin(*n));
            for (k, x) in xs {
                o.push(Ev::MapKeyBegin);
                s_events(k, o);
                o.push(Ev::MapKeyEnd);
                o.push(Ev::MapValueBegin);
                s_events(x, o);
                o.push(Ev::MapValueEnd);
            }
            o.push(Ev::MapEnd);
        }
        S::Struct(l, n, xs) => {
            o.push(Ev::RecBegin(lab(l), Some(*n)));
            rec(xs, o);
            o.push(Ev::RecEnd(lab(l)));
        }
        S::StructVariant(l, i, v, n, xs) => {
            o.push(Ev::EnumBegin(lab(l)));
            o.push(Ev::RecBegin(var(v, *i), Some(*n)));
            rec(xs, o);
            o.push(Ev::RecEnd(var(v, *i)));
            o.push(Ev::EnumEnd(lab(l)));
        }
        S::Fail => o.push(Ev::Fail),
    }
}
/// text whole, record tuples as records, hints and the tags of labels and indexes dropped
fn bare(evs: &[Ev]) -> Vec<Ev> {
    let m = |m: &M| M {
        tag: m.tag.clone(),
        label: m.label.clone().map(|l| Lb { tag: None, ..l }),
        index: m.index.clone().map(|i| Ix { tag: None, ..i }),
    };
    let l = |l: &Lb| Lb { tag: None, ..l.clone() };
    let x = |i: &Ix| Ix { tag: None, ..i.clone() };
    norm(evs, false)
        .iter()
        .map(|e| match e {
            Ev::Tag(a) => Ev::Tag(m(a)),
            Ev::TaggedBegin(a) => Ev::TaggedBegin(m(a)),
            Ev::TaggedEnd(a) => Ev::TaggedEnd(m(a)),
            Ev::EnumBegin(a) => Ev::EnumBegin(m(a)),
            Ev::EnumEnd(a) => Ev::EnumEnd(m(a)),
            Ev::RecBegin(a, n) => Ev::RecBegin(m(a), *n),
            Ev::RecEnd(a) => Ev::RecEnd(m(a)),
            Ev::TupBegin(a, n) => Ev::TupBegin(m(a), *n),
            Ev::TupEnd(a) => Ev::TupEnd(m(a)),
            Ev::RecValueBegin(_, a) => Ev::RecValueBegin(None, l(a)),
            Ev::RecValueEnd(_, a) => Ev::RecValueEnd(None, l(a)),
            Ev::TupValueBegin(_, a) => Ev::TupValueBegin(None, x(a)),
            Ev::TupValueEnd(_, a) => Ev::TupValueEnd(None, x(a)),
            e => e.clone(),
        })
        .collect()
}

/// the serde calls an sval value stands for; Err if serde has none
fn v_serde(v: &V) -> Result<S, &'static str> {
    fn name(l: &Option<Lb>) -> Result<&'static str, &'static str> {
        l.as_ref().and_then(|l| l.stat).ok_or("label isn't static")
    }
    fn ix(m: &M) -> Result<u32, &'static str> {
        m.index.as_ref().and_then(|i| u32::try_from(i.v).ok()).ok_or("variant index isn't u32")
    }
    fn all(xs: &mut dyn Iterator<Item = &V>) -> Result<Vec<S>, &'static str> {
        xs.map(v_serde).collect()
    }
    Ok(match v {
        V::Null => S::None,
        V::Bool(b) => S::Bool(*b),
        V::Num(n) => S::Num(n.clone()),
        V::F32(x) => S::F32(*x),
        V::F64(x) => S::F64(*x),
        V::Text(_, fs) => S::Str(text_of(fs)),
        V::Bin(_, fs) => S::Bytes(bytes_of(fs)),
        V::Seq(n, xs) => S::Seq(*n, all(&mut xs.iter().map(|x| &x.v))?),
        V::Map(n, xs) => S::Map(*n, xs.iter().map(|(k, x)| Ok((v_serde(&k.v)?, v_serde(&x.v)?))).collect::<Result<_, &'static str>>()?),
        V::Tag(m) => match &m.tag {
            Some(t) if *t == tags::RUST_OPTION_NONE => S::None,
            Some(t) if *t == tags::RUST_UNIT => S::Unit,
            _ => S::UnitStruct(name(&m.label)?),
        },
        V::Tagged(m, x) => match (&m.tag, &m.label) {
            (Some(t), _) if *t == tags::RUST_OPTION_SOME => S::Some(Box::new(v_serde(&x.v)?)),
            // a tag without a name doesn't change the value
            (_, None) => v_serde(&x.v)?,
            (_, l) => S::Newtype(name(l)?, Box::new(v_serde(&x.v)?)),
        },
        V::Tup(m, n, xs) => {
            let n = n.ok_or("no length")?;
            let xs = all(&mut xs.iter().map(|x| &x.2.v))?;
            if m.label.is_some() {
                S::TupleStruct(name(&m.label)?, n, xs)
            } else {
                S::Tuple(n, xs)
            }
        }
        V::Rec(..) | V::Rt(..) => {
            let (m, n, fs) = fields(v);
            let n = n.ok_or("no length")?;
            if m.label.is_some() {
                let fs = fs.into_iter().map(|(l, x)| Ok((l.stat.ok_or("field label isn't static")?, v_serde(x)?))).collect::<Result<_, &'static str>>()?;
                S::Struct(name(&m.label)?, n, fs)
            } else {
                S::Tuple(n, all(&mut fs.into_iter().map(|x| x.1))?)
            }
        }
        V::Enum(m, x) => {
            let l = name(&m.label)?;
            let Some(x) = x else { return Ok(S::UnitStruct(l)) };
            let mut x = &x.v;
            while let V::Hinted(_, y) = x {
                x = &y.v;
            }
            match x {
                V::Tag(m) => S::UnitVariant(l, ix(m)?, name(&m.label)?),
                V::Tagged(m, x) => S::NewtypeVariant(l, ix(m)?, name(&m.label)?, Box::new(v_serde(&x.v)?)),
                V::Tup(m, n, xs) => S::TupleVariant(l, ix(m)?, name(&m.label)?, n.ok_or("no length")?, all(&mut xs.iter().map(|x| &x.2.v))?),
                V::Rec(..) | V::Rt(..) => {
                    let (m, n, fs) = fields(x);
                    let fs = fs.into_iter().map(|(l, x)| Ok((l.stat.ok_or("field label isn't static")?, v_serde(x)?))).collect::<Result<_, &'static str>>()?;
                    S::StructVariant(l, ix(m)?, name(&m.label)?, n.ok_or("no length")?, fs)
                }
                _ => return Err("not a serde variant"),
            }
        }
        V::Hinted(_, x) => v_serde(&x.v)?,
    })
}
fn fields(v: &V) -> (&M, Option<usize>, Vec<(&Lb, &V)>) {
    match v {
        V::Rec(m, n, xs) => (m, *n, xs.iter().map(|x| (&x.1, &x.2.v)).collect()),
        V::Rt(m, n, xs) => (m, *n, xs.iter().map(|x| (&x.1, &x.3.v)).collect()),
        _ => unreachable!(),
    }
}

pub static C16: Check = Check {
    id: "C16",
    rule: "four kinds of case: (a) random trees of serde's data model streamed through ToValue and compared with their sval call sequence, and sent through ToValue then ToSerialize and compared with themselves; (b) random sval values through ToSerialize into a recording serializer, compared with the serde calls they stand for (an error when serde has none: dynamic names, missing tuple lengths, variant indexes outside u32); (c) random values of types deriving Value and Serialize, both views compared in both directions; in (a)-(c) a serializer, stream or value failing at a random call must fail the whole call with no further call; non-trivial = at least 3 nodes",
    quick: 1_000_000,
    thorough: 8_000_000,
    run: c16,
    assumptions: &["sval has no char: chars arrive as strings", "fixed-size arrays arrive as sequences instead of tuples", "an unlabelled record becomes a tuple and null becomes none (as implemented)"],
};
fn c16(cx: &mut Ctx) -> R {
    match cx.src.n(3) {
        0 => c16_serde(cx),
        1 => c16_sval(cx),
        _ => c16_dual(cx),
    }
}
fn c16_serde(cx: &mut Ctx) -> R {
    cx.class("serde tree");
    let big = cx.src.chance(1, 10);
    let fails = cx.src.chance(1, 6);
    let left = 1 + cx.src.n(if big { 40 } else { 10 });
    let s = SG { s: &mut cx.src, left, fails }.any(if big { 8 } else { 5 });
    cx.nontrivial_if(ssize(&s) >= 3);
    cx.sample(|| format!("{s:?}"));
    let mut exp = Vec::new();
    s_events(&s, &mut exp);
    let bad = exp.iter().position(|e| *e == Ev::Fail);
    let mut r = Rec::new();
    let route = cx.src.n(3);
    let ok = match route {
        0 => sval_serde::stream(&mut r, &s).is_ok(),
        1 => sval::stream(&mut r, &ToValue::new(&s)).is_ok(),
        _ => sval::stream_computed(&mut r, ToValue::new_borrowed(&s)).is_ok(),
    };
    if let Some(k) = bad {
        cx.class("failing serde value");
        ensure!(!ok, "a failing serde value streamed as {:?}", r.evs);
        // everything before the failure arrived
        ensure!(k == 0 || !r.evs.is_empty(), "nothing arrived before the failure");
        ensure!(serde_calls(&ToSerialize::new(ToValue::new(&s))).is_err(), "a failing serde value serialized through sval");
        return Ok(());
    }
    ensure!(ok, "streaming failed after {:?}", r.evs);
    let (e, g) = (bare(&exp), bare(&r.evs));
    ensure!(e == g, "ToValue: {}", diff(&e, &g));
    // and back
    let back = serde_calls(&ToSerialize::new(ToValue::new(&s))).map_err(|e| Fail { msg: format!("{s:?} failed on the way back: {e}") })?;
    let want = no_char(&s);
    ensure!(same(&want, &back), "round trip gives {back:?}, expected {want:?}");
    // the stream fails
    if !r.evs.is_empty() && cx.src.bool() {
        let k = cx.src.n(r.evs.len());
        let mut f = Rec::failing(k);
        ensure!(sval_serde::stream(&mut f, &s).is_err(), "the stream failed at call {k} and sval_serde::stream succeeded");
        ensure!(f.after_fail == 0, "{} calls after the stream failed", f.after_fail);
    }
    Ok(())
}
fn c16_sval(cx: &mut Ctx) -> R {
    cx.class("sval value");
    let mut c = cfg(&mut cx.src);
    c.dyn_labels = cx.src.chance(1, 4);
    c.absent_sizes = cx.src.chance(1, 4);
    let v = gen(&mut cx.src, &c);
    cx.nontrivial_if(size(&v) >= 3);
    let evs = events(&v);
    cx.sample(|| format!("{evs:?}"));
    let exp = v_serde(&v);
    cx.class_if(exp.is_err(), "not representable in serde");
    let rec = SerRec::new(None);
    let got = match cx.src.n(3) {
        0 => sval_serde::serialize(rec.clone(), &v),
        1 => ToSerialize::new(&v).serialize(rec.clone()),
        _ => ToSerialize::new_borrowed(&v).serialize(rec.clone()),
    };
    match (&exp, got) {
        (Err(_), Err(_)) => {}
        (Err(w), Ok(g)) => return fail(format!("{w}: expected an error, got {g:?}")),
        (Ok(e), Err(x)) => return fail(format!("serializing failed: {x}; expected {e:?}")),
        (Ok(e), Ok(g)) => ensure!(same(e, &g), "serialized as {g:?}, expected {e:?}"),
    }
    let calls = rec.0.calls.get();
    match cx.src.n(3) {
        0 if calls > 0 => {
            cx.class("failing serializer");
            let rec = SerRec(Rc::new(Faults { fail_at: Some(cx.src.n(calls)), ..Default::default() }));
            ensure!(ToSerialize::new(&v).serialize(rec.clone()).is_err(), "the serializer failed at call {:?} and ToSerialize succeeded", rec.0.fail_at);
            ensure!(rec.0.after.get() == 0, "{} calls after the serializer failed", rec.0.after.get());
        }
        1 => {
            cx.class("failing sval value");
            let k = cx.src.n(evs.len() + 1);
            let mut p = evs[..k].to_vec();
            p.push(Ev::Fail);
            let g = serde_calls(&ToSerialize::new(Play(p)));
            ensure!(g.is_err(), "a value failing at call {k} serialized as {:?}", g.ok());
        }
        _ => {}
    }
    Ok(())
}
const ALL_FEAT: Feat = Feat { floats: true, text: any_text, chars: true, maps: true, one_tuples: true, arrays: true, unit_structs: true, empty_structs: true };
fn c16_dual(cx: &mut Ctx) -> R {
    cx.class("derived types");
    let big = cx.src.chance(1, 10);
    let mut f = ALL_FEAT;
    f.arrays = cx.src.chance(1, 3);
    let d = gen_dual(&mut cx.src, f, if big { 40 } else { 10 }, if big { 9 } else { 5 });
    cx.nontrivial_if(dual_size(&d) >= 3);
    cx.sample(|| format!("{d:?}"));
    let exp = no_char(&serde_calls(&d).map_err(|e| Fail { msg: e.0 })?);
    let got = serde_calls(&ToSerialize::new(&d)).map_err(|e| Fail { msg: format!("{d:?} failed through sval: {e}") })?;
    let (e, g) = if f.arrays { (no_tuple(&exp), no_tuple(&got)) } else { (exp.clone(), got) };
    ensure!(same(&e, &g), "through sval {g:?}, serde's own {e:?}");
    // ToValue gives what the sval derive gives
    if !f.arrays {
        let own = bare(&record(&d).map_err(|m| Fail { msg: m })?);
        let via = bare(&record(&ToValue::new(&d)).map_err(|m| Fail { msg: m })?);
        ensure!(own == via, "ToValue against the derive: {}", diff(&own, &via));
        let back = serde_calls(&ToSerialize::new(ToValue::new(ToSerialize::new(ToValue::new(&d))))).map_err(|e| Fail { msg: e.0 })?;
        ensure!(same(&exp, &back), "two round trips give {back:?}, expected {exp:?}");
    }
    // a serializer that fails
    let rec = SerRec::new(None);
    let _ = ToSerialize::new(&d).serialize(rec.clone());
    let rec = SerRec::new(Some(cx.src.n(rec.0.calls.get())));
    ensure!(ToSerialize::new(&d).serialize(rec.clone()).is_err(), "the serializer failed at call {:?} and ToSerialize succeeded", rec.0.fail_at);
    ensure!(rec.0.after.get() == 0, "{} calls after the serializer failed", rec.0.after.get());
    Ok(())
}

// ------------------------------------------------------------------ C05

pub static C05: Check = Check {
    id: "C05",
    rule: "random values of the family of types deriving Value and Serialize (recursive structs, tuple structs, newtypes, generic enums with all variant kinds, Option, Vec, arrays, tuples, maps with string, integer, bool, unit-variant and newtype keys, strings, chars, integers up to 128 bits, floats), and random serde_json::Value documents: sval_json and serde_json must write the same document directly, through sval_serde in either direction and through a buffer (parsed by an independent parser, members in order, numbers by value); non-trivial = at least 3 streamed calls",
    quick: 1_200_000,
    thorough: 8_000_000,
    run: c05,
    assumptions: &["unit structs are excluded: sval_json writes their label", "spelling of escapes and floats may differ"],
};
fn c05(cx: &mut Ctx) -> R {
    let same = |what: &str, want: &str, got: &str| -> R {
        let w = crate::jsonm::parse(want).map_err(|e| Fail { msg: format!("serde_json wrote {want}: {e}") })?;
        let g = crate::jsonm::parse(got).map_err(|e| Fail { msg: format!("{what} wrote malformed JSON {got}: {e}") })?;
        crate::jsonm::matches(&w.to_j(), &g).map_err(|e| Fail { msg: format!("{what} wrote {got}, serde_json writes {want}: {e}") })
    };
    let e = |e: &dyn fmt::Display| Fail { msg: e.to_string() };
    if cx.src.chance(1, 5) {
        cx.class("serde_json::Value");
        let left = 1 + cx.src.n(20);
        let v = gen_doc(&mut cx.src, &mut { left }, 5);
        let want = v.to_string();
        cx.sample(|| want.clone());
        cx.nontrivial_if(v.is_object() || v.is_array());
        same("sval_json through ToValue", &want, &sval_json::stream_to_string(ToValue::new(&v)).map_err(|x| e(&x))?)?;
        same("serde_json through ToSerialize of ToValue", &want, &serde_json::to_string(&ToSerialize::new(ToValue::new(&v))).map_err(|x| e(&x))?)?;
        return Ok(());
    }
    cx.class("derived types");
    let big = cx.src.chance(1, 10);
    let f = Feat { unit_structs: false, ..ALL_FEAT };
    let d = gen_dual(&mut cx.src, f, if big { 40 } else { 10 }, if big { 9 } else { 5 });
    cx.nontrivial_if(dual_size(&d) >= 3);
    let want = serde_json::to_string(&d).map_err(|x| e(&x))?;
    cx.sample(|| want.clone());
    let got = sval_json::stream_to_string(&d).map_err(|x| Fail { msg: format!("sval_json failed: {x}; serde_json writes {want}") })?;
    same("sval_json", &want, &got)?;
    match cx.src.n(5) {
        0 => same("sval_json through ToValue", &want, &sval_json::stream_to_string(ToValue::new(&d)).map_err(|x| e(&x))?),
        1 => same("serde_json through ToSerialize", &want, &serde_json::to_string(&ToSerialize::new(&d)).map_err(|x| e(&x))?),
        2 => {
            let b = sval_buffer::ValueBuf::collect(&d).map_err(|x| e(&x))?;
            same("sval_json of a buffer", &want, &sval_json::stream_to_string(&b).map_err(|x| e(&x))?)
        }
        3 => {
            let dv = ToValue::new(&d);
            let b = sval_buffer::Value::collect_owned(&dv).map_err(|x| e(&x))?;
            same("serde_json of a buffered serde value", &want, &serde_json::to_string(&ToSerialize::new(&b)).map_err(|x| e(&x))?)
        }
        _ => {
            let b = sval_json::stream_to_vec(&d).map_err(|x| e(&x))?;
            let mut s = String::new();
            sval_json::stream_to_fmt_write(&mut s, &d).map_err(|x| e(&x))?;
            ensure!(b == s.as_bytes() && s == got, "sinks differ: {got} / {s}");
            Ok(())
        }
    }
}
fn gen_doc(s: &mut Src, left: &mut usize, d: usize) -> serde_json::Value {
    use serde_json::Value as J;
    let k = if d == 0 || *left == 0 { s.n(6) } else { s.n(10) };
    *left = left.saturating_sub(1);
    match k {
        0 => J::Null,
        1 => J::Bool(s.bool()),
        2 => J::from(s.bits() as i64 >> s.n(64)),
        3 => J::from(s.bits() >> s.n(64)),
        4 => serde_json::Number::from_f64(gen_f64(s)).map(J::Number).unwrap_or(J::Null),
        5 => J::String(gen_text(s, 12)),
        6 | 7 => {
            let n = s.n(5);
            J::Array((0..n).map(|_| gen_doc(s, left, d - 1)).collect())
        }
        _ => {
            let n = s.n(5);
            J::Object((0..n).map(|_| (gen_text(s, 6), gen_doc(s, left, d - 1))).collect())
        }
    }
}

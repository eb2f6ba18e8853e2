//! C17: recursive streams.
use crate::checks::core::cfg;
use crate::engine::*;
use crate::ensure;
use crate::ev::*;
use crate::val::*;
use std::cell::Cell;
use std::rc::Rc;
use sval::{tags, Index, Label, Tag};
use sval_nested::{Error, Result as NR, Stream, StreamEnum, StreamMap, StreamRecord, StreamSeq, StreamTuple, ValueRef};

pub static C17: Check = Check {
    id: "C17",
    rule: "random value trees (every sval shape, nested and empty enums, primitives as enum variants) streamed through a recursive stream that rebuilds the call sequence, one that records its children flat, and one that implements only the required methods; entered through stream/stream_ref/stream_computed/value or driven by hand; borrowed text and binary stay borrowed on a borrowed path, two values at the root are an error; the result must equal the model (tag hints dropped, record tuples as records, text whole), values a recursive stream cannot express must be an error, and a value or a recursive stream failing at a random point must make the whole call fail; non-trivial = depth >= 3",
    quick: 500_000,
    thorough: 8_000_000,
    run: c17,
    assumptions: &["tag hints are dropped and record tuples arrive as records (documented)", "an enum nested directly in an enum variant cannot carry a record or tuple"],
};

struct St {
    raw: bool,
    fail_at: Option<usize>,
    calls: Cell<usize>,
    failed: Cell<bool>,
    after: Cell<usize>,
}
impl St {
    fn tick(&self) -> NR {
        if self.failed.get() {
            self.after.set(self.after.get() + 1);
        }
        let n = self.calls.get();
        self.calls.set(n + 1);
        if self.fail_at == Some(n) {
            self.failed.set(true);
            return Err(Error::invalid_value("injected"));
        }
        Ok(())
    }
}
type Cx = Rc<St>;
fn m(t: Option<Tag>, l: Option<Label>, i: Option<Index>) -> M {
    M::rec(t.as_ref(), l.as_ref(), i.as_ref())
}
fn text(s: &str, b: bool) -> Vec<Ev> {
    let mut o = vec![Ev::TextBegin(Some(s.len()))];
    if !s.is_empty() {
        o.push(Ev::TextFrag(s.into(), b));
    }
    o.push(Ev::TextEnd);
    o
}
fn bin(s: &[u8], b: bool) -> Vec<Ev> {
    let mut o = vec![Ev::BinBegin(Some(s.len()))];
    if !s.is_empty() {
        o.push(Ev::BinFrag(s.into(), b));
    }
    o.push(Ev::BinEnd);
    o
}
/// what a child contributes, recursively or recorded flat
fn child<'a, V: ValueRef<'a>>(cx: &Cx, v: V) -> NR<Vec<Ev>> {
    if cx.raw {
        let mut r = Rec::new();
        v.stream_ref(&mut r).map_err(|_| Error::invalid_value("child failed"))?;
        Ok(norm(&r.evs, true))
    } else {
        Full(cx.clone()).value(v)
    }
}
fn child_c<V: sval::Value>(cx: &Cx, v: V) -> NR<Vec<Ev>> {
    if cx.raw {
        let mut r = Rec::new();
        sval::default_stream::value_computed(&mut r, &v).map_err(|_| Error::invalid_value("child failed"))?;
        Ok(norm(&r.evs, true))
    } else {
        Full(cx.clone()).value_computed(v)
    }
}

/// implements every method
struct Full(Cx);
struct Part {
    cx: Cx,
    evs: Vec<Ev>,
    end: Vec<Ev>,
}
impl Part {
    fn new(cx: Cx, begin: Ev, end: Ev) -> Part {
        Part { cx, evs: vec![begin], end: vec![end] }
    }
    fn done(mut self) -> Vec<Ev> {
        self.evs.append(&mut self.end);
        self.evs
    }
    fn put(&mut self, b: Option<Ev>, c: Vec<Ev>, e: Option<Ev>) {
        self.evs.extend(b);
        self.evs.extend(c);
        self.evs.extend(e);
    }
}
macro_rules! prim {
    ($($f:ident $t:ty => $e:expr;)*) => { $(fn $f(self, v: $t) -> NR<Vec<Ev>> { self.0.tick()?; let f: fn($t) -> Ev = $e; Ok(vec![f(v)]) })* };
}
impl<'a> Stream<'a> for Full {
    type Ok = Vec<Ev>;
    type Seq = Part;
    type Map = Part;
    type Tuple = Part;
    type Record = Part;
    type Enum = Part;
    fn null(self) -> NR<Vec<Ev>> {
        self.0.tick()?;
        Ok(vec![Ev::Null])
    }
    prim! {
        bool bool => Ev::Bool;
        i8 i8 => |x| Ev::Num(Num::I8(x));
        i16 i16 => |x| Ev::Num(Num::I16(x));
        i32 i32 => |x| Ev::Num(Num::I32(x));
        i64 i64 => |x| Ev::Num(Num::I64(x));
        i128 i128 => |x| Ev::Num(Num::I128(x));
        u8 u8 => |x| Ev::Num(Num::U8(x));
        u16 u16 => |x| Ev::Num(Num::U16(x));
        u32 u32 => |x| Ev::Num(Num::U32(x));
        u64 u64 => |x| Ev::Num(Num::U64(x));
        u128 u128 => |x| Ev::Num(Num::U128(x));
        f32 f32 => |x| Ev::F32(x.to_bits());
        f64 f64 => |x| Ev::F64(x.to_bits());
    }
    fn text(self, t: &'a str) -> NR<Vec<Ev>> {
        self.0.tick()?;
        Ok(text(t, true))
    }
    fn text_computed(self, t: &str) -> NR<Vec<Ev>> {
        self.0.tick()?;
        Ok(text(t, false))
    }
    fn binary(self, t: &'a [u8]) -> NR<Vec<Ev>> {
        self.0.tick()?;
        Ok(bin(t, true))
    }
    fn binary_computed(self, t: &[u8]) -> NR<Vec<Ev>> {
        self.0.tick()?;
        Ok(bin(t, false))
    }
    fn tag(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>) -> NR<Vec<Ev>> {
        self.0.tick()?;
        Ok(vec![Ev::Tag(m(t, l, i))])
    }
    fn tagged<V: ValueRef<'a>>(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, v: V) -> NR<Vec<Ev>> {
        self.0.tick()?;
        let m = m(t, l, i);
        let mut p = Part::new(self.0.clone(), Ev::TaggedBegin(m.clone()), Ev::TaggedEnd(m));
        p.evs.extend(child(&self.0, v)?);
        Ok(p.done())
    }
    fn tagged_computed<V: sval::Value>(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, v: V) -> NR<Vec<Ev>> {
        self.0.tick()?;
        let m = m(t, l, i);
        let mut p = Part::new(self.0.clone(), Ev::TaggedBegin(m.clone()), Ev::TaggedEnd(m));
        p.evs.extend(child_c(&self.0, v)?);
        Ok(p.done())
    }
    fn seq_begin(self, n: Option<usize>) -> NR<Part> {
        self.0.tick()?;
        Ok(Part::new(self.0, Ev::SeqBegin(n), Ev::SeqEnd))
    }
    fn map_begin(self, n: Option<usize>) -> NR<Part> {
        self.0.tick()?;
        Ok(Part::new(self.0, Ev::MapBegin(n), Ev::MapEnd))
    }
    fn tuple_begin(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, n: Option<usize>) -> NR<Part> {
        self.0.tick()?;
        let m = m(t, l, i);
        Ok(Part::new(self.0, Ev::TupBegin(m.clone(), n), Ev::TupEnd(m)))
    }
    fn record_begin(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, n: Option<usize>) -> NR<Part> {
        self.0.tick()?;
        let m = m(t, l, i);
        Ok(Part::new(self.0, Ev::RecBegin(m.clone(), n), Ev::RecEnd(m)))
    }
    fn enum_begin(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>) -> NR<Part> {
        self.0.tick()?;
        let m = m(t, l, i);
        Ok(Part::new(self.0, Ev::EnumBegin(m.clone()), Ev::EnumEnd(m)))
    }
}
impl<'a> StreamSeq<'a> for Part {
    type Ok = Vec<Ev>;
    fn value<V: ValueRef<'a>>(&mut self, v: V) -> NR {
        self.cx.tick()?;
        let c = child(&self.cx, v)?;
        self.put(Some(Ev::SeqValueBegin), c, Some(Ev::SeqValueEnd));
        Ok(())
    }
    fn value_computed<V: sval::Value>(&mut self, v: V) -> NR {
        self.cx.tick()?;
        let c = child_c(&self.cx, v)?;
        self.put(Some(Ev::SeqValueBegin), c, Some(Ev::SeqValueEnd));
        Ok(())
    }
    fn end(self) -> NR<Vec<Ev>> {
        self.cx.tick()?;
        Ok(self.done())
    }
}
impl<'a> StreamMap<'a> for Part {
    type Ok = Vec<Ev>;
    fn key<V: ValueRef<'a>>(&mut self, v: V) -> NR {
        self.cx.tick()?;
        let c = child(&self.cx, v)?;
        self.put(Some(Ev::MapKeyBegin), c, Some(Ev::MapKeyEnd));
        Ok(())
    }
    fn key_computed<V: sval::Value>(&mut self, v: V) -> NR {
        self.cx.tick()?;
        let c = child_c(&self.cx, v)?;
        self.put(Some(Ev::MapKeyBegin), c, Some(Ev::MapKeyEnd));
        Ok(())
    }
    fn value<V: ValueRef<'a>>(&mut self, v: V) -> NR {
        self.cx.tick()?;
        let c = child(&self.cx, v)?;
        self.put(Some(Ev::MapValueBegin), c, Some(Ev::MapValueEnd));
        Ok(())
    }
    fn value_computed<V: sval::Value>(&mut self, v: V) -> NR {
        self.cx.tick()?;
        let c = child_c(&self.cx, v)?;
        self.put(Some(Ev::MapValueBegin), c, Some(Ev::MapValueEnd));
        Ok(())
    }
    fn end(self) -> NR<Vec<Ev>> {
        self.cx.tick()?;
        Ok(self.done())
    }
}
impl<'a> StreamTuple<'a> for Part {
    type Ok = Vec<Ev>;
    fn value<V: ValueRef<'a>>(&mut self, t: Option<Tag>, i: Index, v: V) -> NR {
        self.cx.tick()?;
        let c = child(&self.cx, v)?;
        let i = Ix::rec(&i);
        self.put(Some(Ev::TupValueBegin(t.clone(), i.clone())), c, Some(Ev::TupValueEnd(t, i)));
        Ok(())
    }
    fn value_computed<V: sval::Value>(&mut self, t: Option<Tag>, i: Index, v: V) -> NR {
        self.cx.tick()?;
        let c = child_c(&self.cx, v)?;
        let i = Ix::rec(&i);
        self.put(Some(Ev::TupValueBegin(t.clone(), i.clone())), c, Some(Ev::TupValueEnd(t, i)));
        Ok(())
    }
    fn end(self) -> NR<Vec<Ev>> {
        self.cx.tick()?;
        Ok(self.done())
    }
}
impl<'a> StreamRecord<'a> for Part {
    type Ok = Vec<Ev>;
    fn value<V: ValueRef<'a>>(&mut self, t: Option<Tag>, l: Label, v: V) -> NR {
        self.cx.tick()?;
        let c = child(&self.cx, v)?;
        let l = Lb::rec(&l);
        self.put(Some(Ev::RecValueBegin(t.clone(), l.clone())), c, Some(Ev::RecValueEnd(t, l)));
        Ok(())
    }
    fn value_computed<V: sval::Value>(&mut self, t: Option<Tag>, l: Label, v: V) -> NR {
        self.cx.tick()?;
        let c = child_c(&self.cx, v)?;
        let l = Lb::rec(&l);
        self.put(Some(Ev::RecValueBegin(t.clone(), l.clone())), c, Some(Ev::RecValueEnd(t, l)));
        Ok(())
    }
    fn end(self) -> NR<Vec<Ev>> {
        self.cx.tick()?;
        Ok(self.done())
    }
}
impl<'a> StreamEnum<'a> for Part {
    type Ok = Vec<Ev>;
    type Tuple = Part;
    type Record = Part;
    type Nested = Part;
    fn tag(mut self, t: Option<Tag>, l: Option<Label>, i: Option<Index>) -> NR<Vec<Ev>> {
        self.cx.tick()?;
        self.evs.push(Ev::Tag(m(t, l, i)));
        Ok(self.done())
    }
    fn tagged<V: ValueRef<'a>>(mut self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, v: V) -> NR<Vec<Ev>> {
        self.cx.tick()?;
        let m = m(t, l, i);
        let c = child(&self.cx, v)?;
        self.put(Some(Ev::TaggedBegin(m.clone())), c, Some(Ev::TaggedEnd(m)));
        Ok(self.done())
    }
    fn tagged_computed<V: sval::Value>(mut self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, v: V) -> NR<Vec<Ev>> {
        self.cx.tick()?;
        let m = m(t, l, i);
        let c = child_c(&self.cx, v)?;
        self.put(Some(Ev::TaggedBegin(m.clone())), c, Some(Ev::TaggedEnd(m)));
        Ok(self.done())
    }
    fn tuple_begin(mut self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, n: Option<usize>) -> NR<Part> {
        self.cx.tick()?;
        let m = m(t, l, i);
        self.evs.push(Ev::TupBegin(m.clone(), n));
        self.end.insert(0, Ev::TupEnd(m));
        Ok(self)
    }
    fn record_begin(mut self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, n: Option<usize>) -> NR<Part> {
        self.cx.tick()?;
        let m = m(t, l, i);
        self.evs.push(Ev::RecBegin(m.clone(), n));
        self.end.insert(0, Ev::RecEnd(m));
        Ok(self)
    }
    fn nested<F: FnOnce(Part) -> NR<Vec<Ev>>>(mut self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, f: F) -> NR<Vec<Ev>> {
        self.cx.tick()?;
        let m = m(t, l, i);
        let c = f(Part::new(self.cx.clone(), Ev::EnumBegin(m.clone()), Ev::EnumEnd(m)))?;
        self.evs.extend(c);
        Ok(self.done())
    }
    fn empty(self) -> NR<Vec<Ev>> {
        self.cx.tick()?;
        Ok(self.done())
    }
}

/// implements only what the traits require
struct Min;
struct MinPart {
    evs: Vec<Ev>,
    end: Vec<Ev>,
}
impl MinPart {
    fn new(b: Ev, e: Ev) -> Self {
        MinPart { evs: vec![b], end: vec![e] }
    }
    fn done(mut self) -> Vec<Ev> {
        self.evs.append(&mut self.end);
        self.evs
    }
}
impl<'a> Stream<'a> for Min {
    type Ok = Vec<Ev>;
    type Seq = MinPart;
    type Map = MinPart;
    type Tuple = MinPart;
    type Record = MinPart;
    type Enum = MinPart;
    fn null(self) -> NR<Vec<Ev>> {
        Ok(vec![Ev::Null])
    }
    fn bool(self, v: bool) -> NR<Vec<Ev>> {
        Ok(vec![Ev::Bool(v)])
    }
    fn i64(self, v: i64) -> NR<Vec<Ev>> {
        Ok(vec![Ev::Num(Num::I64(v))])
    }
    fn f64(self, v: f64) -> NR<Vec<Ev>> {
        Ok(vec![Ev::F64(v.to_bits())])
    }
    fn text_computed(self, t: &str) -> NR<Vec<Ev>> {
        Ok(text(t, false))
    }
    fn seq_begin(self, n: Option<usize>) -> NR<MinPart> {
        Ok(MinPart::new(Ev::SeqBegin(n), Ev::SeqEnd))
    }
    fn map_begin(self, n: Option<usize>) -> NR<MinPart> {
        Ok(MinPart::new(Ev::MapBegin(n), Ev::MapEnd))
    }
    fn tuple_begin(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, n: Option<usize>) -> NR<MinPart> {
        let m = m(t, l, i);
        Ok(MinPart::new(Ev::TupBegin(m.clone(), n), Ev::TupEnd(m)))
    }
    fn record_begin(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, n: Option<usize>) -> NR<MinPart> {
        let m = m(t, l, i);
        Ok(MinPart::new(Ev::RecBegin(m.clone(), n), Ev::RecEnd(m)))
    }
    fn enum_begin(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>) -> NR<MinPart> {
        let m = m(t, l, i);
        Ok(MinPart::new(Ev::EnumBegin(m.clone()), Ev::EnumEnd(m)))
    }
}
impl<'a> StreamSeq<'a> for MinPart {
    type Ok = Vec<Ev>;
    fn value_computed<V: sval::Value>(&mut self, v: V) -> NR {
        self.evs.push(Ev::SeqValueBegin);
        self.evs.extend(Min.value_computed(v)?);
        self.evs.push(Ev::SeqValueEnd);
        Ok(())
    }
    fn end(self) -> NR<Vec<Ev>> {
        Ok(self.done())
    }
}
impl<'a> StreamMap<'a> for MinPart {
    type Ok = Vec<Ev>;
    fn key_computed<V: sval::Value>(&mut self, v: V) -> NR {
        self.evs.push(Ev::MapKeyBegin);
        self.evs.extend(Min.value_computed(v)?);
        self.evs.push(Ev::MapKeyEnd);
        Ok(())
    }
    fn value_computed<V: sval::Value>(&mut self, v: V) -> NR {
        self.evs.push(Ev::MapValueBegin);
        self.evs.extend(Min.value_computed(v)?);
        self.evs.push(Ev::MapValueEnd);
        Ok(())
    }
    fn end(self) -> NR<Vec<Ev>> {
        Ok(self.done())
    }
}
impl<'a> StreamTuple<'a> for MinPart {
    type Ok = Vec<Ev>;
    fn value_computed<V: sval::Value>(&mut self, t: Option<Tag>, i: Index, v: V) -> NR {
        self.evs.push(Ev::TupValueBegin(t.clone(), Ix::rec(&i)));
        self.evs.extend(Min.value_computed(v)?);
        self.evs.push(Ev::TupValueEnd(t, Ix::rec(&i)));
        Ok(())
    }
    fn end(self) -> NR<Vec<Ev>> {
        Ok(self.done())
    }
}
impl<'a> StreamRecord<'a> for MinPart {
    type Ok = Vec<Ev>;
    fn value_computed<V: sval::Value>(&mut self, t: Option<Tag>, l: Label, v: V) -> NR {
        self.evs.push(Ev::RecValueBegin(t.clone(), Lb::rec(&l)));
        self.evs.extend(Min.value_computed(v)?);
        self.evs.push(Ev::RecValueEnd(t, Lb::rec(&l)));
        Ok(())
    }
    fn end(self) -> NR<Vec<Ev>> {
        Ok(self.done())
    }
}
impl<'a> StreamEnum<'a> for MinPart {
    type Ok = Vec<Ev>;
    type Tuple = MinPart;
    type Record = MinPart;
    type Nested = MinPart;
    fn tag(mut self, t: Option<Tag>, l: Option<Label>, i: Option<Index>) -> NR<Vec<Ev>> {
        self.evs.push(Ev::Tag(m(t, l, i)));
        Ok(self.done())
    }
    fn tagged_computed<V: sval::Value>(mut self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, v: V) -> NR<Vec<Ev>> {
        let m = m(t, l, i);
        self.evs.push(Ev::TaggedBegin(m.clone()));
        self.evs.extend(Min.value_computed(v)?);
        self.evs.push(Ev::TaggedEnd(m));
        Ok(self.done())
    }
    fn tuple_begin(mut self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, n: Option<usize>) -> NR<MinPart> {
        let m = m(t, l, i);
        self.evs.push(Ev::TupBegin(m.clone(), n));
        self.end.insert(0, Ev::TupEnd(m));
        Ok(self)
    }
    fn record_begin(mut self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, n: Option<usize>) -> NR<MinPart> {
        let m = m(t, l, i);
        self.evs.push(Ev::RecBegin(m.clone(), n));
        self.end.insert(0, Ev::RecEnd(m));
        Ok(self)
    }
    fn nested<F: FnOnce(MinPart) -> NR<Vec<Ev>>>(mut self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, f: F) -> NR<Vec<Ev>> {
        let m = m(t, l, i);
        self.evs.extend(f(MinPart::new(Ev::EnumBegin(m.clone()), Ev::EnumEnd(m)))?);
        Ok(self.done())
    }
    fn empty(self) -> NR<Vec<Ev>> {
        Ok(self.done())
    }
}

/// hints dropped, record tuples as records, text and binary whole with their size known
pub fn norm(evs: &[Ev], keep_borrow: bool) -> Vec<Ev> {
    let mut o: Vec<Ev> = Vec::new();
    let mut t: Option<(String, bool)> = None;
    let mut b: Option<(Vec<u8>, bool)> = None;
    for e in evs {
        match e {
            Ev::Hint(_) => {}
            Ev::TextBegin(_) => t = Some((String::new(), true)),
            Ev::TextFrag(s, bo) => {
                let t = t.as_mut().unwrap();
                t.0.push_str(s);
                t.1 &= *bo;
            }
            Ev::TextEnd => {
                let t = t.take().unwrap();
                o.extend(text(&t.0, t.1 && keep_borrow));
            }
            Ev::BinBegin(_) => b = Some((Vec::new(), true)),
            Ev::BinFrag(s, bo) => {
                let b = b.as_mut().unwrap();
                b.0.extend(s);
                b.1 &= *bo;
            }
            Ev::BinEnd => {
                let b = b.take().unwrap();
                o.extend(bin(&b.0, b.1 && keep_borrow));
            }
            Ev::RtBegin(m, n) => o.push(Ev::RecBegin(m.clone(), *n)),
            Ev::RtValueBegin(t, l, _) => o.push(Ev::RecValueBegin(t.clone(), l.clone())),
            Ev::RtValueEnd(t, l, _) => o.push(Ev::RecValueEnd(t.clone(), l.clone())),
            Ev::RtEnd(m) => o.push(Ev::RecEnd(m.clone())),
            e => o.push(e.clone()),
        }
    }
    o
}

/// what the documented defaults make of a value
pub fn lowered(v: &V, variant: bool, o: &mut Vec<Ev>) {
    match v {
        V::Null | V::Bool(_) => o.extend(events(v)),
        V::F64(x) => o.push(Ev::F64(x.to_bits())),
        V::F32(x) => o.push(Ev::F64((*x as f64).to_bits())),
        V::Num(n) => match n.text().parse::<i64>() {
            Ok(x) => o.push(Ev::Num(Num::I64(x))),
            Err(_) => o.extend(text(&n.text(), false)),
        },
        V::Text(_, fs) => o.extend(text(&text_of(fs), false)),
        V::Bin(_, fs) => {
            let b = bytes_of(fs);
            o.push(Ev::SeqBegin(Some(b.len())));
            for x in b {
                o.push(Ev::SeqValueBegin);
                o.push(Ev::Num(Num::I64(x as i64)));
                o.push(Ev::SeqValueEnd);
            }
            o.push(Ev::SeqEnd);
        }
        V::Seq(n, xs) => {
            o.push(Ev::SeqBegin(*n));
            for x in xs {
                o.push(Ev::SeqValueBegin);
                lowered(&x.v, false, o);
                o.push(Ev::SeqValueEnd);
            }
            o.push(Ev::SeqEnd);
        }
        V::Map(n, xs) => {
            o.push(Ev::MapBegin(*n));
            for (k, x) in xs {
                o.push(Ev::MapKeyBegin);
                lowered(&k.v, false, o);
                o.push(Ev::MapKeyEnd);
                o.push(Ev::MapValueBegin);
                lowered(&x.v, false, o);
                o.push(Ev::MapValueEnd);
            }
            o.push(Ev::MapEnd);
        }
        V::Tag(m) if variant => o.push(Ev::Tag(m.clone())),
        V::Tag(m) => {
            if m.tag == Some(tags::RUST_OPTION_NONE) {
                o.push(Ev::Null)
            } else if let Some(l) = &m.label {
                o.extend(text(&l.text, false))
            } else {
                o.push(Ev::Null)
            }
        }
        V::Tagged(m, x) if variant => {
            o.push(Ev::TaggedBegin(m.clone()));
            lowered(&x.v, false, o);
            o.push(Ev::TaggedEnd(m.clone()));
        }
        V::Tagged(_, x) => lowered(&x.v, false, o),
        V::Rec(m, n, xs) => {
            o.push(Ev::RecBegin(m.clone(), *n));
            for (t, l, x) in xs {
                o.push(Ev::RecValueBegin(t.clone(), l.clone()));
                lowered(&x.v, false, o);
                o.push(Ev::RecValueEnd(t.clone(), l.clone()));
            }
            o.push(Ev::RecEnd(m.clone()));
        }
        V::Rt(m, n, xs) => {
            o.push(Ev::RecBegin(m.clone(), *n));
            for (t, l, _, x) in xs {
                o.push(Ev::RecValueBegin(t.clone(), l.clone()));
                lowered(&x.v, false, o);
                o.push(Ev::RecValueEnd(t.clone(), l.clone()));
            }
            o.push(Ev::RecEnd(m.clone()));
        }
        V::Tup(m, n, xs) => {
            o.push(Ev::TupBegin(m.clone(), *n));
            for (t, i, x) in xs {
                o.push(Ev::TupValueBegin(t.clone(), i.clone()));
                lowered(&x.v, false, o);
                o.push(Ev::TupValueEnd(t.clone(), i.clone()));
            }
            o.push(Ev::TupEnd(m.clone()));
        }
        V::Enum(m, x) => {
            o.push(Ev::EnumBegin(m.clone()));
            if let Some(x) = x {
                lowered(&x.v, true, o);
            }
            o.push(Ev::EnumEnd(m.clone()));
        }
        V::Hinted(_, x) => lowered(&x.v, variant, o),
    }
}

/// Some(why) if a recursive stream has no call for this value
pub fn inexpressible(v: &V) -> Option<&'static str> {
    fn unhint(v: &V) -> &V {
        match v {
            V::Hinted(_, x) => unhint(&x.v),
            v => v,
        }
    }
    if let V::Enum(_, Some(x)) = v {
        match unhint(&x.v) {
            V::Enum(_, Some(y)) if matches!(unhint(&y.v), V::Rec(..) | V::Tup(..) | V::Rt(..)) => return Some("record or tuple in a nested enum"),
            V::Tag(_) | V::Tagged(..) | V::Rec(..) | V::Tup(..) | V::Rt(..) | V::Enum(..) => {}
            _ => return Some("untagged variant"),
        }
    }
    kids(v).into_iter().find_map(inexpressible)
}

/// through a recursive stream that rebuilds everything
pub fn rebuild<V: sval::Value + ?Sized>(v: &V) -> NR<Vec<Ev>> {
    let st = Rc::new(St { raw: false, fail_at: None, calls: Cell::new(0), failed: Cell::new(false), after: Cell::new(0) });
    sval_nested::stream_ref(Full(st), v)
}
/// through a recursive stream that implements as little as possible
pub fn rebuild_min<V: sval::Value + ?Sized>(v: &V) -> NR<Vec<Ev>> {
    sval_nested::stream_ref(Min, v)
}

/// whether each non-empty text or binary, in order, has to arrive as borrowed
fn borrows(v: &V, keep: bool, o: &mut Vec<bool>) {
    fn leaf(v: &V) -> bool {
        match v {
            V::Text(..) | V::Bin(..) => true,
            V::Hinted(_, x) => leaf(&x.v),
            _ => false,
        }
    }
    let kid = |x: &C, keep: bool, o: &mut Vec<bool>| borrows(&x.v, keep && (x.mode == Mode::Value || x.mode == Mode::Inline && leaf(&x.v)), o);
    match v {
        V::Text(_, fs) => {
            if fs.iter().any(|f| !f.data.is_empty()) {
                o.push(keep && fs.len() == 1 && fs[0].borrowed);
            }
        }
        V::Bin(_, fs) => {
            if fs.iter().any(|f| !f.data.is_empty()) {
                o.push(keep && fs.len() == 1 && fs[0].borrowed);
            }
        }
        V::Hinted(_, x) => borrows(&x.v, keep && x.mode != Mode::Computed, o),
        // the variant continues the enum whichever way it is streamed
        V::Enum(_, Some(x)) => borrows(&x.v, keep && x.mode != Mode::Computed, o),
        V::Seq(_, xs) => xs.iter().for_each(|x| kid(x, keep, o)),
        V::Map(_, xs) => xs.iter().for_each(|(k, x)| {
            kid(k, keep, o);
            kid(x, keep, o);
        }),
        V::Tagged(_, x) => kid(x, keep, o),
        V::Rec(_, _, xs) => xs.iter().for_each(|(_, _, x)| kid(x, keep, o)),
        V::Rt(_, _, xs) => xs.iter().for_each(|(_, _, _, x)| kid(x, keep, o)),
        V::Tup(_, _, xs) => xs.iter().for_each(|(_, _, x)| kid(x, keep, o)),
        _ => {}
    }
}
/// the same value with its direct children passed by reference
fn by_ref(v: &V) -> V {
    let mut v = v.clone();
    let f = |x: &mut C| x.mode = Mode::Value;
    match &mut v {
        V::Seq(_, xs) => xs.iter_mut().for_each(f),
        V::Map(_, xs) => xs.iter_mut().for_each(|(k, x)| {
            f(k);
            f(x);
        }),
        V::Rec(_, _, xs) => xs.iter_mut().for_each(|(_, _, x)| f(x)),
        V::Rt(_, _, xs) => xs.iter_mut().for_each(|(_, _, _, x)| f(x)),
        V::Tup(_, _, xs) => xs.iter_mut().for_each(|(_, _, x)| f(x)),
        V::Tagged(_, x) => f(x),
        V::Enum(_, Some(x)) => {
            let w = by_ref(&x.v);
            x.v = w;
            f(x);
        }
        _ => {}
    }
    v
}
fn drive<'a, S: Stream<'a>>(s: S, v: &'a V) -> NR<S::Ok> {
    fn t(m: &M) -> Option<Tag> {
        m.tag.clone()
    }
    fn l(m: &M) -> Option<Label<'_>> {
        m.label.as_ref().map(|l| l.label())
    }
    fn i(m: &M) -> Option<Index> {
        m.index.as_ref().map(|i| i.index())
    }
    match v {
        V::Seq(n, xs) => {
            let mut q = s.seq_begin(*n)?;
            for x in xs {
                q.value_ref(&x.v)?;
            }
            q.end()
        }
        V::Map(n, xs) => {
            let mut q = s.map_begin(*n)?;
            for (k, x) in xs {
                q.key_ref(&k.v)?;
                q.value_ref(&x.v)?;
            }
            q.end()
        }
        V::Tup(m, n, xs) => {
            let mut q = s.tuple_begin(t(m), l(m), i(m), *n)?;
            for (t, i, x) in xs {
                q.value_ref(t.clone(), i.index(), &x.v)?;
            }
            q.end()
        }
        V::Rec(m, n, xs) => {
            let mut q = s.record_begin(t(m), l(m), i(m), *n)?;
            for (t, l, x) in xs {
                q.value_ref(t.clone(), l.label(), &x.v)?;
            }
            q.end()
        }
        V::Tagged(m, x) => s.tagged_ref(t(m), l(m), i(m), &x.v),
        V::Enum(m, Some(x)) if matches!(x.v, V::Tagged(..) | V::Tag(_) | V::Tup(..) | V::Rec(..)) => {
            let e = s.enum_begin(t(m), l(m), i(m))?;
            match &x.v {
                V::Tagged(m, x) => e.tagged_ref(t(m), l(m), i(m), &x.v),
                V::Tag(m) => e.tag(t(m), l(m), i(m)),
                V::Tup(m, n, xs) => {
                    let mut q = e.tuple_begin(t(m), l(m), i(m), *n)?;
                    for (t, i, x) in xs {
                        q.value_ref(t.clone(), i.index(), &x.v)?;
                    }
                    q.end()
                }
                V::Rec(m, n, xs) => {
                    let mut q = e.record_begin(t(m), l(m), i(m), *n)?;
                    for (t, l, x) in xs {
                        q.value_ref(t.clone(), l.label(), &x.v)?;
                    }
                    q.end()
                }
                _ => unreachable!(),
            }
        }
        v => s.value_ref(v),
    }
}
fn go_play<'a, S: Stream<'a>>(entry: usize, st: S, p: &'a Play) -> NR<S::Ok> {
    match entry {
        0 => sval_nested::stream(st, sval_ref::to_ref(p)),
        1 => sval_nested::stream_ref(st, p),
        2 => sval_nested::stream_computed(st, p),
        3 => st.value(sval_ref::to_ref(p)),
        _ => st.value_computed(p),
    }
}

fn c17(cx: &mut Ctx) -> R {
    let s = &mut cx.src;
    let c = cfg(s);
    let mut v = gen(s, &c);
    // sometimes put something into an enum that isn't a variant
    if s.chance(1, 40) {
        let c = crate::val::C { mode: *s.pick(&[Mode::Inline, Mode::Value, Mode::Computed]), v };
        v = V::Enum(M::default(), Some(Box::new(c)));
    }
    let why = inexpressible(&v);
    let raw = s.bool();
    let entry = s.n(5);
    let fault = s.weighted(&[6, 2, 2, 3]);
    cx.nontrivial_if(depth(&v) >= 3);
    let evs = events(&v);
    let exp = norm(&evs, false);
    cx.sample(|| format!("{exp:?}"));
    cx.class_if(why.is_some(), "inexpressible");
    cx.class(["stream", "stream_ref", "stream_computed", "value", "value_computed"][entry]);
    fn go<'a, S: Stream<'a>>(entry: usize, st: S, v: &'a V) -> NR<S::Ok> {
        match entry {
            0 => sval_nested::stream(st, sval_ref::to_ref(v)),
            1 => sval_nested::stream_ref(st, v),
            2 => sval_nested::stream_computed(st, v),
            3 => st.value(sval_ref::to_ref(v)),
            _ => st.value_computed(v),
        }
    }
    let new = |fail_at| Rc::new(St { raw, fail_at, calls: Cell::new(0), failed: Cell::new(false), after: Cell::new(0) });
    let st = new(None);
    let r = go(entry, Full(st.clone()), &v);
    let calls = st.calls.get();
    match (why, r) {
        (Some(_), Err(_)) => {}
        // flat recording of children never sees what is inside them
        (Some(_), Ok(_)) if raw => {}
        (Some(w), Ok(got)) => return fail(format!("{w}: expected an error, got {got:?}")),
        (None, Err(e)) => return fail(format!("streaming failed: {e}")),
        (None, Ok(got)) => {
            let g = norm(&got, false);
            ensure!(g == exp, "recursive stream: {}", diff(&exp, &g));
            // a borrowed text or binary is handed on as borrowed
            if entry != 2 && entry != 4 {
                let mut must = Vec::new();
                borrows(&v, true, &mut must);
                let is: Vec<bool> = got.iter().filter_map(|e| match e {
                    Ev::TextFrag(t, b) if !t.is_empty() => Some(*b),
                    Ev::BinFrag(t, b) if !t.is_empty() => Some(*b),
                    _ => None,
                }).collect();
                cx.class_if(must.contains(&true), "borrowed text");
                // children recorded flat may be split into fragments
                if !raw || is.len() == must.len() {
                    ensure!(is.len() == must.len(), "{} texts expected in {got:?}", must.len());
                    ensure!(is.iter().zip(&must).all(|(is, must)| *is || !*must), "a borrowed text arrived as computed: {got:?}, expected {must:?}");
                }
            }
        }
    }
    // driving a recursive stream by hand, with borrowed children
    if cx.src.chance(1, 4) {
        cx.class("driven by hand");
        let w = by_ref(&v);
        let exp = norm(&events(&w), false);
        match (inexpressible(&w), drive(Full(new(None)), &w)) {
            (Some(_), Err(_)) => {}
            (Some(_), Ok(_)) if raw => {}
            (Some(y), Ok(got)) => return fail(format!("{y} (by hand): expected an error, got {got:?}")),
            (None, Err(e)) => return fail(format!("driving by hand failed: {e}")),
            (None, Ok(got)) => {
                let g = norm(&got, false);
                ensure!(g == exp, "recursive stream driven by hand: {}", diff(&exp, &g));
                let mut must = Vec::new();
                borrows(&w, true, &mut must);
                let is: Vec<bool> = got.iter().filter_map(|e| match e {
                    Ev::TextFrag(t, b) if !t.is_empty() => Some(*b),
                    Ev::BinFrag(t, b) if !t.is_empty() => Some(*b),
                    _ => None,
                }).collect();
                if !raw {
                    ensure!(is.iter().zip(&must).all(|(is, must)| *is || !*must), "a borrowed text arrived as computed: {got:?}, expected {must:?}");
                }
            }
        }
    }
    // two values in place of one
    if cx.src.chance(1, 8) && why.is_none() {
        cx.class("two values");
        let mut p = evs.clone();
        let c2 = crate::val::Cfg { nodes: 3, depth: 2, ..Cfg::default() };
        let w = gen(&mut cx.src, &c2);
        p.extend(events(&w));
        let p = Play(p);
        let r = go_play(entry, Full(new(None)), &p);
        ensure!(r.is_err(), "two values streamed as {:?}", r.ok());
    }
    let r = go(entry, Min, &v);
    match (why, r) {
        (Some(_), Err(_)) => {}
        (Some(w), Ok(got)) => return fail(format!("{w} (minimal stream): expected an error, got {got:?}")),
        (None, Err(e)) => return fail(format!("streaming to a minimal stream failed: {e}")),
        (None, Ok(got)) => {
            let mut exp = Vec::new();
            lowered(&v, false, &mut exp);
            ensure!(got == exp, "minimal stream: {}", diff(&exp, &got));
        }
    }
    match fault {
        // the value fails
        1 | 3 => {
            cx.class("failing value");
            let k = cx.src.n(evs.len() + 1);
            let mut p = evs[..k].to_vec();
            p.push(Ev::Fail);
            if cx.src.bool() {
                p.extend_from_slice(&evs[k..]);
            }
            let p = Play(p);
            let st = new(None);
            let r = match entry {
                0 | 3 => Full(st).value(sval_ref::to_ref(&p)),
                1 => sval_nested::stream_ref(Full(st), &p),
                _ => sval_nested::stream_computed(Full(st), &p),
            };
            ensure!(r.is_err(), "a value that fails at call {k} of {} streamed as {:?}", evs.len(), r.ok());
            let r = match entry {
                0 | 3 => Min.value(sval_ref::to_ref(&p)),
                1 => sval_nested::stream_ref(Min, &p),
                _ => sval_nested::stream_computed(Min, &p),
            };
            ensure!(r.is_err(), "a value that fails at call {k} of {} streamed to a minimal stream as {:?}", evs.len(), r.ok());
        }
        // the stream fails
        2 if calls > 0 => {
            cx.class("failing stream");
            let k = cx.src.n(calls);
            let st = new(Some(k));
            let r = go(entry, Full(st.clone()), &v);
            ensure!(r.is_err(), "the recursive stream failed at call {k}, but streaming gave {:?}", r.ok());
            ensure!(st.after.get() == 0, "{} calls arrived after the recursive stream failed", st.after.get());
        }
        _ => {}
    }
    Ok(())
}

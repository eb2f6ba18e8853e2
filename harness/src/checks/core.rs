//! C12-C15, C20: the core traits, wrappers and data types.
use crate::engine::*;
use crate::ensure;
use crate::ev::*;
use crate::val::*;
use std::collections::{BTreeMap, HashMap};
use std::hash::{Hash, Hasher};
use sval::{tags, Index, Label, Stream, Tag, Value};

pub fn cfg(s: &mut Src) -> Cfg {
    let big = s.chance(1, 15);
    Cfg { nodes: if big { 60 } else { 16 }, depth: if big { 9 } else { 5 }, ..Cfg::default() }
}

// ------------------------------------------------------------------ C12

pub static C12: Check = Check {
    id: "C12",
    rule: "random value trees streamed through random stacks of value wrappers (&, &mut, Box, dyn sval_dynamic::Value with and without Send/Sync, sval_ref::Ref, slices/Vec/arrays/tuples by reference) and stream wrappers (&mut, Box, dyn sval_dynamic::Stream with and without Send/Sync, the computed adapter), optionally with the underlying stream failing at a random call; the recorded calls must equal the model's; non-trivial = at least 3 nodes",
    quick: 1_200_000,
    thorough: 15_000_000,
    run: c12,
    assumptions: &["computed adapters may turn borrowed fragments into computed ones, nothing else may change"],
};
/// pass the value through the selected value wrapper, then stream it
fn through_value<'a, S: Stream<'a> + ?Sized>(w: usize, v: &'a V, boxed: &'a Box<V>, dynv: &'a Box<dyn sval_dynamic::Value + 'a>, vref: &'a &'a V, s: &mut S) -> sval::Result {
    match w {
        0 => v.stream(s),
        1 => vref.stream(s),
        2 => boxed.stream(s),
        3 => {
            let d: &'a dyn sval_dynamic::Value = v;
            d.stream(s)
        }
        4 => dynv.stream(s),
        5 => {
            let d: &'a (dyn sval_dynamic::Value + Send) = v;
            d.stream(s)
        }
        6 => {
            let d: &'a (dyn sval_dynamic::Value + Send + Sync) = v;
            d.stream(s)
        }
        7 => sval_ref::stream_ref(s, sval_ref::to_ref(v)),
        8 => sval_ref::stream_ref(s, &Box::new(sval_ref::Ref::new(v))),
        9 => s.value(v),
        10 => s.value(vref),
        11 => s.value(dynv),
        12 => sval::stream(s, v),
        13 => {
            let r: &'a sval_ref::Ref<V> = sval_ref::Ref::new_borrowed(v);
            r.stream(s)
        }
        14 => s.value_computed(v),
        15 => sval::stream_computed(s, v),
        _ => {
            let d: &dyn sval_dynamic::Value = v;
            sval::stream_computed(s, d)
        }
    }
}
const VW: usize = 17;
const COMPUTED_FROM: usize = 14;
fn c12(cx: &mut Ctx) -> R {
    if cx.src.chance(1, 10) {
        return c12_ref_containers(cx);
    }
    let c = cfg(&mut cx.src);
    let v = gen(&mut cx.src, &c);
    let boxed = Box::new(v.clone());
    let evs = events(&v);
    let w = cx.src.n(VW);
    let sw = cx.src.n(8);
    let fail_at = if cx.src.chance(1, 3) { Some(cx.src.n(evs.len() + 1)) } else { None };
    cx.nontrivial_if(size(&v) >= 3);
    cx.sample(|| format!("value wrapper {w}, stream wrapper {sw}, fail at {fail_at:?}, {v:?}"));
    cx.class_if(fail_at.is_some(), "stream fails");
    cx.class(["stream direct", "stream &mut", "stream Box", "dyn Stream", "Box<dyn Stream>", "dyn Stream+Send", "dyn Stream+Send+Sync", "dyn over dyn"][sw]);
    let vref = &v;
    let dynv: Box<dyn sval_dynamic::Value + '_> = Box::new(&v);
    let mut rec = Rec::new();
    rec.fail_at = fail_at;
    let r = {
        let go = |s: &mut dyn FnMut() -> sval::Result| s();
        let _ = go;
        match sw {
            0 => through_value(w, &v, &boxed, &dynv, &vref, &mut rec),
            1 => {
                let mut m = &mut rec;
                through_value(w, &v, &boxed, &dynv, &vref, &mut m)
            }
            2 => {
                let mut m = Box::new(&mut rec);
                through_value(w, &v, &boxed, &dynv, &vref, &mut m)
            }
            3 => {
                let m: &mut dyn sval_dynamic::Stream = &mut rec;
                through_value(w, &v, &boxed, &dynv, &vref, m)
            }
            4 => {
                let mut m: Box<dyn sval_dynamic::Stream> = Box::new(&mut rec);
                through_value(w, &v, &boxed, &dynv, &vref, &mut m)
            }
            5 => {
                let m: &mut (dyn sval_dynamic::Stream + Send) = &mut rec;
                through_value(w, &v, &boxed, &dynv, &vref, m)
            }
            6 => {
                let m: &mut (dyn sval_dynamic::Stream + Send + Sync) = &mut rec;
                through_value(w, &v, &boxed, &dynv, &vref, m)
            }
            _ => {
                let mut m: &mut dyn sval_dynamic::Stream = &mut rec;
                let mm: &mut dyn sval_dynamic::Stream = &mut m;
                through_value(w, &v, &boxed, &dynv, &vref, mm)
            }
        }
    };
    let exp = if w >= COMPUTED_FROM { norm_computed(&evs) } else { evs };
    match fail_at {
        Some(k) if k < exp.len() => {
            ensure!(r.is_err(), "the stream failed at call {k} but the wrapper returned Ok");
            ensure!(rec.after_fail == 0, "{} calls were made after the stream failed", rec.after_fail);
            ensure!(rec.evs == exp[..k], "{}", diff(&exp[..k], &rec.evs));
        }
        _ => {
            ensure!(r.is_ok(), "streaming through the wrapper failed");
            ensure!(rec.evs == exp, "{}", diff(&exp, &rec.evs));
        }
    }
    Ok(())
}
/// sval_ref's impls for slices, arrays, Vec and tuples equal sval's own
fn c12_ref_containers(cx: &mut Ctx) -> R {
    cx.class("ref containers");
    let n = cx.src.weighted(&[1, 2, 2, 3, 4, 4]);
    let c = Cfg { nodes: 5, depth: 3, ..Cfg::default() };
    let vs: Vec<V> = (0..n).map(|_| gen(&mut cx.src, &c)).collect();
    let refs: Vec<sval_ref::Ref<&V>> = vs.iter().map(sval_ref::Ref::new).collect();
    cx.nontrivial_if(n >= 1);
    cx.sample(|| format!("{vs:?}"));
    let mut exp = vec![Ev::SeqBegin(Some(n))];
    for v in &vs {
        exp.push(Ev::SeqValueBegin);
        exp.extend(events(v));
        exp.push(Ev::SeqValueEnd);
    }
    exp.push(Ev::SeqEnd);
    let get = |f: &dyn Fn(&mut Rec) -> sval::Result| -> Result<Vec<Ev>, Fail> {
        let mut r = Rec::new();
        match f(&mut r) {
            Ok(()) => Ok(r.evs),
            Err(_) => fail("streaming by reference failed"),
        }
    };
    let g = get(&|r| sval_ref::stream_ref(r, &refs))?;
    ensure!(g == exp, "Vec by reference: {}", diff(&exp, &g));
    let g = get(&|r| sval_ref::stream_ref(r, refs.as_slice()))?;
    ensure!(g == exp, "slice by reference: {}", diff(&exp, &g));
    let g = get(&|r| Value::stream(&vs, r))?;
    ensure!(g == exp, "Vec: {}", diff(&exp, &g));
    if n >= 2 {
        let cs = M { tag: Some(tags::CONSTANT_SIZE), ..M::default() };
        let mut e2 = vec![Ev::TaggedBegin(cs.clone()), Ev::SeqBegin(Some(2))];
        for v in &vs[..2] {
            e2.push(Ev::SeqValueBegin);
            e2.extend(events(v));
            e2.push(Ev::SeqValueEnd);
        }
        e2.push(Ev::SeqEnd);
        e2.push(Ev::TaggedEnd(cs));
        let g = get(&|r| sval_ref::stream_ref(r, &[refs[0], refs[1]]))?;
        ensure!(g == e2, "array by reference: {}", diff(&e2, &g));
    }
    // tuples of every arity
    macro_rules! tup {
        ($($len:literal => [$($i:tt)+],)+) => {{
            $(
                if n > 0 {
                    let mut e = vec![Ev::TupBegin(M::default(), Some($len))];
                    $(
                        let ix = Ix { v: $i, tag: Some(tags::VALUE_OFFSET) };
                        e.push(Ev::TupValueBegin(None, ix.clone()));
                        e.extend(events(&vs[$i % n]));
                        e.push(Ev::TupValueEnd(None, ix));
                    )+
                    e.push(Ev::TupEnd(M::default()));
                    let t = ($(refs[$i % n],)+);
                    let g = get(&|r| sval_ref::stream_ref(r, &t))?;
                    ensure!(g == e, "tuple of {} by reference: {}", $len, diff(&e, &g));
                    let t = ($(&vs[$i % n],)+);
                    let g = get(&|r| Value::stream(&t, r))?;
                    ensure!(g == e, "tuple of {}: {}", $len, diff(&e, &g));
                }
            )+
        }};
    }
    tup!(1 => [0], 2 => [0 1], 3 => [0 1 2], 4 => [0 1 2 3], 5 => [0 1 2 3 4], 6 => [0 1 2 3 4 5], 7 => [0 1 2 3 4 5 6], 8 => [0 1 2 3 4 5 6 7],
        9 => [0 1 2 3 4 5 6 7 8], 10 => [0 1 2 3 4 5 6 7 8 9], 11 => [0 1 2 3 4 5 6 7 8 9 10], 12 => [0 1 2 3 4 5 6 7 8 9 10 11], 13 => [0 1 2 3 4 5 6 7 8 9 10 11 12],
        14 => [0 1 2 3 4 5 6 7 8 9 10 11 12 13], 15 => [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14], 16 => [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15],);
    Ok(())
}

// ------------------------------------------------------------------ C13

pub static C13: Check = Check {
    id: "C13",
    rule: "random value trees streamed into (a) a stream with only the required methods, whose calls are decoded into a tree and compared with an independently computed lowering, and (b) a stream overriding a random subset of optional method groups (all 2^18 subsets reachable), whose calls must be balanced, use only overridden or required methods, and lower further to exactly the same required-only calls; non-trivial = at least 3 nodes",
    quick: 1_200_000,
    thorough: 15_000_000,
    run: c13,
    assumptions: &["methods that only make sense together (map_*, binary_*, tagged_*, enum_*) are overridden together"],
};
/// what a required-only stream can see
#[derive(Clone, Debug, PartialEq)]
enum L {
    Null,
    Bool(bool),
    I64(i64),
    F64(u64),
    Text(String),
    Seq(Option<usize>, Vec<L>),
    Nothing,
}
fn lower(v: &V) -> L {
    let seq = |n: &Option<usize>, xs: Vec<L>| L::Seq(*n, xs);
    match v {
        V::Null => L::Null,
        V::Bool(b) => L::Bool(*b),
        V::Num(n) => match n.text().parse::<i64>() {
            Ok(x) => L::I64(x),
            Err(_) => L::Text(n.text()),
        },
        V::F32(x) => L::F64((*x as f64).to_bits()),
        V::F64(x) => L::F64(x.to_bits()),
        V::Text(_, f) => L::Text(text_of(f)),
        V::Bin(n, f) => seq(n, bytes_of(f).into_iter().map(|b| L::I64(b as i64)).collect()),
        V::Seq(n, xs) => seq(n, xs.iter().map(|x| lower(&x.v)).collect()),
        V::Map(n, xs) => seq(n, xs.iter().map(|(k, v)| L::Seq(Some(2), vec![lower(&k.v), lower(&v.v)])).collect()),
        V::Tag(m) => match (&m.tag, &m.label) {
            (Some(t), _) if *t == tags::RUST_OPTION_NONE => L::Null,
            (_, Some(l)) => L::Text(l.text.clone()),
            _ => L::Null,
        },
        V::Tagged(_, x) | V::Hinted(_, x) => lower(&x.v),
        V::Rec(_, n, xs) => seq(n, xs.iter().map(|(_, l, x)| L::Seq(Some(2), vec![L::Text(l.text.clone()), lower(&x.v)])).collect()),
        V::Rt(_, n, xs) => seq(n, xs.iter().map(|(_, l, _, x)| L::Seq(Some(2), vec![L::Text(l.text.clone()), lower(&x.v)])).collect()),
        V::Tup(_, n, xs) => seq(n, xs.iter().map(|(_, _, x)| lower(&x.v)).collect()),
        V::Enum(_, None) => L::Nothing,
        V::Enum(_, Some(x)) => lower(&x.v),
    }
}
/// decode required-only calls; any imbalance is an error
fn decode(evs: &[Ev], i: &mut usize) -> Result<L, String> {
    let e = evs.get(*i).cloned();
    *i += 1;
    match e {
        Some(Ev::Null) => Ok(L::Null),
        Some(Ev::Bool(b)) => Ok(L::Bool(b)),
        Some(Ev::Num(Num::I64(x))) => Ok(L::I64(x)),
        Some(Ev::F64(x)) => Ok(L::F64(x)),
        Some(Ev::TextBegin(n)) => {
            let mut t = String::new();
            loop {
                match evs.get(*i) {
                    Some(Ev::TextFrag(s, _)) => t.push_str(s),
                    Some(Ev::TextEnd) => break,
                    o => return Err(format!("{o:?} inside text")),
                }
                *i += 1;
            }
            *i += 1;
            if let Some(n) = n {
                if n != t.len() {
                    return Err(format!("text hint {n} for {} bytes", t.len()));
                }
            }
            Ok(L::Text(t))
        }
        Some(Ev::SeqBegin(n)) => {
            let mut xs = Vec::new();
            loop {
                match evs.get(*i) {
                    Some(Ev::SeqValueBegin) => {
                        *i += 1;
                        // an empty enum has no value at all
                        if evs.get(*i) == Some(&Ev::SeqValueEnd) {
                            xs.push(L::Nothing);
                        } else {
                            xs.push(decode(evs, i)?);
                        }
                        if evs.get(*i) != Some(&Ev::SeqValueEnd) {
                            return Err(format!("{:?} instead of the end of an element", evs.get(*i)));
                        }
                        *i += 1;
                    }
                    Some(Ev::SeqEnd) => break,
                    o => return Err(format!("{o:?} inside a sequence")),
                }
            }
            *i += 1;
            Ok(L::Seq(n, xs))
        }
        e => Err(format!("unexpected {e:?}")),
    }
}
fn c13(cx: &mut Ctx) -> R {
    let c = cfg(&mut cx.src);
    let v = gen(&mut cx.src, &c);
    cx.nontrivial_if(size(&v) >= 3);
    let mut min = MinRec::default();
    ensure!(v.stream(&mut min).is_ok(), "a stream with only required methods makes streaming fail");
    let exp = lower(&v);
    if exp == L::Nothing {
        ensure!(min.evs.is_empty(), "an empty enum lowers to {:?}", min.evs);
    } else {
        let mut i = 0;
        match decode(&min.evs, &mut i) {
            Ok(l) => {
                ensure!(i == min.evs.len(), "calls left over after the value: {:?}", &min.evs[i..]);
                ensure!(l == exp, "lowered to {l:?}, expected {exp:?}");
            }
            Err(e) => return fail(format!("lowered calls are not well formed: {e} in {:?}", min.evs)),
        }
    }
    // groups of optional methods
    const G: &[(&[u32], &str)] = &[
        (&[0], "text_fragment"), (&[1, 2, 3, 4], "binary"), (&[5], "u8"), (&[6], "u16"), (&[7], "u32"), (&[8], "u64"), (&[9], "u128"), (&[10], "i8"),
        (&[11], "i16"), (&[12], "i32"), (&[13], "i128"), (&[14], "f32"), (&[15, 16, 17, 18, 19, 20], "map"), (&[21, 22], "enum"), (&[23, 24], "tagged"),
        (&[25], "tag"), (&[26], "tag_hint"), (&[27], "record"), (&[28], "tuple"), (&[29], "record_tuple"),
    ];
    let mut mask = 0u64;
    let bits = cx.src.below(1 << G.len());
    for (k, (g, _)) in G.iter().enumerate() {
        if bits >> k & 1 == 1 {
            for b in *g {
                mask |= 1 << b;
            }
        }
    }
    cx.sample(|| format!("overridden {:?}, {v:?}", G.iter().enumerate().filter(|(k, _)| bits >> k & 1 == 1).map(|(_, g)| g.1).collect::<Vec<_>>()));
    let mut r = Rec::masked(mask);
    ensure!(v.stream(&mut r).is_ok(), "streaming into a partial stream failed");
    let on = |b: u32| mask >> b & 1 == 1;
    for e in &r.evs {
        use Ev::*;
        let bit = match e {
            TextFrag(_, true) => Some(0),
            BinBegin(_) | BinFrag(..) | BinEnd => Some(1),
            Ev::Num(n) => match n {
                crate::ev::Num::U8(_) => Some(5),
                crate::ev::Num::U16(_) => Some(6),
                crate::ev::Num::U32(_) => Some(7),
                crate::ev::Num::U64(_) => Some(8),
                crate::ev::Num::U128(_) => Some(9),
                crate::ev::Num::I8(_) => Some(10),
                crate::ev::Num::I16(_) => Some(11),
                crate::ev::Num::I32(_) => Some(12),
                crate::ev::Num::I128(_) => Some(13),
                _ => None,
            },
            F32(_) => Some(14),
            MapBegin(_) | MapKeyBegin | MapKeyEnd | MapValueBegin | MapValueEnd | MapEnd => Some(15),
            EnumBegin(_) | EnumEnd(_) => Some(21),
            TaggedBegin(_) | TaggedEnd(_) => Some(23),
            Ev::Tag(_) => Some(25),
            Hint(_) => Some(26),
            RecBegin(..) | RecValueBegin(..) | RecValueEnd(..) | RecEnd(..) => Some(27),
            TupBegin(..) | TupValueBegin(..) | TupValueEnd(..) | TupEnd(..) => Some(28),
            RtBegin(..) | RtValueBegin(..) | RtValueEnd(..) | RtEnd(..) => Some(29),
            _ => None,
        };
        if let Some(b) = bit {
            ensure!(on(b), "call {e:?} recorded although it is not overridden");
        }
    }
    // values keep their full form where the method is overridden
    if mask & 0x3fff_ffff == 0x3fff_ffff {
        let e = events(&v);
        ensure!(r.evs == e, "{}", diff(&e, &r.evs));
    }
    let again = Play(r.evs);
    let mut min2 = MinRec::default();
    ensure!(again.stream(&mut min2).is_ok(), "lowering the partially lowered calls failed");
    let (a, b) = (norm_frags(&min.evs), norm_frags(&min2.evs));
    ensure!(a == b, "partial lowering differs from full lowering: {}", diff(&a, &b));
    // begin/end pairs of the partial form match
    balanced(&again.0).map_err(|e| Fail { msg: format!("partial lowering is unbalanced: {e}") })
}
/// every begin has its end with equal arguments
pub fn balanced(evs: &[Ev]) -> Result<(), String> {
    let mut st: Vec<Ev> = Vec::new();
    for e in evs {
        use Ev::*;
        let close: Option<Ev> = match e {
            TextEnd => Some(TextBegin(None)),
            BinEnd => Some(BinBegin(None)),
            MapKeyEnd => Some(MapKeyBegin),
            MapValueEnd => Some(MapValueBegin),
            MapEnd => Some(MapBegin(None)),
            SeqValueEnd => Some(SeqValueBegin),
            SeqEnd => Some(SeqBegin(None)),
            EnumEnd(m) => Some(EnumBegin(m.clone())),
            TaggedEnd(m) => Some(TaggedBegin(m.clone())),
            RecEnd(m) => Some(RecBegin(m.clone(), None)),
            RecValueEnd(t, l) => Some(RecValueBegin(t.clone(), l.clone())),
            TupEnd(m) => Some(TupBegin(m.clone(), None)),
            TupValueEnd(t, i) => Some(TupValueBegin(t.clone(), i.clone())),
            RtEnd(m) => Some(RtBegin(m.clone(), None)),
            RtValueEnd(t, l, i) => Some(RtValueBegin(t.clone(), l.clone(), i.clone())),
            _ => None,
        };
        if let Some(c) = close {
            let top = st.pop().map(|x| drop_sizes(&[x]).remove(0));
            if top.as_ref() != Some(&c) {
                return Err(format!("{e:?} closes {top:?}"));
            }
        } else if matches!(
            e,
            TextBegin(_) | BinBegin(_) | MapBegin(_) | MapKeyBegin | MapValueBegin | SeqBegin(_) | SeqValueBegin | EnumBegin(_) | TaggedBegin(_) | RecBegin(..) | RecValueBegin(..) | TupBegin(..) | TupValueBegin(..) | RtBegin(..) | RtValueBegin(..)
        ) {
            st.push(e.clone());
        }
    }
    if st.is_empty() {
        Ok(())
    } else {
        Err(format!("never closed: {st:?}"))
    }
}

// ------------------------------------------------------------------ C14

pub static C14: Check = Check {
    id: "C14",
    rule: "random scalars and trees (integers of all widths at every boundary, floats, bools, text and binary in random fragments, wrapped in tags, enums, hints, Option) cast with all 15 to_* methods and tag(), directly and through &, Box, dyn, Ref, Option and ValueBuf; compared with the model; values of the 52 built-in types of C15 cast like a value that makes the same calls; non-trivial = a scalar, text or binary value",
    quick: 4_000_000,
    thorough: 25_000_000,
    run: c14,
    assumptions: &["a cast between signed and unsigned may return None, but a Some must be the exact number"],
};
#[derive(Clone, Debug, PartialEq)]
enum Leaf {
    Bool(bool),
    Num(Num),
    F32(f32),
    F64(f64),
    /// content, whether it is exactly one borrowed fragment
    Text(String, bool),
    Bin(Vec<u8>, bool),
    Tag(Option<String>),
    Other,
}
fn leaf(v: &V, computed: bool) -> Leaf {
    match v {
        V::Bool(b) => Leaf::Bool(*b),
        V::Num(n) => Leaf::Num(n.clone()),
        V::F32(x) => Leaf::F32(*x),
        V::F64(x) => Leaf::F64(*x),
        V::Text(_, f) => Leaf::Text(text_of(f), f.len() == 1 && f[0].borrowed && !computed),
        V::Bin(_, f) => Leaf::Bin(bytes_of(f), f.len() == 1 && f[0].borrowed && !computed),
        V::Tagged(_, x) | V::Hinted(_, x) | V::Enum(_, Some(x)) => leaf(&x.v, computed || x.mode == Mode::Computed),
        V::Tag(m) => Leaf::Tag(m.label.as_ref().map(|l| l.text.clone())),
        _ => Leaf::Other,
    }
}
fn model_tag(v: &V) -> Option<Tag> {
    match v {
        V::Num(_) | V::F32(_) | V::F64(_) => Some(tags::NUMBER),
        V::Tag(m) | V::Tagged(m, _) | V::Enum(m, _) | V::Rec(m, ..) | V::Tup(m, ..) | V::Rt(m, ..) => m.tag.clone(),
        V::Hinted(_, x) => model_tag(&x.v),
        _ => None,
    }
}
fn casts(v: &(impl Value + ?Sized), l: &Leaf, exact_text: bool, who: &str) -> R {
    let b = v.to_bool();
    ensure!(b == if let Leaf::Bool(b) = l { Some(*b) } else { None }, "{who}: to_bool is {b:?}");
    let feq = |a: f64, b: f64| a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan());
    let f = v.to_f64();
    match (l, f) {
        (Leaf::F64(x), Some(f)) if feq(*x, f) => {}
        (Leaf::F32(x), Some(f)) if feq(*x as f64, f) => {}
        (Leaf::F64(_) | Leaf::F32(_), f) => return fail(format!("{who}: to_f64 of {l:?} is {f:?}")),
        (_, None) => {}
        (Leaf::Num(n), Some(f)) => ensure!(f.fract() == 0.0 && format!("{f:.0}") == n.text(), "{who}: to_f64 of {n:?} is {f:?}"),
        (_, Some(f)) => return fail(format!("{who}: to_f64 of {l:?} is {f:?}")),
    }
    let f = v.to_f32();
    match (l, f) {
        (Leaf::F32(x), Some(f)) if feq(*x as f64, f as f64) => {}
        (Leaf::F32(_), f) => return fail(format!("{who}: to_f32 of {l:?} is {f:?}")),
        (_, None) => {}
        (Leaf::F64(x), Some(f)) => ensure!(feq(*x, f as f64), "{who}: to_f32 of {x:?} is {f:?}"),
        (Leaf::Num(n), Some(f)) => ensure!(f.fract() == 0.0 && format!("{f:.0}") == n.text(), "{who}: to_f32 of {n:?} is {f:?}"),
        (_, Some(f)) => return fail(format!("{who}: to_f32 of {l:?} is {f:?}")),
    }
    macro_rules! int {
        ($m:ident, $t:ty, $signed:expr) => {{
            let got: Option<$t> = v.$m();
            match l {
                Leaf::Num(n) => {
                    let fits: Option<$t> = n.text().parse().ok();
                    let same_sign = matches!(n, Num::I8(_) | Num::I16(_) | Num::I32(_) | Num::I64(_) | Num::I128(_)) == $signed;
                    match got {
                        Some(g) => ensure!(Some(g) == fits, "{who}: {} of {n:?} is {g}", stringify!($m)),
                        None => ensure!(!(same_sign && fits.is_some()), "{who}: {} of {n:?} is None", stringify!($m)),
                    }
                }
                _ => ensure!(got.is_none(), "{who}: {} of {l:?} is {got:?}", stringify!($m)),
            }
        }};
    }
    int!(to_i8, i8, true);
    int!(to_i16, i16, true);
    int!(to_i32, i32, true);
    int!(to_i64, i64, true);
    int!(to_i128, i128, true);
    int!(to_u8, u8, false);
    int!(to_u16, u16, false);
    int!(to_u32, u32, false);
    int!(to_u64, u64, false);
    int!(to_u128, u128, false);
    let t = v.to_text();
    match l {
        Leaf::Text(s, one) => match t {
            Some(t) => ensure!(t == s && (*one || !exact_text), "{who}: to_text of {l:?} is {t:?}"),
            None => ensure!(!*one || !exact_text, "{who}: to_text of a borrowed string is None"),
        },
        Leaf::Tag(s) => ensure!(t.is_none() || t == s.as_deref(), "{who}: to_text of {l:?} is {t:?}"),
        _ => ensure!(t.is_none(), "{who}: to_text of {l:?} is {t:?}"),
    }
    let t = v.to_binary();
    match l {
        Leaf::Bin(s, one) => match t {
            Some(t) => ensure!(t == s && (*one || !exact_text), "{who}: to_binary of {l:?} is {t:?}"),
            None => ensure!(!*one || !exact_text, "{who}: to_binary of borrowed bytes is None"),
        },
        _ => ensure!(t.is_none(), "{who}: to_binary of {l:?} is {t:?}"),
    }
    Ok(())
}
/// the casts a built-in type overrides have to give what the casts of what it streams give
fn c14_types(cx: &mut Ctx) -> R {
    let k = cx.src.n(TYPES);
    let v = arb_any(&mut cx.src, k);
    let mut r = Rec::new();
    ensure!(v.put(&mut r).is_ok(), "streaming failed");
    let p = Play(r.evs);
    let (tag, casts) = v.casts();
    let (ptag, pcasts) = (p.tag(), super::hints::casts(&p));
    cx.class("built-in types");
    cx.nontrivial_if(tag.is_some() || casts.contains("Some"));
    cx.sample(|| format!("type {k}: {}", clip(&casts, 300)));
    ensure!(tag == ptag, "type {k}: tag() is {tag:?}, but {:?} is streamed, with tag {ptag:?}", p.0);
    ensure!(casts == pcasts, "type {k}: casts are {casts}, but those of the streamed {:?} are {pcasts}", p.0);
    Ok(())
}
fn c14(cx: &mut Ctx) -> R {
    if cx.src.chance(1, 8) {
        return c14_types(cx);
    }
    let mut c = Cfg { nodes: 4, depth: 3, ..Cfg::default() };
    c.nodes = 4;
    let kind = cx.src.n(6);
    let base = {
        let mut g = Gen { cfg: c.clone(), left: 4, s: &mut cx.src };
        match kind {
            0 => V::Num(gen_int(g.s)),
            1 => g.scalar(),
            2 => g.text(),
            3 => g.bin(),
            4 => V::Num(gen_int(g.s)),
            _ => g.any(3),
        }
    };
    let mut v = base;
    for _ in 0..cx.src.n(3) {
        let mode = [Mode::Inline, Mode::Value, Mode::Computed][cx.src.n(3)];
        let mut g = Gen { cfg: c.clone(), left: 2, s: &mut cx.src };
        let m = g.meta();
        v = match cx.src.n(3) {
            0 => V::Tagged(m, Box::new(C { mode, v })),
            1 => V::Hinted(TAGS[0].clone(), Box::new(C { mode, v })),
            _ => V::Enum(m, Some(Box::new(C { mode, v }))),
        };
    }
    let l = leaf(&v, false);
    cx.nontrivial_if(!matches!(l, Leaf::Other | Leaf::Tag(_)));
    cx.sample(|| format!("{v:?}"));
    casts(&v, &l, true, "value")?;
    casts(&&v, &l, true, "&value")?;
    let t = v.tag();
    let mt = model_tag(&v);
    ensure!(t == mt, "tag() is {t:?}, expected {mt:?}");
    match cx.src.n(6) {
        0 => {
            let b = Box::new(&v);
            casts(&b, &l, true, "Box")?;
            ensure!(b.tag() == mt, "Box: tag() differs");
        }
        1 => {
            let d: &dyn sval_dynamic::Value = &v;
            casts(d, &l, true, "dyn Value")?;
            casts(&d, &l, true, "&dyn Value")?;
            ensure!(Value::tag(d) == mt, "dyn: tag() differs");
            let d: Box<dyn sval_dynamic::Value + Send + Sync> = Box::new(v.clone());
            casts(&d, &l, true, "Box<dyn Value + Send + Sync>")?;
            let d: &(dyn sval_dynamic::Value + Send) = &v;
            casts(d, &l, true, "dyn Value + Send")?;
        }
        2 => {
            let r = sval_ref::Ref::new(&v);
            casts(&r, &l, true, "Ref")?;
            ensure!(r.tag() == mt, "Ref: tag() differs");
        }
        3 => {
            let o = Some(&v);
            casts(&o, &l, true, "Option")?;
            ensure!(o.tag() == Some(tags::RUST_OPTION_SOME), "Option: tag() is {:?}", o.tag());
            let n: Option<&V> = None;
            casts(&n, &Leaf::Other, true, "None")?;
        }
        4 => {
            let b = sval_buffer::ValueBuf::collect(&v).map_err(|e| Fail { msg: e.to_string() })?;
            casts(&b, &l, false, "ValueBuf")?;
            casts(&b.to_value(), &l, false, "Value")?;
        }
        _ => {
            // built-in impls
            match &l {
                Leaf::Num(n) => match *n {
                    Num::I8(x) => casts(&x, &l, true, "i8")?,
                    Num::I16(x) => casts(&x, &l, true, "i16")?,
                    Num::I32(x) => casts(&x, &l, true, "i32")?,
                    Num::I64(x) => casts(&x, &l, true, "i64")?,
                    Num::I128(x) => casts(&x, &l, true, "i128")?,
                    Num::U8(x) => casts(&x, &l, true, "u8")?,
                    Num::U16(x) => casts(&x, &l, true, "u16")?,
                    Num::U32(x) => casts(&x, &l, true, "u32")?,
                    Num::U64(x) => casts(&x, &l, true, "u64")?,
                    Num::U128(x) => casts(&x, &l, true, "u128")?,
                },
                Leaf::F32(x) => casts(x, &l, true, "f32")?,
                Leaf::F64(x) => casts(x, &l, true, "f64")?,
                Leaf::Bool(x) => casts(x, &l, true, "bool")?,
                Leaf::Text(s, _) => {
                    let l = Leaf::Text(s.clone(), true);
                    casts(s.as_str(), &l, true, "str")?;
                    casts(s, &l, true, "String")?;
                    casts(&sval_buffer::TextBuf::from(s.as_str()), &l, true, "TextBuf")?;
                }
                Leaf::Bin(s, _) => {
                    let l = Leaf::Bin(s.clone(), true);
                    casts(sval::BinarySlice::new(s), &l, true, "BinarySlice")?;
                    casts(&sval_buffer::BinaryBuf::from(s.as_slice()), &l, true, "BinaryBuf")?;
                    if s.len() >= 3 {
                        let a: &[u8; 3] = s[..3].try_into().unwrap();
                        casts(sval::BinaryArray::new(a), &Leaf::Bin(a.to_vec(), true), true, "BinaryArray")?;
                    }
                }
                _ => {}
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C15

pub static C15: Check = Check {
    id: "C15",
    rule: "random values of 52 concrete built-in types (all primitives, char, str/String, slices, Vec, arrays, tuples of arity 1-16, Option, Box, BTreeMap, HashMap, MapSlice, BinarySlice, BinaryArray, Display and Debug adapters, unit, Null and nestings of them) streamed and compared with the expected calls, reconstructing the value with exact size hints; wrappers give back what they wrap; non-trivial = not a bare primitive",
    quick: 4_800_000,
    thorough: 15_000_000,
    run: c15,
    assumptions: &["tag hints on labels and indexes are not compared"],
};
/// A Rust value that can be generated and knows the calls it should make.
pub trait Arb: Value {
    fn arb(s: &mut Src, d: usize) -> Self
    where
        Self: Sized;
    fn exp(&self, o: &mut Vec<Ev>);
}
macro_rules! arb_int {
    ($($t:ty, $v:ident;)+) => {$(
        impl Arb for $t {
            fn arb(s: &mut Src, _: usize) -> $t {
                match s.weighted(&[4, 2, 2, 2, 1]) {
                    0 => s.n(20) as $t,
                    4 => { let x = gen_int(s); x.i128().map(|x| x as $t).or(x.u128().map(|x| x as $t)).unwrap_or(0) }
                    1 => <$t>::MAX - s.n(3) as $t,
                    2 => <$t>::MIN + s.n(3) as $t,
                    _ => { let x = ((s.bits() as u128) << 64) | s.bits() as u128; (x >> s.n(128)) as $t }
                }
            }
            fn exp(&self, o: &mut Vec<Ev>) { o.push(Ev::Num(Num::$v(*self))) }
        }
    )+};
}
arb_int!(i8, I8; i16, I16; i32, I32; i64, I64; i128, I128; u8, U8; u16, U16; u32, U32; u64, U64; u128, U128;);
impl Arb for f32 {
    fn arb(s: &mut Src, _: usize) -> f32 {
        gen_f32(s)
    }
    fn exp(&self, o: &mut Vec<Ev>) {
        o.push(Ev::F32(self.to_bits()))
    }
}
impl Arb for f64 {
    fn arb(s: &mut Src, _: usize) -> f64 {
        gen_f64(s)
    }
    fn exp(&self, o: &mut Vec<Ev>) {
        o.push(Ev::F64(self.to_bits()))
    }
}
impl Arb for bool {
    fn arb(s: &mut Src, _: usize) -> bool {
        s.bool()
    }
    fn exp(&self, o: &mut Vec<Ev>) {
        o.push(Ev::Bool(*self))
    }
}
impl Arb for char {
    fn arb(s: &mut Src, _: usize) -> char {
        gen_char(s)
    }
    fn exp(&self, o: &mut Vec<Ev>) {
        text(&self.to_string(), false, o)
    }
}
fn text(t: &str, borrowed: bool, o: &mut Vec<Ev>) {
    o.push(Ev::TextBegin(Some(t.len())));
    o.push(Ev::TextFrag(t.into(), borrowed));
    o.push(Ev::TextEnd);
}
impl Arb for String {
    fn arb(s: &mut Src, _: usize) -> String {
        gen_text(s, 12)
    }
    fn exp(&self, o: &mut Vec<Ev>) {
        text(self, true, o)
    }
}
impl Arb for &'static str {
    fn arb(s: &mut Src, _: usize) -> Self {
        s.pick(LABELS)
    }
    fn exp(&self, o: &mut Vec<Ev>) {
        text(self, true, o)
    }
}
impl Arb for () {
    fn arb(_: &mut Src, _: usize) {}
    fn exp(&self, o: &mut Vec<Ev>) {
        o.push(Ev::Tag(M { tag: Some(tags::RUST_UNIT), ..M::default() }))
    }
}
impl Arb for sval::Null {
    fn arb(_: &mut Src, _: usize) -> sval::Null {
        sval::Null
    }
    fn exp(&self, o: &mut Vec<Ev>) {
        o.push(Ev::Null)
    }
}
impl<T: Arb> Arb for Option<T> {
    fn arb(s: &mut Src, d: usize) -> Self {
        if s.bool() {
            Some(T::arb(s, d))
        } else {
            None
        }
    }
    fn exp(&self, o: &mut Vec<Ev>) {
        match self {
            None => o.push(Ev::Tag(M { tag: Some(tags::RUST_OPTION_NONE), label: Some(Lb::stat("None")), index: Some(Ix::new(0)) })),
            Some(x) => {
                let m = M { tag: Some(tags::RUST_OPTION_SOME), label: Some(Lb::stat("Some")), index: Some(Ix::new(1)) };
                o.push(Ev::TaggedBegin(m.clone()));
                x.exp(o);
                o.push(Ev::TaggedEnd(m));
            }
        }
    }
}
fn seq<T: Arb>(xs: &[T], o: &mut Vec<Ev>) {
    o.push(Ev::SeqBegin(Some(xs.len())));
    for x in xs {
        o.push(Ev::SeqValueBegin);
        x.exp(o);
        o.push(Ev::SeqValueEnd);
    }
    o.push(Ev::SeqEnd);
}
/// a small count, or seldom a large one; the second number is how many are drawn anew
fn many(s: &mut Src) -> (usize, usize) {
    if s.chance(1, 200) && !s.huge {
        s.huge = true;
        (*s.pick(&[15usize, 16, 17, 31, 33, 64, 65, 127, 129, 255, 256, 257, 500, 1000, 1024, 1025, 4097]), 3)
    } else {
        let n = s.len(5);
        (n, n)
    }
}
impl<T: Arb> Arb for Vec<T> {
    fn arb(s: &mut Src, d: usize) -> Self {
        let (n, fresh) = many(s);
        if n == fresh {
            return (0..n).map(|_| T::arb(s, d)).collect();
        }
        // replay the same few draws over and over
        let seeds: Vec<u64> = (0..fresh).map(|_| s.bits()).collect();
        (0..n)
            .map(|i| {
                let mut q = Src::random(seeds[i % fresh]);
                q.huge = true;
                T::arb(&mut q, d)
            })
            .collect()
    }
    fn exp(&self, o: &mut Vec<Ev>) {
        seq(self, o)
    }
}
impl<T: Arb> Arb for Box<T> {
    fn arb(s: &mut Src, d: usize) -> Self {
        Box::new(T::arb(s, d))
    }
    fn exp(&self, o: &mut Vec<Ev>) {
        (**self).exp(o)
    }
}
impl<T: Arb, const N: usize> Arb for [T; N] {
    fn arb(s: &mut Src, d: usize) -> Self {
        std::array::from_fn(|_| T::arb(s, d))
    }
    fn exp(&self, o: &mut Vec<Ev>) {
        let m = M { tag: Some(tags::CONSTANT_SIZE), ..M::default() };
        o.push(Ev::TaggedBegin(m.clone()));
        seq(self, o);
        o.push(Ev::TaggedEnd(m));
    }
}
fn map<'a, K: Arb + 'a, W: Arb + 'a>(n: usize, xs: impl Iterator<Item = (&'a K, &'a W)>, o: &mut Vec<Ev>) {
    o.push(Ev::MapBegin(Some(n)));
    for (k, v) in xs {
        o.push(Ev::MapKeyBegin);
        k.exp(o);
        o.push(Ev::MapKeyEnd);
        o.push(Ev::MapValueBegin);
        v.exp(o);
        o.push(Ev::MapValueEnd);
    }
    o.push(Ev::MapEnd);
}
impl<K: Arb + Ord, W: Arb> Arb for BTreeMap<K, W> {
    fn arb(s: &mut Src, d: usize) -> Self {
        let (n, fresh) = many(s);
        if n == fresh {
            return (0..n).map(|_| (K::arb(s, d), W::arb(s, d))).collect();
        }
        let mut q = Src::random(s.bits());
        q.huge = true;
        (0..n).map(|_| (K::arb(&mut q, d), W::arb(&mut q, d))).collect()
    }
    fn exp(&self, o: &mut Vec<Ev>) {
        map(self.len(), self.iter(), o)
    }
}
impl<K: Arb + Hash + Eq, W: Arb> Arb for HashMap<K, W> {
    fn arb(s: &mut Src, d: usize) -> Self {
        let (n, fresh) = many(s);
        if n == fresh {
            return (0..n).map(|_| (K::arb(s, d), W::arb(s, d))).collect();
        }
        let mut q = Src::random(s.bits());
        q.huge = true;
        (0..n).map(|_| (K::arb(&mut q, d), W::arb(&mut q, d))).collect()
    }
    fn exp(&self, o: &mut Vec<Ev>) {
        map(self.len(), self.iter(), o)
    }
}
/// adapters that are only available by reference
pub struct Bin(pub Vec<u8>);
impl Value for Bin {
    fn stream<'sval, S: Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        s.value(sval::BinarySlice::new(&self.0))
    }
}
impl Arb for Bin {
    fn arb(s: &mut Src, _: usize) -> Bin {
        Bin(gen_bytes(s, 12))
    }
    fn exp(&self, o: &mut Vec<Ev>) {
        o.push(Ev::BinBegin(Some(self.0.len())));
        o.push(Ev::BinFrag(self.0.clone(), true));
        o.push(Ev::BinEnd);
    }
}
pub struct BinArr<const N: usize>([u8; N]);
impl<const N: usize> Value for BinArr<N> {
    fn stream<'sval, S: Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        s.value(sval::BinaryArray::new(&self.0))
    }
}
impl<const N: usize> Arb for BinArr<N> {
    fn arb(s: &mut Src, _: usize) -> Self {
        BinArr(std::array::from_fn(|_| s.n(256) as u8))
    }
    fn exp(&self, o: &mut Vec<Ev>) {
        let m = M { tag: Some(tags::CONSTANT_SIZE), ..M::default() };
        o.push(Ev::TaggedBegin(m.clone()));
        o.push(Ev::BinBegin(Some(N)));
        o.push(Ev::BinFrag(self.0.to_vec(), true));
        o.push(Ev::BinEnd);
        o.push(Ev::TaggedEnd(m));
    }
}
pub struct Pairs<K, W>(Vec<(K, W)>);
impl<K: Value, W: Value> Value for Pairs<K, W> {
    fn stream<'sval, S: Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        s.value(sval::MapSlice::new(&self.0))
    }
}
impl<K: Arb, W: Arb> Arb for Pairs<K, W> {
    fn arb(s: &mut Src, d: usize) -> Self {
        let (n, fresh) = many(s);
        if n == fresh {
            return Pairs((0..n).map(|_| (K::arb(s, d), W::arb(s, d))).collect());
        }
        let mut q = Src::random(s.bits());
        q.huge = true;
        Pairs((0..n).map(|_| (K::arb(&mut q, d), W::arb(&mut q, d))).collect())
    }
    fn exp(&self, o: &mut Vec<Ev>) {
        map(self.0.len(), self.0.iter().map(|(k, v)| (k, v)), o)
    }
}
/// text through Display or Debug in several pieces, by one of the adapters
pub struct Disp(Vec<String>, usize);
impl std::fmt::Display for Disp {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        // the adapters ask for the plain form
        if f.alternate() {
            f.write_str("#")?;
        }
        for x in &self.0 {
            f.write_str(x)?;
        }
        Ok(())
    }
}
impl std::fmt::Debug for Disp {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        // the adapters ask for the plain form
        if f.alternate() {
            f.write_str("#")?;
        }
        for x in &self.0 {
            f.write_fmt(format_args!("{x}"))?;
        }
        Ok(())
    }
}
impl Value for Disp {
    fn stream<'sval, S: Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        match self.1 {
            0 => s.value(sval::Display::new_borrowed(self)),
            1 => sval::stream_display(s, self),
            2 => s.value_computed(&sval::Display::new(self)),
            3 => {
                s.text_begin(None)?;
                sval::stream_display_fragments(s, self)?;
                s.text_end()
            }
            4 => sval_fmt::stream_debug(s, self),
            5 => sval_fmt::stream_display(s, self),
            6 => s.value(sval_fmt::DebugToValue::new_borrowed(self)),
            7 => s.value(sval_fmt::DisplayToValue::new_borrowed(self)),
            8 => s.value_computed(&sval_fmt::DebugToValue::new(self)),
            _ => s.value_computed(&sval_fmt::DisplayToValue::new(self)),
        }
    }
}
impl Arb for Disp {
    fn arb(s: &mut Src, _: usize) -> Disp {
        let n = s.len(4);
        Disp((0..n).map(|_| gen_text(s, 5)).collect(), s.n(10))
    }
    fn exp(&self, o: &mut Vec<Ev>) {
        text(&self.0.concat(), false, o)
    }
}
/// an arbitrary precision number
pub struct Number(Num);
impl Value for Number {
    fn stream<'sval, S: Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        sval::stream_number(s, self.0.text())
    }
}
impl Arb for Number {
    fn arb(s: &mut Src, _: usize) -> Number {
        Number(gen_int(s))
    }
    fn exp(&self, o: &mut Vec<Ev>) {
        let m = M { tag: Some(tags::NUMBER), ..M::default() };
        o.push(Ev::TaggedBegin(m.clone()));
        text(&self.0.text(), false, o);
        o.push(Ev::TaggedEnd(m));
    }
}
macro_rules! arb_tuple {
    ($($n:literal: $($t:ident $i:tt),+;)+) => {$(
        impl<$($t: Arb),+> Arb for ($($t,)+) {
            fn arb(s: &mut Src, d: usize) -> Self { ($($t::arb(s, d),)+) }
            fn exp(&self, o: &mut Vec<Ev>) {
                o.push(Ev::TupBegin(M::default(), Some($n)));
                $(
                    o.push(Ev::TupValueBegin(None, Ix::new($i)));
                    self.$i.exp(o);
                    o.push(Ev::TupValueEnd(None, Ix::new($i)));
                )+
                o.push(Ev::TupEnd(M::default()));
            }
        }
    )+};
}
arb_tuple! {
    1: A 0; 2: A 0, B 1; 3: A 0, B 1, C 2; 4: A 0, B 1, C 2, D 3; 5: A 0, B 1, C 2, D 3, E 4; 6: A 0, B 1, C 2, D 3, E 4, F 5;
    7: A 0, B 1, C 2, D 3, E 4, F 5, G 6; 8: A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7; 9: A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8;
    10: A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9; 11: A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10;
    12: A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11; 13: A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M2 12;
    14: A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M2 12, N 13;
    15: A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M2 12, N 13, O 14;
    16: A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M2 12, N 13, O 14, P 15;
}
/// forget tag hints of labels and indexes
pub fn no_hint_tags(evs: &[Ev]) -> Vec<Ev> {
    fn l(x: Lb) -> Lb {
        Lb { tag: None, ..x }
    }
    fn i(x: Ix) -> Ix {
        Ix { tag: None, ..x }
    }
    fn m(x: M) -> M {
        M { tag: x.tag, label: x.label.map(l), index: x.index.map(i) }
    }
    evs.iter()
        .cloned()
        .map(|e| match e {
            Ev::EnumBegin(x) => Ev::EnumBegin(m(x)),
            Ev::EnumEnd(x) => Ev::EnumEnd(m(x)),
            Ev::TaggedBegin(x) => Ev::TaggedBegin(m(x)),
            Ev::TaggedEnd(x) => Ev::TaggedEnd(m(x)),
            Ev::Tag(x) => Ev::Tag(m(x)),
            Ev::RecBegin(x, n) => Ev::RecBegin(m(x), n),
            Ev::RecValueBegin(t, x) => Ev::RecValueBegin(t, l(x)),
            Ev::RecValueEnd(t, x) => Ev::RecValueEnd(t, l(x)),
            Ev::RecEnd(x) => Ev::RecEnd(m(x)),
            Ev::TupBegin(x, n) => Ev::TupBegin(m(x), n),
            Ev::TupValueBegin(t, x) => Ev::TupValueBegin(t, i(x)),
            Ev::TupValueEnd(t, x) => Ev::TupValueEnd(t, i(x)),
            Ev::TupEnd(x) => Ev::TupEnd(m(x)),
            Ev::RtBegin(x, n) => Ev::RtBegin(m(x), n),
            Ev::RtValueBegin(t, x, y) => Ev::RtValueBegin(t, l(x), i(y)),
            Ev::RtValueEnd(t, x, y) => Ev::RtValueEnd(t, l(x), i(y)),
            Ev::RtEnd(x) => Ev::RtEnd(m(x)),
            e => e,
        })
        .collect()
}
pub trait ArbDyn {
    fn expected(&self) -> Vec<Ev>;
    fn put(&self, r: &mut Rec) -> sval::Result;
    fn json(&self) -> Result<String, String>;
    fn fmt(&self) -> String;
    fn buf(&self) -> Result<sval_buffer::ValueBuf<'static>, String>;
    fn serde_json(&self) -> Result<String, String>;
    /// what tag() and every cast return
    fn casts(&self) -> (Option<sval::Tag>, String);
}
impl<T: Arb> ArbDyn for T {
    fn expected(&self) -> Vec<Ev> {
        let mut o = Vec::new();
        self.exp(&mut o);
        o
    }
    fn put(&self, r: &mut Rec) -> sval::Result {
        self.stream(r)
    }
    fn json(&self) -> Result<String, String> {
        sval_json::stream_to_string(self).map_err(|e| e.to_string())
    }
    fn fmt(&self) -> String {
        format!("{:?}", sval_fmt::ToFmt::new_borrowed(self))
    }
    fn buf(&self) -> Result<sval_buffer::ValueBuf<'static>, String> {
        sval_buffer::ValueBuf::collect_owned(self).map_err(|e| e.to_string())
    }
    fn serde_json(&self) -> Result<String, String> {
        serde_json::to_string(sval_serde::ToSerialize::new_borrowed(self)).map_err(|e| e.to_string())
    }
    fn casts(&self) -> (Option<sval::Tag>, String) {
        (self.tag(), super::hints::casts(self))
    }
}
pub const TYPES: usize = 52;
pub fn arb_any(s: &mut Src, k: usize) -> Box<dyn ArbDyn> {
    macro_rules! t {
        ($($i:literal => $t:ty,)+) => { match k { $($i => Box::new(<$t>::arb(s, 2)) as Box<dyn ArbDyn>,)+ _ => Box::new(()) } };
    }
    t! {
        0 => i8, 1 => i16, 2 => i32, 3 => i64, 4 => i128, 5 => u8, 6 => u16, 7 => u32, 8 => u64, 9 => u128,
        10 => f32, 11 => f64, 12 => bool, 13 => char, 14 => String, 15 => sval::Null,
        16 => Option<String>, 17 => Option<Option<i32>>, 18 => Vec<Vec<u8>>, 19 => [i16; 3], 20 => [String; 0],
        21 => Vec<[Option<char>; 2]>, 22 => BTreeMap<String, Vec<i64>>, 23 => HashMap<u32, String>, 24 => BTreeMap<i8, BTreeMap<char, bool>>,
        25 => Bin, 26 => BinArr<0>, 27 => BinArr<7>, 28 => Pairs<String, Option<f64>>, 29 => Pairs<(i32, i32), ()>, 30 => Disp,
        31 => (u8,), 32 => (u8, String), 33 => (i64, (), Option<bool>, char), 34 => Box<Vec<Box<String>>>, 35 => Number, 36 => Vec<(String, Bin)>,
        37 => (u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64, bool, char, String, ()),
        38 => (u8, u8, u8), 39 => (String, u8, u8, bool, char), 40 => (i8, i8, i8, i8, i8, i8), 41 => (u8, u16, u32, u64, bool, char, String, ()),
        42 => (u8, bool, u8, bool, u8, bool, u8), 43 => (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8), 44 => Vec<HashMap<String, Disp>>,
        45 => (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, String),
        46 => (u8, i16, u8, i32, u8, i64, u8, bool, u8), 47 => (u8, i16, u8, i32, u8, i64, u8, bool, u8, char), 48 => (u8, i16, u8, i32, u8, i64, u8, bool, u8, char, i8),
        49 => (u8, i16, u8, i32, u8, i64, u8, bool, u8, char, i8, u16), 50 => (u8, i16, u8, i32, u8, i64, u8, bool, u8, char, i8, u16, u32, i8), 51 => &'static str,
    }
}
/// the wrappers give back what they wrap
fn c15_wrappers(cx: &mut Ctx) -> R {
    cx.class("wrappers");
    cx.nontrivial = true;
    let b = gen_bytes(&mut cx.src, 12);
    let t = gen_text(&mut cx.src, 8);
    cx.sample(|| format!("{b:?} {t:?}"));
    let s = sval::BinarySlice::new(&b);
    ensure!(s.as_slice() == b && s.as_ref() == b && format!("{s:?}") == format!("{b:?}"), "BinarySlice of {b:?} is {s:?}");
    if let Some(a) = b.first_chunk::<4>() {
        let x = sval::BinaryArray::new(a);
        ensure!(x.as_slice() == a && x.as_ref() == a && format!("{x:?}") == format!("{a:?}"), "BinaryArray of {a:?} is {x:?}");
    }
    let m: Vec<(u8, String)> = b.iter().map(|k| (*k, t.clone())).collect();
    let x = sval::MapSlice::new(&m);
    ensure!(x.as_slice() == m && x.as_ref() == m && format!("{x:?}") == format!("{m:?}"), "MapSlice of {m:?} is {x:?}");
    let d = sval::Display::new(t.clone());
    ensure!(*d.inner() == t && *sval::Display::new_borrowed(&t).inner() == t && d.into_inner() == t, "Display of {t:?} holds another text");
    Ok(())
}
fn c15(cx: &mut Ctx) -> R {
    if cx.src.chance(1, 30) {
        return c15_wrappers(cx);
    }
    let k = cx.src.n(TYPES);
    let v = arb_any(&mut cx.src, k);
    let exp = v.expected();
    cx.nontrivial_if(exp.len() > 1);
    cx.sample(|| format!("type {k}: {}", clip(&format!("{exp:?}"), 300)));
    let mut r = Rec::new();
    ensure!(v.put(&mut r).is_ok(), "streaming failed");
    balanced(&r.evs).map_err(|e| Fail { msg: e })?;
    // text through Display may be split and has no size; everything else is exact
    let disp = |evs: &[Ev]| -> Vec<Ev> {
        let n = norm_frags(evs);
        n.into_iter().map(|e| if let Ev::TextBegin(_) = e { Ev::TextBegin(None) } else { e }).collect()
    };
    let (mut e, mut g) = (no_hint_tags(&exp), no_hint_tags(&r.evs));
    if matches!(k, 13 | 30 | 35 | 44) {
        for w in g.windows(2) {
            if let (Ev::TextBegin(Some(n)), Ev::TextFrag(s, _)) = (&w[0], &w[1]) {
                ensure!(*n == s.len(), "text of {} bytes with hint {n}", s.len());
            }
        }
        e = disp(&e);
        g = disp(&g);
    }
    ensure!(e == g, "type {k}: {}", diff(&e, &g));
    Ok(())
}

// ------------------------------------------------------------------ C20

pub static C20: Check = Check {
    id: "C20",
    rule: "random pairs of labels (static, computed, owned; with and without tag hints; through clone, to_owned, try_to_owned), tags and indexes (from all six integer types, boundary-heavy, with and without tag hints) checked for equality, hash, Borrow, order, display and conversion laws; non-trivial = labels with text or indexes outside 0..8",
    quick: 8_000_000,
    thorough: 60_000_000,
    run: c20,
    assumptions: &["labels have no ordering in this version"],
};
fn h(x: &(impl Hash + ?Sized)) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}
fn c20(cx: &mut Ctx) -> R {
    match cx.src.n(3) {
        0 => {
            let texts: Vec<String> = (0..2).map(|_| if cx.src.bool() { cx.src.pick(LABELS).to_string() } else { gen_text(&mut cx.src, 20) }).collect();
            let same = cx.src.chance(1, 3);
            // or parts of one text in the same memory
            let part = cx.src.chance(1, 4);
            let cut = |s: &mut Src| {
                let c: Vec<usize> = texts[0].char_indices().map(|x| x.0).chain([texts[0].len()]).collect();
                let (i, j) = (*s.pick(&c), *s.pick(&c));
                if s.bool() { 0..j } else { i.min(j)..i.max(j) }
            };
            let (ra, rb) = if part { (cut(&mut cx.src), cut(&mut cx.src)) } else { (0..texts[0].len(), 0..0) };
            let ta: &str = &texts[0][ra];
            let tb: &str = if part { &texts[0][rb] } else if same { &texts[0] } else { &texts[1] };
            cx.nontrivial_if(!ta.is_empty());
            // static texts: the same text at two addresses, and parts that begin at the same address
            fn statics() -> &'static [[&'static str; 2]] {
                static S: std::sync::OnceLock<Vec<[&'static str; 2]>> = std::sync::OnceLock::new();
                S.get_or_init(|| {
                    let mut out: Vec<[&'static str; 2]> = vec![];
                    for t in LABELS.iter().map(|l| l.to_string()).chain([8, 16, 17, 40, 64, 200, 300].map(|n| "abcdefghij".repeat(30)[..n].to_string())).chain(["x".repeat(70) + "y", "x".repeat(70) + "z", "é".repeat(40)]) {
                        let copy = |t: &str| -> &'static str { Box::leak(t.to_string().into_boxed_str()) };
                        let (a, b) = (copy(&t), copy(&t));
                        out.push([a, b]);
                        for n in [1, t.len() / 2, t.len().saturating_sub(1)] {
                            if n <= t.len() && t.is_char_boundary(n) {
                                out.push([&a[..n], &b[..n]]);
                                out.push([&a[n..], &b[n..]]);
                            }
                        }
                    }
                    out
                })
            }
            let sa_ = cx.src.pick(statics());
            let sb_ = if cx.src.bool() { sa_ } else { cx.src.pick(statics()) };
            let (stat_a, stat_b) = (sa_[0], sb_[cx.src.n(2)]);
            let kinds = (cx.src.n(4), cx.src.n(4));
            let tags_ = (cx.src.n(3), cx.src.n(3));
            let n = cx.src.n(4);
            let ops: Vec<usize> = (0..n).map(|_| cx.src.n(4)).collect();
            cx.sample(|| format!("labels {ta:?} {tb:?} static {stat_a:?} {stat_b:?} kinds {kinds:?} tags {tags_:?} ops {ops:?}"));
            fn mk<'a>(t: &'a str, kind: usize, stat: &'static str) -> (Label<'a>, String, bool) {
                match kind {
                    0 => (Label::new(stat), stat.to_string(), true),
                    1 => (Label::new_computed(t), t.to_string(), false),
                    2 => (Label::new_owned(t.to_string()), t.to_string(), false),
                    _ => (Label::new_owned({
                        let mut s = String::with_capacity(t.len() + 50);
                        s.push_str(t);
                        s
                    }), t.to_string(), false),
                }
            }
            let (mut a, ma, sa) = mk(ta, kinds.0, stat_a);
            let (b, mb, sb) = mk(tb, kinds.1, stat_b);
            let tag_of = |k: usize| if k == 0 { None } else { Some(TAGS[k - 1].clone()) };
            if let Some(t) = tag_of(tags_.0) {
                a = a.with_tag(&t);
            }
            let b = match tag_of(tags_.1) {
                Some(t) => b.with_tag(&t),
                None => b,
            };
            for op in ops {
                a = match op {
                    0 => a.clone(),
                    1 => a.to_owned(),
                    2 => match a.try_to_owned() {
                        Ok(l) => l,
                        Err(_) => return fail("try_to_owned failed with alloc"),
                    },
                    _ => {
                        let c = a.clone();
                        drop(a);
                        c
                    }
                };
                ensure!(a.as_str() == ma, "label text became {:?}, expected {ma:?}", a.as_str());
                ensure!(a.tag() == tag_of(tags_.0).as_ref(), "label tag became {:?}, expected {:?}", a.tag(), tag_of(tags_.0));
                ensure!(a.as_static_str().is_some() == sa, "label staticness changed");
            }
            ensure!(a.as_str() == ma && b.as_str() == mb, "label text differs");
            if let Some(s) = a.as_static_str() {
                ensure!(s == ma, "static text {s:?} differs from {ma:?}");
            }
            ensure!(b.as_static_str().is_some() == sb, "staticness");
            ensure!((a == b) == (ma == mb), "equality of {ma:?} and {mb:?} is {}", a == b);
            ensure!((b == a) == (ma == mb), "equality is not symmetric");
            ensure!(h(&a) == h(ma.as_str()), "label hash differs from its text's");
            ensure!(std::borrow::Borrow::<str>::borrow(&a) == ma, "Borrow<str> differs");
            let mut map = HashMap::new();
            map.insert(a, 1);
            ensure!(map.get(ma.as_str()) == Some(&1), "label not found by its text in a map");
            ensure!(map.contains_key(&b) == (ma == mb), "label lookup differs from text equality");
            Ok(())
        }
        1 => {
            const NAMES: &[&str] = &[
                "", "a", "b", "ab", "ba", "abcdefgh", "abcdefgi", "abcdefghi", "abcdefghijkl", "abcdefghijkm", "abcdefghijklmn", "abcdefghijklmo", "\0", "\0\0", "\0\0\0\0\0\0\0\0",
                "NUMBER", "number", "é", "xbcdefgh", "aaaaaaaa", "aaaaaaaaa", "RUST_UNIT", "app.custom", "A",
            ];
            let (x, y) = (*cx.src.pick(NAMES), *cx.src.pick(NAMES));
            cx.nontrivial = true;
            cx.sample(|| format!("tags {x:?} {y:?}"));
            // the same text at a different address
            let owned: String = x.to_string();
            let addr2: &'static str = Box::leak(owned.into_boxed_str());
            let (a, b, c) = (Tag::new(x), Tag::new(y), Tag::new(addr2));
            ensure!((a == b) == (x == y), "tags {x:?} and {y:?} compare {}", a == b);
            ensure!(a == c && a.clone() == c, "tags with the same name differ");
            drop((a, b, c));
            // SAFETY: no tag refers to it any more
            unsafe { drop(Box::from_raw(addr2 as *const str as *mut str)) };
            // the tags sval defines are pairwise different
            let all = [tags::NUMBER, tags::RUST_UNIT, tags::RUST_OPTION_NONE, tags::RUST_OPTION_SOME, tags::VALUE_IDENT, tags::VALUE_OFFSET, tags::CONSTANT_SIZE, T_JSON_NUMBER, T_JSON_TEXT, T_JSON_VALUE];
            for i in 0..all.len() {
                for j in 0..all.len() {
                    ensure!((all[i] == all[j]) == (i == j), "well-known tags {:?} and {:?} compare {}", all[i], all[j], all[i] == all[j]);
                }
            }
            Ok(())
        }
        _ => {
            fn mk(s: &mut Src) -> (Index, i128) {
                macro_rules! g {
                    ($t:ty, $f:ident) => {{
                        let x = <$t as Arb2>::arb2(s);
                        (if s.bool() { Index::from(x) } else { Index::$f(x) }, x as i128)
                    }};
                }
                match s.n(6) {
                    0 => g!(usize, new),
                    1 => g!(u32, new_u32),
                    2 => g!(u64, new_u64),
                    3 => g!(i32, new_i32),
                    4 => g!(i64, new_i64),
                    _ => g!(isize, new_isize),
                }
            }
            let (mut a, x) = mk(&mut cx.src);
            let (mut b, y) = mk(&mut cx.src);
            let t = (cx.src.bool(), cx.src.bool());
            if t.0 {
                a = a.with_tag(&tags::VALUE_OFFSET);
            }
            if t.1 {
                b = b.with_tag(&TAGS[0]);
            }
            if cx.src.bool() {
                a = a.clone();
            }
            cx.nontrivial_if(!(0..8).contains(&x));
            cx.sample(|| format!("indexes {x} {y}"));
            ensure!(a.tag().is_some() == t.0 && b.tag().is_some() == t.1, "index tag hint lost or gained");
            ensure!((a == b) == (x == y), "{x} == {y} is {}", a == b);
            ensure!(a.cmp(&b) == x.cmp(&y), "{x} cmp {y} is {:?}", a.cmp(&b));
            ensure!(a.partial_cmp(&b) == Some(x.cmp(&y)), "{x} partial_cmp {y} is {:?}", a.partial_cmp(&b));
            ensure!(x != y || h(&a) == h(&b), "equal indexes hash differently");
            ensure!(a.to_string() == x.to_string(), "index {x} prints {a}");
            let padded = (format!("{a:>24}|{a:+}|{a:024}|{a:<3}"), format!("{x:>24}|{x:+}|{x:024}|{x:<3}"));
            ensure!(padded.0 == padded.1, "index {x} prints {} where the integer prints {}", padded.0, padded.1);
            ensure!(a.to_usize() == usize::try_from(x).ok(), "to_usize of {x} is {:?}", a.to_usize());
            ensure!(a.to_isize() == isize::try_from(x).ok(), "to_isize of {x} is {:?}", a.to_isize());
            ensure!(a.to_u32() == u32::try_from(x).ok(), "to_u32 of {x} is {:?}", a.to_u32());
            ensure!(a.to_i32() == i32::try_from(x).ok(), "to_i32 of {x} is {:?}", a.to_i32());
            ensure!(a.to_u64() == u64::try_from(x).ok(), "to_u64 of {x} is {:?}", a.to_u64());
            ensure!(a.to_i64() == i64::try_from(x).ok(), "to_i64 of {x} is {:?}", a.to_i64());
            Ok(())
        }
    }
}
trait Arb2 {
    fn arb2(s: &mut Src) -> Self;
}
macro_rules! arb2 {
    ($($t:ty)+) => {$(impl Arb2 for $t {
        fn arb2(s: &mut Src) -> $t {
            match s.weighted(&[4, 3, 3, 3, 2]) {
                0 => s.n(20) as $t,
                1 => <$t>::MAX - s.n(3) as $t,
                2 => <$t>::MIN + s.n(3) as $t,
                3 => { let b = *s.pick(&[i32::MAX as i128, u32::MAX as i128, i32::MIN as i128, i64::MAX as i128, -1]) + s.n(3) as i128 - 1; <$t>::try_from(b).unwrap_or(0) }
                _ => (s.bits() >> s.n(64)) as $t,
            }
        }
    })+};
}
arb2!(usize u32 u64 i32 i64 isize);

//! C24: the sval_test token recorder and its assertions.
use crate::checks::core::cfg;
use crate::engine::*;
use crate::ensure;
use crate::ev::*;
use crate::val::*;
use sval::{Index, Label, Tag};
use sval_test::{Token, TokenBuf};

pub static C24: Check = Check {
    id: "C24",
    rule: "random value trees: assert_tokens must accept the tokens of the model's call sequence (values given directly, by dyn, in pieces and through wrappers) and reject a random single mutation of it (token dropped, duplicated, swapped, replaced, number/text/size/tag/label/index changed, borrowed/computed flipped); the recorded tokens must read back as exactly the calls made; assert_valid/assert_invalid must agree with whether the value fails; TokenBuf equality must agree with equality of the calls; non-trivial = at least 3 calls",
    quick: 240_000,
    thorough: 6_000_000,
    run: c24,
    assumptions: &["NaN never equals itself, so values containing it are not asserted", "labels and indexes compare by content, not by tag or staticness"],
};

fn lb(l: &Lb) -> Label<'static> {
    let n = match l.stat {
        Some(s) => Label::new(s),
        None => Label::new_owned(l.text.clone()),
    };
    match &l.tag {
        Some(t) => n.with_tag(t),
        None => n,
    }
}
type Meta = (Option<Tag>, Option<Label<'static>>, Option<Index>);
fn me(m: &M) -> Meta {
    (m.tag.clone(), m.label.as_ref().map(lb), m.index.as_ref().map(|i| i.index()))
}

fn token(e: &Ev) -> Token<'_> {
    use Token as T;
    match e {
        Ev::Null => T::Null,
        Ev::Bool(b) => T::Bool(*b),
        Ev::Num(n) => match *n {
            Num::I8(x) => T::I8(x),
            Num::I16(x) => T::I16(x),
            Num::I32(x) => T::I32(x),
            Num::I64(x) => T::I64(x),
            Num::I128(x) => T::I128(x),
            Num::U8(x) => T::U8(x),
            Num::U16(x) => T::U16(x),
            Num::U32(x) => T::U32(x),
            Num::U64(x) => T::U64(x),
            Num::U128(x) => T::U128(x),
        },
        Ev::F32(b) => T::F32(f32::from_bits(*b)),
        Ev::F64(b) => T::F64(f64::from_bits(*b)),
        Ev::TextBegin(n) => T::TextBegin(*n),
        Ev::TextFrag(s, true) => T::TextFragment(s),
        Ev::TextFrag(s, false) => T::TextFragmentComputed(s.clone()),
        Ev::TextEnd => T::TextEnd,
        Ev::BinBegin(n) => T::BinaryBegin(*n),
        Ev::BinFrag(s, true) => T::BinaryFragment(s),
        Ev::BinFrag(s, false) => T::BinaryFragmentComputed(s.clone()),
        Ev::BinEnd => T::BinaryEnd,
        Ev::MapBegin(n) => T::MapBegin(*n),
        Ev::MapKeyBegin => T::MapKeyBegin,
        Ev::MapKeyEnd => T::MapKeyEnd,
        Ev::MapValueBegin => T::MapValueBegin,
        Ev::MapValueEnd => T::MapValueEnd,
        Ev::MapEnd => T::MapEnd,
        Ev::SeqBegin(n) => T::SeqBegin(*n),
        Ev::SeqValueBegin => T::SeqValueBegin,
        Ev::SeqValueEnd => T::SeqValueEnd,
        Ev::SeqEnd => T::SeqEnd,
        Ev::EnumBegin(m) => {
            let (t, l, i) = me(m);
            T::EnumBegin(t, l, i)
        }
        Ev::EnumEnd(m) => {
            let (t, l, i) = me(m);
            T::EnumEnd(t, l, i)
        }
        Ev::TaggedBegin(m) => {
            let (t, l, i) = me(m);
            T::TaggedBegin(t, l, i)
        }
        Ev::TaggedEnd(m) => {
            let (t, l, i) = me(m);
            T::TaggedEnd(t, l, i)
        }
        Ev::Tag(m) => {
            let (t, l, i) = me(m);
            T::Tag(t, l, i)
        }
        Ev::Hint(t) => T::TagHint(t.clone()),
        Ev::RecBegin(m, n) => {
            let (t, l, i) = me(m);
            T::RecordBegin(t, l, i, *n)
        }
        Ev::RecValueBegin(t, l) => T::RecordValueBegin(t.clone(), lb(l)),
        Ev::RecValueEnd(t, l) => T::RecordValueEnd(t.clone(), lb(l)),
        Ev::RecEnd(m) => {
            let (t, l, i) = me(m);
            T::RecordEnd(t, l, i)
        }
        Ev::TupBegin(m, n) => {
            let (t, l, i) = me(m);
            T::TupleBegin(t, l, i, *n)
        }
        Ev::TupValueBegin(t, i) => T::TupleValueBegin(t.clone(), i.index()),
        Ev::TupValueEnd(t, i) => T::TupleValueEnd(t.clone(), i.index()),
        Ev::TupEnd(m) => {
            let (t, l, i) = me(m);
            T::TupleEnd(t, l, i)
        }
        Ev::RtBegin(m, n) => {
            let (t, l, i) = me(m);
            T::RecordTupleBegin(t, l, i, *n)
        }
        Ev::RtValueBegin(t, l, i) => T::RecordTupleValueBegin(t.clone(), lb(l), i.index()),
        Ev::RtValueEnd(t, l, i) => T::RecordTupleValueEnd(t.clone(), lb(l), i.index()),
        Ev::RtEnd(m) => {
            let (t, l, i) = me(m);
            T::RecordTupleEnd(t, l, i)
        }
        Ev::Value | Ev::ValueComputed | Ev::Fail => unreachable!(),
    }
}

/// read a token back; staticness of labels is lost on purpose
fn untoken(t: &Token) -> Option<Ev> {
    use Token as T;
    fn m(t: &Option<Tag>, l: &Option<Label<'static>>, i: &Option<Index>) -> M {
        M::rec(t.as_ref(), l.as_ref(), i.as_ref())
    }
    Some(match t {
        T::Null => Ev::Null,
        T::Bool(b) => Ev::Bool(*b),
        T::I8(x) => Ev::Num(Num::I8(*x)),
        T::I16(x) => Ev::Num(Num::I16(*x)),
        T::I32(x) => Ev::Num(Num::I32(*x)),
        T::I64(x) => Ev::Num(Num::I64(*x)),
        T::I128(x) => Ev::Num(Num::I128(*x)),
        T::U8(x) => Ev::Num(Num::U8(*x)),
        T::U16(x) => Ev::Num(Num::U16(*x)),
        T::U32(x) => Ev::Num(Num::U32(*x)),
        T::U64(x) => Ev::Num(Num::U64(*x)),
        T::U128(x) => Ev::Num(Num::U128(*x)),
        T::F32(x) => Ev::F32(x.to_bits()),
        T::F64(x) => Ev::F64(x.to_bits()),
        T::TextBegin(n) => Ev::TextBegin(*n),
        T::TextFragment(s) => Ev::TextFrag(s.to_string(), true),
        T::TextFragmentComputed(s) => Ev::TextFrag(s.clone(), false),
        T::TextEnd => Ev::TextEnd,
        T::BinaryBegin(n) => Ev::BinBegin(*n),
        T::BinaryFragment(s) => Ev::BinFrag(s.to_vec(), true),
        T::BinaryFragmentComputed(s) => Ev::BinFrag(s.clone(), false),
        T::BinaryEnd => Ev::BinEnd,
        T::MapBegin(n) => Ev::MapBegin(*n),
        T::MapKeyBegin => Ev::MapKeyBegin,
        T::MapKeyEnd => Ev::MapKeyEnd,
        T::MapValueBegin => Ev::MapValueBegin,
        T::MapValueEnd => Ev::MapValueEnd,
        T::MapEnd => Ev::MapEnd,
        T::SeqBegin(n) => Ev::SeqBegin(*n),
        T::SeqValueBegin => Ev::SeqValueBegin,
        T::SeqValueEnd => Ev::SeqValueEnd,
        T::SeqEnd => Ev::SeqEnd,
        T::EnumBegin(t, l, i) => Ev::EnumBegin(m(t, l, i)),
        T::EnumEnd(t, l, i) => Ev::EnumEnd(m(t, l, i)),
        T::TaggedBegin(t, l, i) => Ev::TaggedBegin(m(t, l, i)),
        T::TaggedEnd(t, l, i) => Ev::TaggedEnd(m(t, l, i)),
        T::Tag(t, l, i) => Ev::Tag(m(t, l, i)),
        T::TagHint(t) => Ev::Hint(t.clone()),
        T::RecordBegin(t, l, i, n) => Ev::RecBegin(m(t, l, i), *n),
        T::RecordValueBegin(t, l) => Ev::RecValueBegin(t.clone(), Lb::rec(l)),
        T::RecordValueEnd(t, l) => Ev::RecValueEnd(t.clone(), Lb::rec(l)),
        T::RecordEnd(t, l, i) => Ev::RecEnd(m(t, l, i)),
        T::TupleBegin(t, l, i, n) => Ev::TupBegin(m(t, l, i), *n),
        T::TupleValueBegin(t, i) => Ev::TupValueBegin(t.clone(), Ix::rec(i)),
        T::TupleValueEnd(t, i) => Ev::TupValueEnd(t.clone(), Ix::rec(i)),
        T::TupleEnd(t, l, i) => Ev::TupEnd(m(t, l, i)),
        T::RecordTupleBegin(t, l, i, n) => Ev::RtBegin(m(t, l, i), *n),
        T::RecordTupleValueBegin(t, l, i) => Ev::RtValueBegin(t.clone(), Lb::rec(l), Ix::rec(i)),
        T::RecordTupleValueEnd(t, l, i) => Ev::RtValueEnd(t.clone(), Lb::rec(l), Ix::rec(i)),
        T::RecordTupleEnd(t, l, i) => Ev::RtEnd(m(t, l, i)),
        _ => return None,
    })
}

/// what labels and indexes compare by
fn loose(evs: &[Ev]) -> Vec<Ev> {
    let l = |l: &Lb| Lb { tag: None, stat: None, ..l.clone() };
    let x = |i: &Ix| Ix { tag: None, ..i.clone() };
    let m = |m: &M| M { tag: m.tag.clone(), label: m.label.as_ref().map(l), index: m.index.as_ref().map(x) };
    evs.iter()
        .map(|e| match e {
            Ev::EnumBegin(a) => Ev::EnumBegin(m(a)),
            Ev::EnumEnd(a) => Ev::EnumEnd(m(a)),
            Ev::TaggedBegin(a) => Ev::TaggedBegin(m(a)),
            Ev::TaggedEnd(a) => Ev::TaggedEnd(m(a)),
            Ev::Tag(a) => Ev::Tag(m(a)),
            Ev::RecBegin(a, n) => Ev::RecBegin(m(a), *n),
            Ev::RecValueBegin(t, a) => Ev::RecValueBegin(t.clone(), l(a)),
            Ev::RecValueEnd(t, a) => Ev::RecValueEnd(t.clone(), l(a)),
            Ev::RecEnd(a) => Ev::RecEnd(m(a)),
            Ev::TupBegin(a, n) => Ev::TupBegin(m(a), *n),
            Ev::TupValueBegin(t, a) => Ev::TupValueBegin(t.clone(), x(a)),
            Ev::TupValueEnd(t, a) => Ev::TupValueEnd(t.clone(), x(a)),
            Ev::TupEnd(a) => Ev::TupEnd(m(a)),
            Ev::RtBegin(a, n) => Ev::RtBegin(m(a), *n),
            Ev::RtValueBegin(t, a, b) => Ev::RtValueBegin(t.clone(), l(a), x(b)),
            Ev::RtValueEnd(t, a, b) => Ev::RtValueEnd(t.clone(), l(a), x(b)),
            Ev::RtEnd(a) => Ev::RtEnd(m(a)),
            // zeroes are equal
            Ev::F64(b) if f64::from_bits(*b) == 0.0 => Ev::F64(0),
            Ev::F32(b) if f32::from_bits(*b) == 0.0 => Ev::F32(0),
            e => e.clone(),
        })
        .collect()
}

fn mut_lb(l: &mut Lb) {
    l.text.push('~');
    l.stat = None;
}
fn mut_tag(t: &mut Option<Tag>) {
    *t = match t {
        None => Some(Tag::new("mutated")),
        Some(_) => None,
    };
}
fn mut_size(s: &mut Src, n: &mut Option<usize>) {
    *n = match *n {
        None => Some(s.n(3)),
        Some(n) if s.bool() => Some(n.wrapping_add(1)),
        Some(_) => None,
    };
}
fn mut_meta(s: &mut Src, m: &mut M) {
    match s.n(3) {
        0 => mut_tag(&mut m.tag),
        1 => match &mut m.label {
            Some(l) if s.bool() => mut_lb(l),
            l @ Some(_) => *l = None,
            l => *l = Some(Lb::dynamic("mutated")),
        },
        _ => match &mut m.index {
            Some(i) if s.bool() => i.v = if i.v == 0 { 1 } else { i.v - i.v.signum() },
            i @ Some(_) => *i = None,
            i => *i = Some(Ix::new(0)),
        },
    }
}
fn mut_ix(i: &mut Ix) {
    i.v = if i.v == 0 { 1 } else { i.v - i.v.signum() };
}
fn mutate(s: &mut Src, e: &mut Ev) {
    match e {
        Ev::Null => *e = Ev::Bool(false),
        Ev::Bool(b) => *b = !*b,
        Ev::Num(n) => {
            *n = match (n.clone(), s.n(2)) {
                (Num::I8(x), 0) => Num::I8(x ^ 1),
                (Num::I16(x), 0) => Num::I16(x ^ 0x100),
                (Num::I32(x), 0) => Num::I32(x ^ (1 << 31)),
                (Num::I64(x), 0) => Num::I64(x ^ (1 << 32)),
                (Num::I128(x), 0) => Num::I128(x ^ (1 << 64)),
                (Num::U8(x), 0) => Num::U8(x ^ 0x80),
                (Num::U16(x), 0) => Num::U16(x ^ 0x100),
                (Num::U32(x), 0) => Num::U32(x ^ (1 << 16)),
                (Num::U64(x), 0) => Num::U64(x ^ (1 << 32)),
                (Num::U128(x), 0) => Num::U128(x ^ (1 << 64)),
                (Num::I8(x), _) => Num::I16(x as i16),
                (Num::I16(x), _) => Num::I32(x as i32),
                (Num::I32(x), _) => Num::I64(x as i64),
                (Num::I64(x), _) => Num::I128(x as i128),
                (Num::I128(x), _) => Num::U128(x as u128),
                (Num::U8(x), _) => Num::U16(x as u16),
                (Num::U16(x), _) => Num::U32(x as u32),
                (Num::U32(x), _) => Num::U64(x as u64),
                (Num::U64(x), _) => Num::U128(x as u128),
                (Num::U128(x), _) => Num::I128(x as i128),
            }
        }
        Ev::F32(b) => *e = if s.bool() { Ev::F64((f32::from_bits(*b) as f64).to_bits()) } else { Ev::F32(*b ^ (1 << 22)) },
        Ev::F64(b) => *e = if s.bool() { Ev::F32((f64::from_bits(*b) as f32).to_bits()) } else { Ev::F64(*b ^ (1 << 51)) },
        Ev::TextBegin(n) | Ev::BinBegin(n) | Ev::MapBegin(n) | Ev::SeqBegin(n) => mut_size(s, n),
        Ev::TextFrag(t, b) => {
            if s.bool() {
                *b = !*b
            } else {
                t.push('x')
            }
        }
        Ev::BinFrag(t, b) => {
            if s.bool() {
                *b = !*b
            } else {
                t.push(0)
            }
        }
        Ev::EnumBegin(m) | Ev::EnumEnd(m) | Ev::TaggedBegin(m) | Ev::TaggedEnd(m) | Ev::Tag(m) | Ev::RecEnd(m) | Ev::TupEnd(m) | Ev::RtEnd(m) => mut_meta(s, m),
        Ev::RecBegin(m, n) | Ev::TupBegin(m, n) | Ev::RtBegin(m, n) => {
            if s.chance(1, 4) {
                mut_size(s, n)
            } else {
                mut_meta(s, m)
            }
        }
        Ev::Hint(t) => *t = Tag::new("mutated"),
        Ev::RecValueBegin(t, l) | Ev::RecValueEnd(t, l) => {
            if s.bool() {
                mut_tag(t)
            } else {
                mut_lb(l)
            }
        }
        Ev::TupValueBegin(t, i) | Ev::TupValueEnd(t, i) => {
            if s.bool() {
                mut_tag(t)
            } else {
                mut_ix(i)
            }
        }
        Ev::RtValueBegin(t, l, i) | Ev::RtValueEnd(t, l, i) => match s.n(3) {
            0 => mut_tag(t),
            1 => mut_lb(l),
            _ => mut_ix(i),
        },
        Ev::TextEnd => *e = Ev::BinEnd,
        Ev::BinEnd => *e = Ev::TextEnd,
        Ev::MapKeyBegin => *e = Ev::MapValueBegin,
        Ev::MapKeyEnd => *e = Ev::MapValueEnd,
        Ev::MapValueBegin => *e = Ev::SeqValueBegin,
        Ev::MapValueEnd => *e = Ev::SeqValueEnd,
        Ev::MapEnd => *e = Ev::SeqEnd,
        Ev::SeqValueBegin => *e = Ev::SeqValueEnd,
        Ev::SeqValueEnd => *e = Ev::MapKeyEnd,
        Ev::SeqEnd => *e = Ev::MapEnd,
        Ev::Value | Ev::ValueComputed | Ev::Fail => {}
    }
}

fn c24(cx: &mut Ctx) -> R {
    let s = &mut cx.src;
    let c = cfg(s);
    let v = gen(s, &c);
    let evs = events(&v);
    let nan = evs.iter().any(|e| matches!(e, Ev::F32(b) if f32::from_bits(*b).is_nan()) || matches!(e, Ev::F64(b) if f64::from_bits(*b).is_nan()));
    cx.nontrivial_if(evs.len() >= 3);
    cx.sample(|| format!("{evs:?}"));
    // what was recorded
    let mut buf = TokenBuf::new();
    ensure!(sval::Value::stream(&v, &mut buf).is_ok(), "recording tokens failed");
    let mut got = Vec::new();
    for t in buf.as_tokens() {
        match untoken(t) {
            Some(e) => got.push(e),
            None => return fail(format!("unknown token {t:?}")),
        }
    }
    let (e, g) = (drop_static(&evs), drop_static(&got));
    ensure!(e == g, "recorded tokens: {}", diff(&e, &g));
    // a call in pieces, and by dyn
    let p = Play(evs.clone());
    let mut pb = TokenBuf::new();
    ensure!(sval::Value::stream(&p as &dyn sval_dynamic::Value, &mut pb).is_ok(), "recording tokens failed");
    if nan {
        cx.class("NaN");
    } else {
        ensure!(pb == buf, "two recordings of the same calls differ:\n{buf:?}\n{pb:?}");
        let toks: Vec<Token> = evs.iter().map(token).collect();
        if let Err(e) = no_panic(|| sval_test::assert_tokens(&v, &toks)) {
            return fail(format!("assert_tokens rejected the calls made: {e}\n{evs:?}"));
        }
        if let Err(e) = no_panic(|| sval_test::assert_tokens(&v as &dyn sval_dynamic::Value, &toks)) {
            return fail(format!("assert_tokens rejected the calls made through dyn: {e}\n{evs:?}"));
        }
    }
    // one difference
    let mut mu = evs.clone();
    let s = &mut cx.src;
    let i = s.n(mu.len());
    match s.weighted(&[6, 1, 1, 1, 1, 1]) {
        0 => mutate(s, &mut mu[i]),
        1 => {
            mu.remove(i);
        }
        2 => {
            let e = mu[i].clone();
            mu.insert(i, e);
        }
        3 => {
            let j = s.n(mu.len());
            mu.swap(i, j);
        }
        4 => {
            let j = s.n(mu.len());
            mu[i] = evs[j].clone();
        }
        _ => mu.truncate(i),
    }
    if loose(&mu) != loose(&evs) {
        cx.class("mutated");
        let toks: Vec<Token> = mu.iter().map(token).collect();
        ensure!(no_panic(|| sval_test::assert_tokens(&v, &toks)).is_err(), "assert_tokens accepted {mu:?}\nfor a value that makes the calls {evs:?}");
        let m = Play(mu);
        let mut mb = TokenBuf::new();
        ensure!(sval::Value::stream(&m, &mut mb).is_ok(), "recording tokens failed");
        ensure!(mb != buf, "token buffers of different calls are equal:\n{mb:?}\n{buf:?}");
    }
    // validity
    ensure!(no_panic(|| sval_test::assert_valid(&v)).is_ok(), "assert_valid rejected {evs:?}");
    ensure!(no_panic(|| sval_test::assert_invalid(&v)).is_err(), "assert_invalid accepted {evs:?}");
    let k = cx.src.n(evs.len() + 1);
    let mut f = evs[..k].to_vec();
    f.push(Ev::Fail);
    let f = Play(f);
    ensure!(no_panic(|| sval_test::assert_valid(&f)).is_err(), "assert_valid accepted a value that fails: {:?}", f.0);
    ensure!(no_panic(|| sval_test::assert_invalid(&f)).is_ok(), "assert_invalid rejected a value that fails: {:?}", f.0);
    let toks: Vec<Token> = evs[..k].iter().map(token).collect();
    ensure!(no_panic(|| sval_test::assert_tokens(&f, &toks)).is_err(), "assert_tokens accepted a value that fails: {:?}", f.0);
    Ok(())
}

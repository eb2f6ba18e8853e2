//! Run-time side of the generated derive(Value) types: how values are made and what "the expected calls" are made of.
pub use sval::Tag;
pub use vh::engine::{Ctx, Fail, Src, R};
pub use vh::ev::{diff, record, Ev, Ix, Lb, Rec, M};
use vh::engine::{fail, jstr};

pub const T0: Tag = Tag::new("T0");
pub const T1: Tag = Tag::new("T1");
pub mod tags {
    use sval::Tag;
    pub const T2: Tag = Tag::new("T2");
    pub const T4: Tag = Tag::new("T4");
    pub mod deep {
        pub const T3: sval::Tag = sval::Tag::new("T3");
    }
}
pub const L0: sval::Label<'static> = sval::Label::new("zero");
pub mod labels {
    pub const L1: sval::Label<'static> = sval::Label::new("one").with_tag(&sval::tags::VALUE_IDENT);
    pub const L2: sval::Label<'static> = sval::Label::new("").with_tag(&super::T0);
}
pub const I0: isize = 7;
pub mod idx {
    pub const I1: isize = -3;
    pub const I2: isize = 1000;
}

pub fn st(s: &'static str) -> Lb {
    Lb::stat(s)
}
pub fn tagged(l: Lb, t: Tag) -> Lb {
    Lb { tag: Some(t), ..l }
}
/// the label of an identifier
pub fn ident(s: &'static str) -> Lb {
    tagged(st(s), sval::tags::VALUE_IDENT)
}
pub fn ix(v: i128) -> Ix {
    Ix::new(v)
}
/// the next zero-based offset
pub fn off(n: &mut isize) -> Ix {
    let v = *n;
    *n += 1;
    offv(v as i128)
}
pub fn offv(v: i128) -> Ix {
    Ix { v, tag: Some(sval::tags::VALUE_OFFSET) }
}

/// what a field's own value streams
pub fn val<V: sval::Value + ?Sized>(e: &mut Vec<Ev>, v: &V) {
    e.extend(record(v).expect("field value streams"));
}
fn flat(e: &mut Vec<Ev>, f: impl FnOnce(&mut Rec) -> sval::Result) {
    let mut r = Rec::new();
    f(&mut r).expect("field value flattens");
    e.extend(r.evs);
}
pub fn flat_rt<V: sval::Value>(e: &mut Vec<Ev>, v: &V, n: &mut isize) {
    flat(e, |r| sval_flatten::flatten_to_record_tuple(r, v, *n).map(|i| *n = i))
}
pub fn flat_rec<V: sval::Value>(e: &mut Vec<Ev>, v: &V, n: &mut isize) {
    flat(e, |r| sval_flatten::flatten_to_record(r, v, *n).map(|i| *n = i))
}
pub fn flat_tup<V: sval::Value>(e: &mut Vec<Ev>, v: &V, n: &mut isize) {
    flat(e, |r| sval_flatten::flatten_to_tuple(r, v, *n).map(|i| *n = i))
}
pub fn flat_seq<V: sval::Value>(e: &mut Vec<Ev>, v: &V, _: &mut isize) {
    flat(e, |r| sval_flatten::flatten_to_seq(r, v))
}

pub struct NoValue;

pub trait Mk {
    fn mk(s: &mut Src, d: usize) -> Self;
}
pub trait Model: sval::Value + Mk {
    fn model(&self) -> Vec<Ev>;
    /// what `Value::tag` returns, where the container decides it
    fn exp_tag() -> Option<Option<Tag>>;
}

macro_rules! ints {
    ($($t:ty),*) => {$(
        impl Mk for $t {
            fn mk(s: &mut Src, _: usize) -> Self {
                match s.n(4) { 0 => s.n(10) as $t, 1 => <$t>::MAX, 2 => <$t>::MIN, _ => s.bits() as $t }
            }
        }
    )*};
}
ints!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, usize, isize);
impl Mk for bool {
    fn mk(s: &mut Src, _: usize) -> Self {
        s.bool()
    }
}
impl Mk for () {
    fn mk(_: &mut Src, _: usize) {}
}
impl Mk for NoValue {
    fn mk(_: &mut Src, _: usize) -> Self {
        NoValue
    }
}
impl<T> Mk for std::marker::PhantomData<T> {
    fn mk(_: &mut Src, _: usize) -> Self {
        std::marker::PhantomData
    }
}
impl Mk for f32 {
    fn mk(s: &mut Src, _: usize) -> Self {
        vh::val::gen_f32(s)
    }
}
impl Mk for f64 {
    fn mk(s: &mut Src, _: usize) -> Self {
        vh::val::gen_f64(s)
    }
}
impl Mk for char {
    fn mk(s: &mut Src, _: usize) -> Self {
        vh::val::gen_char(s)
    }
}
impl Mk for String {
    fn mk(s: &mut Src, _: usize) -> Self {
        vh::val::gen_text(s, 12)
    }
}
impl Mk for &'static str {
    fn mk(s: &mut Src, _: usize) -> Self {
        ["", "a", "text", "\"quoted\"", "naïve 数", "line\nbreak"][s.n(6)]
    }
}
impl<T: Mk> Mk for Box<T> {
    fn mk(s: &mut Src, d: usize) -> Self {
        Box::new(T::mk(s, d))
    }
}
impl<T: Mk> Mk for Option<T> {
    fn mk(s: &mut Src, d: usize) -> Self {
        if s.chance(2, 3) { Some(T::mk(s, d)) } else { None }
    }
}
impl<T: Mk> Mk for Vec<T> {
    fn mk(s: &mut Src, d: usize) -> Self {
        let n = if d > 3 { s.n(2) } else { s.n(4) };
        (0..n).map(|_| T::mk(s, d)).collect()
    }
}
impl<T: Mk, const N: usize> Mk for [T; N] {
    fn mk(s: &mut Src, d: usize) -> Self {
        std::array::from_fn(|_| T::mk(s, d))
    }
}
impl<K: Mk + Ord, T: Mk> Mk for std::collections::BTreeMap<K, T> {
    fn mk(s: &mut Src, d: usize) -> Self {
        let n = if d > 3 { s.n(2) } else { s.n(4) };
        (0..n).map(|_| (K::mk(s, d), T::mk(s, d))).collect()
    }
}
macro_rules! tuples {
    ($($t:ident),*) => {
        impl<$($t: Mk),*> Mk for ($($t,)*) {
            fn mk(s: &mut Src, d: usize) -> Self { ($($t::mk(s, d),)*) }
        }
    };
}
tuples!(A);
tuples!(A, B);
tuples!(A, B, C);
tuples!(A, B, C, D);
tuples!(A, B, C, D, E);

pub struct Entry {
    pub name: &'static str,
    pub text: &'static str,
    pub run: fn(&mut Ctx, &Entry) -> R,
    pub classes: &'static [&'static str],
}

pub fn run_ty<T: Model>(cx: &mut Ctx, en: &Entry) -> R {
    let v = T::mk(&mut cx.src, 0);
    let exp = v.model();
    for c in en.classes {
        cx.class(c);
    }
    cx.nontrivial_if(en.text.contains("sval(") || exp.len() > 4);
    cx.sample(|| format!("{} streams {:?}", en.text, exp));
    let got = match record(&v) {
        Ok(g) => g,
        Err(e) => return fail(format!("{}: {e}", en.text)),
    };
    if exp != got {
        return fail(format!("{}\n{}", en.text, diff(&exp, &got)));
    }
    let tag = sval::Value::tag(&v);
    if T::exp_tag().is_some_and(|t| t != tag) {
        return fail(format!("{}\ntag() is {tag:?}, expected {:?}", en.text, T::exp_tag()));
    }
    // the same calls, each position failing once in a while: the error must end the stream
    if !exp.is_empty() && cx.src.chance(1, 4) {
        let k = cx.src.n(exp.len());
        let mut r = Rec::failing(k);
        let ok = sval::Value::stream(&v, &mut r).is_ok();
        if ok || r.after_fail > 0 || r.evs[..] != exp[..k] {
            return fail(format!("{}\nstream failing at call #{k}: ok={ok}, {} calls after the failure; calls {:?}", en.text, r.after_fail, r.evs));
        }
    }
    let _ = jstr;
    Ok(())
}

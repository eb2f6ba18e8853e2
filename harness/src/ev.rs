//! Stream calls as data: `Ev`, a recording stream (with maskable methods and fault injection),
//! and a `Value` that plays a list of calls back.
use std::fmt;
use sval::{Index, Label, Stream, Tag, Value};

#[derive(Clone)]
pub struct Lb {
    pub text: String,
    pub stat: Option<&'static str>,
    /// play back as an owned label instead of a computed one
    pub owned: bool,
    pub tag: Option<Tag>,
}
impl PartialEq for Lb {
    fn eq(&self, o: &Self) -> bool {
        self.text == o.text && self.stat.is_some() == o.stat.is_some() && self.tag == o.tag
    }
}
impl fmt::Debug for Lb {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}{:?}", if self.stat.is_some() { "'" } else if self.owned { "+" } else { "~" }, self.text)?;
        if let Some(t) = &self.tag {
            write!(f, "#{}", tagname(t))?;
        }
        Ok(())
    }
}
impl Lb {
    pub fn rec(l: &Label) -> Lb {
        Lb { text: l.as_str().to_string(), stat: l.as_static_str(), owned: false, tag: l.tag().cloned() }
    }
    pub fn stat(s: &'static str) -> Lb {
        Lb { text: s.to_string(), stat: Some(s), owned: false, tag: None }
    }
    pub fn dynamic(s: &str) -> Lb {
        Lb { text: s.to_string(), stat: None, owned: false, tag: None }
    }
    pub fn label(&self) -> Label<'_> {
        let l = match self.stat {
            Some(s) => Label::new(s),
            #[cfg(not(feature = "noalloc"))]
            None if self.owned => Label::new_owned(self.text.clone()),
            None => Label::new_computed(&self.text),
        };
        match &self.tag {
            Some(t) => l.with_tag(t),
            None => l,
        }
    }
}

#[derive(Clone, PartialEq)]
pub struct Ix {
    pub v: i128,
    pub tag: Option<Tag>,
}
impl fmt::Debug for Ix {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "@{}", self.v)?;
        if let Some(t) = &self.tag {
            write!(f, "#{}", tagname(t))?;
        }
        Ok(())
    }
}
impl Ix {
    pub fn new(v: i128) -> Ix {
        Ix { v, tag: None }
    }
    pub fn rec(i: &Index) -> Ix {
        Ix { v: i.to_string().parse().unwrap(), tag: i.tag().cloned() }
    }
    pub fn index(&self) -> Index {
        let i = if self.v >= 0 { Index::from(self.v as u64) } else { Index::from(self.v as i64) };
        match &self.tag {
            Some(t) => i.with_tag(t),
            None => i,
        }
    }
}

pub fn tagname(t: &Tag) -> String {
    let s = format!("{t:?}");
    s.trim_start_matches("Tag(\"").trim_end_matches("\")").to_string()
}

/// tag, label, index of a tagged thing
#[derive(Clone, PartialEq, Default)]
pub struct M {
    pub tag: Option<Tag>,
    pub label: Option<Lb>,
    pub index: Option<Ix>,
}
impl fmt::Debug for M {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "<")?;
        if let Some(t) = &self.tag {
            write!(f, "#{}", tagname(t))?;
        }
        if let Some(l) = &self.label {
            write!(f, " {l:?}")?;
        }
        if let Some(i) = &self.index {
            write!(f, " {i:?}")?;
        }
        write!(f, ">")
    }
}
impl M {
    pub fn rec(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> M {
        M { tag: t.cloned(), label: l.map(Lb::rec), index: i.map(Ix::rec) }
    }
    pub fn with<R>(&self, f: impl FnOnce(Option<&Tag>, Option<&Label>, Option<&Index>) -> R) -> R {
        let l = self.label.as_ref().map(|l| l.label());
        let i = self.index.as_ref().map(|i| i.index());
        f(self.tag.as_ref(), l.as_ref(), i.as_ref())
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Num {
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
}
impl Num {
    pub fn text(&self) -> String {
        match self {
            Num::I8(x) => x.to_string(),
            Num::I16(x) => x.to_string(),
            Num::I32(x) => x.to_string(),
            Num::I64(x) => x.to_string(),
            Num::I128(x) => x.to_string(),
            Num::U8(x) => x.to_string(),
            Num::U16(x) => x.to_string(),
            Num::U32(x) => x.to_string(),
            Num::U64(x) => x.to_string(),
            Num::U128(x) => x.to_string(),
        }
    }
    /// as i128, unless it is an u128 above i128::MAX
    pub fn i128(&self) -> Option<i128> {
        self.text().parse().ok()
    }
    pub fn u128(&self) -> Option<u128> {
        self.text().parse().ok()
    }
    pub fn stream<'a>(&self, s: &mut (impl Stream<'a> + ?Sized)) -> sval::Result {
        match *self {
            Num::I8(x) => s.i8(x),
            Num::I16(x) => s.i16(x),
            Num::I32(x) => s.i32(x),
            Num::I64(x) => s.i64(x),
            Num::I128(x) => s.i128(x),
            Num::U8(x) => s.u8(x),
            Num::U16(x) => s.u16(x),
            Num::U32(x) => s.u32(x),
            Num::U64(x) => s.u64(x),
            Num::U128(x) => s.u128(x),
        }
    }
}

#[derive(Clone, PartialEq)]
pub enum Ev {
    Null,
    Bool(bool),
    Num(Num),
    F32(u32),
    F64(u64),
    TextBegin(Option<usize>),
    TextFrag(String, bool),
    TextEnd,
    BinBegin(Option<usize>),
    BinFrag(Vec<u8>, bool),
    BinEnd,
    MapBegin(Option<usize>),
    MapKeyBegin,
    MapKeyEnd,
    MapValueBegin,
    MapValueEnd,
    MapEnd,
    SeqBegin(Option<usize>),
    SeqValueBegin,
    SeqValueEnd,
    SeqEnd,
    EnumBegin(M),
    EnumEnd(M),
    TaggedBegin(M),
    TaggedEnd(M),
    Tag(M),
    Hint(Tag),
    RecBegin(M, Option<usize>),
    RecValueBegin(Option<Tag>, Lb),
    RecValueEnd(Option<Tag>, Lb),
    RecEnd(M),
    TupBegin(M, Option<usize>),
    TupValueBegin(Option<Tag>, Ix),
    TupValueEnd(Option<Tag>, Ix),
    TupEnd(M),
    RtBegin(M, Option<usize>),
    RtValueBegin(Option<Tag>, Lb, Ix),
    RtValueEnd(Option<Tag>, Lb, Ix),
    RtEnd(M),
    /// markers, only recorded on request: a `value` / `value_computed` call
    Value,
    ValueComputed,
    /// playback only: fail with an error here
    Fail,
}
fn h(n: &Option<usize>) -> String {
    match n {
        None => "?".into(),
        Some(n) => n.to_string(),
    }
}
fn tg(t: &Option<Tag>) -> String {
    match t {
        None => String::new(),
        Some(t) => format!("#{} ", tagname(t)),
    }
}
impl fmt::Debug for Ev {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        use Ev::*;
        match self {
            Null => write!(f, "null"),
            Bool(b) => write!(f, "{b}"),
            Num(n) => write!(f, "{n:?}"),
            F32(b) => write!(f, "f32({:?})", f32::from_bits(*b)),
            F64(b) => write!(f, "f64({:?})", f64::from_bits(*b)),
            TextBegin(n) => write!(f, "text({})", h(n)),
            TextFrag(s, b) => write!(f, "{}{s:?}", if *b { "&" } else { "~" }),
            TextEnd => write!(f, "/text"),
            BinBegin(n) => write!(f, "bin({})", h(n)),
            BinFrag(s, b) => write!(f, "{}{s:?}", if *b { "&" } else { "~" }),
            BinEnd => write!(f, "/bin"),
            MapBegin(n) => write!(f, "map({})", h(n)),
            MapKeyBegin => write!(f, "k"),
            MapKeyEnd => write!(f, "/k"),
            MapValueBegin => write!(f, "v"),
            MapValueEnd => write!(f, "/v"),
            MapEnd => write!(f, "/map"),
            SeqBegin(n) => write!(f, "seq({})", h(n)),
            SeqValueBegin => write!(f, "i"),
            SeqValueEnd => write!(f, "/i"),
            SeqEnd => write!(f, "/seq"),
            EnumBegin(m) => write!(f, "enum{m:?}"),
            EnumEnd(m) => write!(f, "/enum{m:?}"),
            TaggedBegin(m) => write!(f, "tagged{m:?}"),
            TaggedEnd(m) => write!(f, "/tagged{m:?}"),
            Tag(m) => write!(f, "tag{m:?}"),
            Hint(t) => write!(f, "hint#{}", tagname(t)),
            RecBegin(m, n) => write!(f, "record{m:?}({})", h(n)),
            RecValueBegin(t, l) => write!(f, "rv({}{l:?})", tg(t)),
            RecValueEnd(t, l) => write!(f, "/rv({}{l:?})", tg(t)),
            RecEnd(m) => write!(f, "/record{m:?}"),
            TupBegin(m, n) => write!(f, "tuple{m:?}({})", h(n)),
            TupValueBegin(t, i) => write!(f, "tv({}{i:?})", tg(t)),
            TupValueEnd(t, i) => write!(f, "/tv({}{i:?})", tg(t)),
            TupEnd(m) => write!(f, "/tuple{m:?}"),
            RtBegin(m, n) => write!(f, "rectup{m:?}({})", h(n)),
            RtValueBegin(t, l, i) => write!(f, "rtv({}{l:?}{i:?})", tg(t)),
            RtValueEnd(t, l, i) => write!(f, "/rtv({}{l:?}{i:?})", tg(t)),
            RtEnd(m) => write!(f, "/rectup{m:?}"),
            Value => write!(f, "->value"),
            ValueComputed => write!(f, "->value_computed"),
            Fail => write!(f, "FAIL"),
        }
    }
}

/// optional methods that a recorder may leave to the trait's defaults
pub mod mask {
    pub const ALL: u64 = !0;
    pub const NAMES: [&str; 36] = [
        "text_fragment", "binary_begin", "binary_fragment", "binary_fragment_computed", "binary_end", "u8", "u16",
        "u32", "u64", "u128", "i8", "i16", "i32", "i128", "f32", "map_begin", "map_key_begin", "map_key_end",
        "map_value_begin", "map_value_end", "map_end", "enum_begin", "enum_end", "tagged_begin", "tagged_end", "tag",
        "tag_hint", "record", "tuple", "record_tuple", "_", "_", "_", "_", "_", "_",
    ];
}

/// Records every call. Methods whose mask bit is clear run sval's documented default instead.
pub struct Rec {
    pub evs: Vec<Ev>,
    pub mask: u64,
    pub log_nesting: bool,
    pub fail_at: Option<usize>,
    pub failed: bool,
    pub after_fail: usize,
    /// address of every borrowed fragment, in order
    pub ptrs: Vec<(usize, usize)>,
    pub limit: usize,
}
impl Default for Rec {
    fn default() -> Self {
        Rec::new()
    }
}
impl Rec {
    pub fn new() -> Self {
        Rec { evs: Vec::new(), mask: mask::ALL, log_nesting: false, fail_at: None, failed: false, after_fail: 0, ptrs: Vec::new(), limit: 5_000_000 }
    }
    pub fn nesting() -> Self {
        Rec { log_nesting: true, ..Rec::new() }
    }
    pub fn masked(mask: u64) -> Self {
        Rec { mask, ..Rec::new() }
    }
    pub fn failing(k: usize) -> Self {
        Rec { fail_at: Some(k), ..Rec::new() }
    }
    fn push(&mut self, e: Ev) -> sval::Result {
        if self.failed {
            self.after_fail += 1;
            return sval::error();
        }
        if self.evs.len() >= self.limit {
            panic!("stream receives calls without end");
        }
        if self.fail_at == Some(self.evs.len()) {
            self.failed = true;
            return sval::error();
        }
        self.evs.push(e);
        Ok(())
    }
    fn on(&self, bit: u32) -> bool {
        self.mask & (1 << bit) != 0
    }
}

use sval::default_stream as d;

impl<'sval> Stream<'sval> for Rec {
    fn value<V: Value + ?Sized>(&mut self, v: &'sval V) -> sval::Result {
        if self.log_nesting {
            self.push(Ev::Value)?;
        }
        d::value(self, v)
    }
    fn value_computed<V: Value + ?Sized>(&mut self, v: &V) -> sval::Result {
        if self.log_nesting {
            self.push(Ev::ValueComputed)?;
        }
        d::value_computed(self, v)
    }
    fn null(&mut self) -> sval::Result {
        self.push(Ev::Null)
    }
    fn bool(&mut self, b: bool) -> sval::Result {
        self.push(Ev::Bool(b))
    }
    fn text_begin(&mut self, n: Option<usize>) -> sval::Result {
        self.push(Ev::TextBegin(n))
    }
    fn text_fragment(&mut self, s: &'sval str) -> sval::Result {
        if !self.on(0) {
            return d::text_fragment(self, s);
        }
        self.ptrs.push((s.as_ptr() as usize, s.len()));
        self.push(Ev::TextFrag(s.into(), true))
    }
    fn text_fragment_computed(&mut self, s: &str) -> sval::Result {
        self.push(Ev::TextFrag(s.into(), false))
    }
    fn text_end(&mut self) -> sval::Result {
        self.push(Ev::TextEnd)
    }
    fn binary_begin(&mut self, n: Option<usize>) -> sval::Result {
        if !self.on(1) {
            return d::binary_begin(self, n);
        }
        self.push(Ev::BinBegin(n))
    }
    fn binary_fragment(&mut self, s: &'sval [u8]) -> sval::Result {
        if !self.on(2) {
            return d::binary_fragment(self, s);
        }
        self.ptrs.push((s.as_ptr() as usize, s.len()));
        self.push(Ev::BinFrag(s.into(), true))
    }
    fn binary_fragment_computed(&mut self, s: &[u8]) -> sval::Result {
        if !self.on(3) {
            return d::binary_fragment_computed(self, s);
        }
        self.push(Ev::BinFrag(s.into(), false))
    }
    fn binary_end(&mut self) -> sval::Result {
        if !self.on(4) {
            return d::binary_end(self);
        }
        self.push(Ev::BinEnd)
    }
    fn u8(&mut self, v: u8) -> sval::Result {
        if !self.on(5) {
            return d::u8(self, v);
        }
        self.push(Ev::Num(Num::U8(v)))
    }
    fn u16(&mut self, v: u16) -> sval::Result {
        if !self.on(6) {
            return d::u16(self, v);
        }
        self.push(Ev::Num(Num::U16(v)))
    }
    fn u32(&mut self, v: u32) -> sval::Result {
        if !self.on(7) {
            return d::u32(self, v);
        }
        self.push(Ev::Num(Num::U32(v)))
    }
    fn u64(&mut self, v: u64) -> sval::Result {
        if !self.on(8) {
            return d::u64(self, v);
        }
        self.push(Ev::Num(Num::U64(v)))
    }
    fn u128(&mut self, v: u128) -> sval::Result {
        if !self.on(9) {
            return d::u128(self, v);
        }
        self.push(Ev::Num(Num::U128(v)))
    }
    fn i8(&mut self, v: i8) -> sval::Result {
        if !self.on(10) {
            return d::i8(self, v);
        }
        self.push(Ev::Num(Num::I8(v)))
    }
    fn i16(&mut self, v: i16) -> sval::Result {
        if !self.on(11) {
            return d::i16(self, v);
        }
        self.push(Ev::Num(Num::I16(v)))
    }
    fn i32(&mut self, v: i32) -> sval::Result {
        if !self.on(12) {
            return d::i32(self, v);
        }
        self.push(Ev::Num(Num::I32(v)))
    }
    fn i64(&mut self, v: i64) -> sval::Result {
        self.push(Ev::Num(Num::I64(v)))
    }
    fn i128(&mut self, v: i128) -> sval::Result {
        if !self.on(13) {
            return d::i128(self, v);
        }
        self.push(Ev::Num(Num::I128(v)))
    }
    fn f32(&mut self, v: f32) -> sval::Result {
        if !self.on(14) {
            return d::f32(self, v);
        }
        self.push(Ev::F32(v.to_bits()))
    }
    fn f64(&mut self, v: f64) -> sval::Result {
        self.push(Ev::F64(v.to_bits()))
    }
    fn map_begin(&mut self, n: Option<usize>) -> sval::Result {
        if !self.on(15) {
            return d::map_begin(self, n);
        }
        self.push(Ev::MapBegin(n))
    }
    fn map_key_begin(&mut self) -> sval::Result {
        if !self.on(16) {
            return d::map_key_begin(self);
        }
        self.push(Ev::MapKeyBegin)
    }
    fn map_key_end(&mut self) -> sval::Result {
        if !self.on(17) {
            return d::map_key_end(self);
        }
        self.push(Ev::MapKeyEnd)
    }
    fn map_value_begin(&mut self) -> sval::Result {
        if !self.on(18) {
            return d::map_value_begin(self);
        }
        self.push(Ev::MapValueBegin)
    }
    fn map_value_end(&mut self) -> sval::Result {
        if !self.on(19) {
            return d::map_value_end(self);
        }
        self.push(Ev::MapValueEnd)
    }
    fn map_end(&mut self) -> sval::Result {
        if !self.on(20) {
            return d::map_end(self);
        }
        self.push(Ev::MapEnd)
    }
    fn seq_begin(&mut self, n: Option<usize>) -> sval::Result {
        self.push(Ev::SeqBegin(n))
    }
    fn seq_value_begin(&mut self) -> sval::Result {
        self.push(Ev::SeqValueBegin)
    }
    fn seq_value_end(&mut self) -> sval::Result {
        self.push(Ev::SeqValueEnd)
    }
    fn seq_end(&mut self) -> sval::Result {
        self.push(Ev::SeqEnd)
    }
    fn enum_begin(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> sval::Result {
        if !self.on(21) {
            return d::enum_begin(self, t, l, i);
        }
        self.push(Ev::EnumBegin(M::rec(t, l, i)))
    }
    fn enum_end(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> sval::Result {
        if !self.on(22) {
            return d::enum_end(self, t, l, i);
        }
        self.push(Ev::EnumEnd(M::rec(t, l, i)))
    }
    fn tagged_begin(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> sval::Result {
        if !self.on(23) {
            return d::tagged_begin(self, t, l, i);
        }
        self.push(Ev::TaggedBegin(M::rec(t, l, i)))
    }
    fn tagged_end(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> sval::Result {
        if !self.on(24) {
            return d::tagged_end(self, t, l, i);
        }
        self.push(Ev::TaggedEnd(M::rec(t, l, i)))
    }
    fn tag(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> sval::Result {
        if !self.on(25) {
            return d::tag(self, t, l, i);
        }
        self.push(Ev::Tag(M::rec(t, l, i)))
    }
    fn tag_hint(&mut self, t: &Tag) -> sval::Result {
        if !self.on(26) {
            return d::tag_hint(self, t);
        }
        self.push(Ev::Hint(t.clone()))
    }
    fn record_begin(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>, n: Option<usize>) -> sval::Result {
        if !self.on(27) {
            return d::record_begin(self, t, l, i, n);
        }
        self.push(Ev::RecBegin(M::rec(t, l, i), n))
    }
    fn record_value_begin(&mut self, t: Option<&Tag>, l: &Label) -> sval::Result {
        if !self.on(27) {
            return d::record_value_begin(self, t, l);
        }
        self.push(Ev::RecValueBegin(t.cloned(), Lb::rec(l)))
    }
    fn record_value_end(&mut self, t: Option<&Tag>, l: &Label) -> sval::Result {
        if !self.on(27) {
            return d::record_value_end(self, t, l);
        }
        self.push(Ev::RecValueEnd(t.cloned(), Lb::rec(l)))
    }
    fn record_end(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> sval::Result {
        if !self.on(27) {
            return d::record_end(self, t, l, i);
        }
        self.push(Ev::RecEnd(M::rec(t, l, i)))
    }
    fn tuple_begin(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>, n: Option<usize>) -> sval::Result {
        if !self.on(28) {
            return d::tuple_begin(self, t, l, i, n);
        }
        self.push(Ev::TupBegin(M::rec(t, l, i), n))
    }
    fn tuple_value_begin(&mut self, t: Option<&Tag>, i: &Index) -> sval::Result {
        if !self.on(28) {
            return d::tuple_value_begin(self, t, i);
        }
        self.push(Ev::TupValueBegin(t.cloned(), Ix::rec(i)))
    }
    fn tuple_value_end(&mut self, t: Option<&Tag>, i: &Index) -> sval::Result {
        if !self.on(28) {
            return d::tuple_value_end(self, t, i);
        }
        self.push(Ev::TupValueEnd(t.cloned(), Ix::rec(i)))
    }
    fn tuple_end(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> sval::Result {
        if !self.on(28) {
            return d::tuple_end(self, t, l, i);
        }
        self.push(Ev::TupEnd(M::rec(t, l, i)))
    }
    fn record_tuple_begin(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>, n: Option<usize>) -> sval::Result {
        if !self.on(29) {
            return d::record_tuple_begin(self, t, l, i, n);
        }
        self.push(Ev::RtBegin(M::rec(t, l, i), n))
    }
    fn record_tuple_value_begin(&mut self, t: Option<&Tag>, l: &Label, i: &Index) -> sval::Result {
        if !self.on(29) {
            return d::record_tuple_value_begin(self, t, l, i);
        }
        self.push(Ev::RtValueBegin(t.cloned(), Lb::rec(l), Ix::rec(i)))
    }
    fn record_tuple_value_end(&mut self, t: Option<&Tag>, l: &Label, i: &Index) -> sval::Result {
        if !self.on(29) {
            return d::record_tuple_value_end(self, t, l, i);
        }
        self.push(Ev::RtValueEnd(t.cloned(), Lb::rec(l), Ix::rec(i)))
    }
    fn record_tuple_end(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> sval::Result {
        if !self.on(29) {
            return d::record_tuple_end(self, t, l, i);
        }
        self.push(Ev::RtEnd(M::rec(t, l, i)))
    }
}

/// Implements only the required methods of `Stream`.
#[derive(Default)]
pub struct MinRec {
    pub evs: Vec<Ev>,
}
impl<'sval> Stream<'sval> for MinRec {
    fn null(&mut self) -> sval::Result {
        self.evs.push(Ev::Null);
        Ok(())
    }
    fn bool(&mut self, v: bool) -> sval::Result {
        self.evs.push(Ev::Bool(v));
        Ok(())
    }
    fn text_begin(&mut self, n: Option<usize>) -> sval::Result {
        self.evs.push(Ev::TextBegin(n));
        Ok(())
    }
    fn text_fragment_computed(&mut self, s: &str) -> sval::Result {
        self.evs.push(Ev::TextFrag(s.into(), false));
        Ok(())
    }
    fn text_end(&mut self) -> sval::Result {
        self.evs.push(Ev::TextEnd);
        Ok(())
    }
    fn i64(&mut self, v: i64) -> sval::Result {
        self.evs.push(Ev::Num(Num::I64(v)));
        Ok(())
    }
    fn f64(&mut self, v: f64) -> sval::Result {
        self.evs.push(Ev::F64(v.to_bits()));
        Ok(())
    }
    fn seq_begin(&mut self, n: Option<usize>) -> sval::Result {
        self.evs.push(Ev::SeqBegin(n));
        Ok(())
    }
    fn seq_value_begin(&mut self) -> sval::Result {
        self.evs.push(Ev::SeqValueBegin);
        Ok(())
    }
    fn seq_value_end(&mut self) -> sval::Result {
        self.evs.push(Ev::SeqValueEnd);
        Ok(())
    }
    fn seq_end(&mut self) -> sval::Result {
        self.evs.push(Ev::SeqEnd);
        Ok(())
    }
}

/// Plays calls back, one method call per event.
pub fn play<'sval, S: Stream<'sval> + ?Sized>(evs: &'sval [Ev], s: &mut S) -> sval::Result {
    for e in evs {
        play_one(e, s)?;
    }
    Ok(())
}
pub fn play_one<'sval, S: Stream<'sval> + ?Sized>(e: &'sval Ev, s: &mut S) -> sval::Result {
    match e {
        Ev::Null => s.null(),
        Ev::Bool(b) => s.bool(*b),
        Ev::Num(n) => n.stream(s),
        Ev::F32(b) => s.f32(f32::from_bits(*b)),
        Ev::F64(b) => s.f64(f64::from_bits(*b)),
        Ev::TextBegin(n) => s.text_begin(*n),
        Ev::TextFrag(t, true) => s.text_fragment(t),
        Ev::TextFrag(t, false) => s.text_fragment_computed(t),
        Ev::TextEnd => s.text_end(),
        Ev::BinBegin(n) => s.binary_begin(*n),
        Ev::BinFrag(t, true) => s.binary_fragment(t),
        Ev::BinFrag(t, false) => s.binary_fragment_computed(t),
        Ev::BinEnd => s.binary_end(),
        Ev::MapBegin(n) => s.map_begin(*n),
        Ev::MapKeyBegin => s.map_key_begin(),
        Ev::MapKeyEnd => s.map_key_end(),
        Ev::MapValueBegin => s.map_value_begin(),
        Ev::MapValueEnd => s.map_value_end(),
        Ev::MapEnd => s.map_end(),
        Ev::SeqBegin(n) => s.seq_begin(*n),
        Ev::SeqValueBegin => s.seq_value_begin(),
        Ev::SeqValueEnd => s.seq_value_end(),
        Ev::SeqEnd => s.seq_end(),
        Ev::EnumBegin(m) => m.with(|t, l, i| s.enum_begin(t, l, i)),
        Ev::EnumEnd(m) => m.with(|t, l, i| s.enum_end(t, l, i)),
        Ev::TaggedBegin(m) => m.with(|t, l, i| s.tagged_begin(t, l, i)),
        Ev::TaggedEnd(m) => m.with(|t, l, i| s.tagged_end(t, l, i)),
        Ev::Tag(m) => m.with(|t, l, i| s.tag(t, l, i)),
        Ev::Hint(t) => s.tag_hint(t),
        Ev::RecBegin(m, n) => m.with(|t, l, i| s.record_begin(t, l, i, *n)),
        Ev::RecValueBegin(t, l) => s.record_value_begin(t.as_ref(), &l.label()),
        Ev::RecValueEnd(t, l) => s.record_value_end(t.as_ref(), &l.label()),
        Ev::RecEnd(m) => m.with(|t, l, i| s.record_end(t, l, i)),
        Ev::TupBegin(m, n) => m.with(|t, l, i| s.tuple_begin(t, l, i, *n)),
        Ev::TupValueBegin(t, i) => s.tuple_value_begin(t.as_ref(), &i.index()),
        Ev::TupValueEnd(t, i) => s.tuple_value_end(t.as_ref(), &i.index()),
        Ev::TupEnd(m) => m.with(|t, l, i| s.tuple_end(t, l, i)),
        Ev::RtBegin(m, n) => m.with(|t, l, i| s.record_tuple_begin(t, l, i, *n)),
        Ev::RtValueBegin(t, l, i) => s.record_tuple_value_begin(t.as_ref(), &l.label(), &i.index()),
        Ev::RtValueEnd(t, l, i) => s.record_tuple_value_end(t.as_ref(), &l.label(), &i.index()),
        Ev::RtEnd(m) => m.with(|t, l, i| s.record_tuple_end(t, l, i)),
        Ev::Value | Ev::ValueComputed => Ok(()),
        Ev::Fail => sval::error(),
    }
}

/// A `Value` that plays back calls.
pub struct Play(pub Vec<Ev>);
impl Value for Play {
    fn stream<'sval, S: Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        play(&self.0, s)
    }
}

pub fn record<V: Value + ?Sized>(v: &V) -> Result<Vec<Ev>, String> {
    let mut r = Rec::new();
    match v.stream(&mut r) {
        Ok(()) => Ok(r.evs),
        Err(_) => Err(format!("streaming failed after {:?}", r.evs)),
    }
}

/// Merge fragments of one text/binary into a single computed fragment (none if empty).
pub fn norm_frags(evs: &[Ev]) -> Vec<Ev> {
    let mut out: Vec<Ev> = Vec::new();
    for e in evs {
        match e {
            Ev::TextFrag(s, _) => {
                if let Some(Ev::TextFrag(p, _)) = out.last_mut() {
                    p.push_str(s);
                } else if !s.is_empty() {
                    out.push(Ev::TextFrag(s.clone(), false));
                }
            }
            Ev::BinFrag(s, _) => {
                if let Some(Ev::BinFrag(p, _)) = out.last_mut() {
                    p.extend_from_slice(s);
                } else if !s.is_empty() {
                    out.push(Ev::BinFrag(s.clone(), false));
                }
            }
            e => out.push(e.clone()),
        }
    }
    out
}
pub fn norm_computed(evs: &[Ev]) -> Vec<Ev> {
    evs.iter()
        .map(|e| match e {
            Ev::TextFrag(s, _) => Ev::TextFrag(s.clone(), false),
            Ev::BinFrag(s, _) => Ev::BinFrag(s.clone(), false),
            e => e.clone(),
        })
        .collect()
}
pub fn drop_hints(evs: &[Ev]) -> Vec<Ev> {
    evs.iter().filter(|e| !matches!(e, Ev::Hint(_))).cloned().collect()
}
/// Forget size hints everywhere.
pub fn drop_sizes(evs: &[Ev]) -> Vec<Ev> {
    evs.iter()
        .map(|e| match e.clone() {
            Ev::TextBegin(_) => Ev::TextBegin(None),
            Ev::BinBegin(_) => Ev::BinBegin(None),
            Ev::MapBegin(_) => Ev::MapBegin(None),
            Ev::SeqBegin(_) => Ev::SeqBegin(None),
            Ev::RecBegin(m, _) => Ev::RecBegin(m, None),
            Ev::TupBegin(m, _) => Ev::TupBegin(m, None),
            Ev::RtBegin(m, _) => Ev::RtBegin(m, None),
            e => e,
        })
        .collect()
}
/// Forget whether labels are static.
pub fn drop_static(evs: &[Ev]) -> Vec<Ev> {
    fn l(x: Lb) -> Lb {
        Lb { stat: None, ..x }
    }
    fn m(x: M) -> M {
        M { label: x.label.map(l), ..x }
    }
    evs.iter()
        .map(|e| match e.clone() {
            Ev::EnumBegin(x) => Ev::EnumBegin(m(x)),
            Ev::EnumEnd(x) => Ev::EnumEnd(m(x)),
            Ev::TaggedBegin(x) => Ev::TaggedBegin(m(x)),
            Ev::TaggedEnd(x) => Ev::TaggedEnd(m(x)),
            Ev::Tag(x) => Ev::Tag(m(x)),
            Ev::RecBegin(x, n) => Ev::RecBegin(m(x), n),
            Ev::RecValueBegin(t, x) => Ev::RecValueBegin(t, l(x)),
            Ev::RecValueEnd(t, x) => Ev::RecValueEnd(t, l(x)),
            Ev::RecEnd(x) => Ev::RecEnd(m(x)),
            Ev::TupBegin(x, n) => Ev::TupBegin(m(x), n),
            Ev::TupEnd(x) => Ev::TupEnd(m(x)),
            Ev::RtBegin(x, n) => Ev::RtBegin(m(x), n),
            Ev::RtValueBegin(t, x, i) => Ev::RtValueBegin(t, l(x), i),
            Ev::RtValueEnd(t, x, i) => Ev::RtValueEnd(t, l(x), i),
            Ev::RtEnd(x) => Ev::RtEnd(m(x)),
            e => e,
        })
        .collect()
}

pub fn diff(exp: &[Ev], got: &[Ev]) -> String {
    let i = exp.iter().zip(got).position(|(a, b)| a != b).unwrap_or(exp.len().min(got.len()));
    let w = |v: &[Ev]| {
        let lo = i.saturating_sub(3);
        let hi = (i + 4).min(v.len());
        format!("{:?}", &v[lo.min(v.len())..hi.max(lo.min(v.len()))])
    };
    format!("calls differ at #{i} (expected {} calls, got {}): expected ..{} got ..{}", exp.len(), got.len(), w(exp), w(got))
}

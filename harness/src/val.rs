//! The value model: a tree of everything sval's data model can express, how each part is streamed,
//! its reference call sequence, and its generator.
use crate::engine::Src;
use crate::ev::*;
use sval::{tags, Stream, Tag, Value};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
    Inline,
    Value,
    Computed,
}

#[derive(Clone, Debug)]
pub struct C {
    pub mode: Mode,
    pub v: V,
}

#[derive(Clone, Debug)]
pub struct Frag<T> {
    pub data: T,
    pub borrowed: bool,
}

#[derive(Clone, Debug)]
pub enum V {
    Null,
    Bool(bool),
    Num(Num),
    F32(f32),
    F64(f64),
    Text(Option<usize>, Vec<Frag<String>>),
    Bin(Option<usize>, Vec<Frag<Vec<u8>>>),
    Seq(Option<usize>, Vec<C>),
    Map(Option<usize>, Vec<(C, C)>),
    Tag(M),
    Tagged(M, Box<C>),
    Rec(M, Option<usize>, Vec<(Option<Tag>, Lb, C)>),
    Tup(M, Option<usize>, Vec<(Option<Tag>, Ix, C)>),
    Rt(M, Option<usize>, Vec<(Option<Tag>, Lb, Ix, C)>),
    Enum(M, Option<Box<C>>),
    /// a tag hint followed by the value
    Hinted(Tag, Box<C>),
}

impl C {
    fn put<'a, S: Stream<'a> + ?Sized>(&'a self, s: &mut S) -> sval::Result {
        match self.mode {
            Mode::Inline => self.v.stream(s),
            Mode::Value => s.value(&self.v),
            Mode::Computed => s.value_computed(&self.v),
        }
    }
    pub fn inline(v: V) -> C {
        C { mode: Mode::Inline, v }
    }
}

impl Value for C {
    fn stream<'sval, S: Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        self.put(s)
    }
}

thread_local! {
    /// (nodes to go, fail after the node instead of before it)
    static FUSE: std::cell::Cell<Option<(usize, bool)>> = const { std::cell::Cell::new(None) };
}
/// Run with the n-th streamed node failing, before or after its calls; tells whether it did.
pub fn with_fuse<T>(n: usize, after: bool, f: impl FnOnce() -> T) -> (T, bool) {
    FUSE.with(|c| c.set(Some((n, after))));
    let r = f();
    let blown = FUSE.with(|c| c.take().is_none());
    (r, blown)
}
fn fuse() -> Option<bool> {
    FUSE.with(|c| match c.get() {
        None => None,
        Some((0, after)) => {
            c.set(None);
            Some(after)
        }
        Some((n, after)) => {
            c.set(Some((n - 1, after)));
            None
        }
    })
}

impl Value for V {
    fn stream<'sval, S: Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        match fuse() {
            None => self.put(s),
            Some(false) => sval::error(),
            Some(true) => {
                self.put(s)?;
                sval::error()
            }
        }
    }
}

impl V {
    fn put<'sval, S: Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        match self {
            V::Null => s.null(),
            V::Bool(b) => s.bool(*b),
            V::Num(n) => n.stream(s),
            V::F32(x) => s.f32(*x),
            V::F64(x) => s.f64(*x),
            V::Text(n, fs) => {
                s.text_begin(*n)?;
                for f in fs {
                    if f.borrowed {
                        s.text_fragment(&f.data)?;
                    } else {
                        s.text_fragment_computed(&f.data.clone())?;
                    }
                }
                s.text_end()
            }
            V::Bin(n, fs) => {
                s.binary_begin(*n)?;
                for f in fs {
                    if f.borrowed {
                        s.binary_fragment(&f.data)?;
                    } else {
                        s.binary_fragment_computed(&f.data.clone())?;
                    }
                }
                s.binary_end()
            }
            V::Seq(n, xs) => {
                s.seq_begin(*n)?;
                for x in xs {
                    s.seq_value_begin()?;
                    x.put(s)?;
                    s.seq_value_end()?;
                }
                s.seq_end()
            }
            V::Map(n, xs) => {
                s.map_begin(*n)?;
                for (k, v) in xs {
                    s.map_key_begin()?;
                    k.put(s)?;
                    s.map_key_end()?;
                    s.map_value_begin()?;
                    v.put(s)?;
                    s.map_value_end()?;
                }
                s.map_end()
            }
            V::Tag(m) => m.with(|t, l, i| s.tag(t, l, i)),
            V::Tagged(m, x) => {
                m.with(|t, l, i| s.tagged_begin(t, l, i))?;
                x.put(s)?;
                m.with(|t, l, i| s.tagged_end(t, l, i))
            }
            V::Rec(m, n, xs) => {
                m.with(|t, l, i| s.record_begin(t, l, i, *n))?;
                for (t, l, x) in xs {
                    s.record_value_begin(t.as_ref(), &l.label())?;
                    x.put(s)?;
                    s.record_value_end(t.as_ref(), &l.label())?;
                }
                m.with(|t, l, i| s.record_end(t, l, i))
            }
            V::Tup(m, n, xs) => {
                m.with(|t, l, i| s.tuple_begin(t, l, i, *n))?;
                for (t, ix, x) in xs {
                    s.tuple_value_begin(t.as_ref(), &ix.index())?;
                    x.put(s)?;
                    s.tuple_value_end(t.as_ref(), &ix.index())?;
                }
                m.with(|t, l, i| s.tuple_end(t, l, i))
            }
            V::Rt(m, n, xs) => {
                m.with(|t, l, i| s.record_tuple_begin(t, l, i, *n))?;
                for (t, l, ix, x) in xs {
                    s.record_tuple_value_begin(t.as_ref(), &l.label(), &ix.index())?;
                    x.put(s)?;
                    s.record_tuple_value_end(t.as_ref(), &l.label(), &ix.index())?;
                }
                m.with(|t, l, i| s.record_tuple_end(t, l, i))
            }
            V::Enum(m, x) => {
                m.with(|t, l, i| s.enum_begin(t, l, i))?;
                if let Some(x) = x {
                    x.put(s)?;
                }
                m.with(|t, l, i| s.enum_end(t, l, i))
            }
            V::Hinted(t, x) => {
                s.tag_hint(t)?;
                x.put(s)
            }
        }
    }
}

/// The reference call sequence, written independently of any stream implementation.
pub fn events(v: &V) -> Vec<Ev> {
    let mut o = Vec::new();
    ev_into(v, false, &mut o);
    o
}
fn child(c: &C, computed: bool, o: &mut Vec<Ev>) {
    ev_into(&c.v, computed || c.mode == Mode::Computed, o)
}
fn ev_into(v: &V, computed: bool, o: &mut Vec<Ev>) {
    match v {
        V::Null => o.push(Ev::Null),
        V::Bool(b) => o.push(Ev::Bool(*b)),
        V::Num(n) => o.push(Ev::Num(n.clone())),
        V::F32(x) => o.push(Ev::F32(x.to_bits())),
        V::F64(x) => o.push(Ev::F64(x.to_bits())),
        V::Text(n, fs) => {
            o.push(Ev::TextBegin(*n));
            for f in fs {
                o.push(Ev::TextFrag(f.data.clone(), f.borrowed && !computed));
            }
            o.push(Ev::TextEnd);
        }
        V::Bin(n, fs) => {
            o.push(Ev::BinBegin(*n));
            for f in fs {
                o.push(Ev::BinFrag(f.data.clone(), f.borrowed && !computed));
            }
            o.push(Ev::BinEnd);
        }
        V::Seq(n, xs) => {
            o.push(Ev::SeqBegin(*n));
            for x in xs {
                o.push(Ev::SeqValueBegin);
                child(x, computed, o);
                o.push(Ev::SeqValueEnd);
            }
            o.push(Ev::SeqEnd);
        }
        V::Map(n, xs) => {
            o.push(Ev::MapBegin(*n));
            for (k, v) in xs {
                o.push(Ev::MapKeyBegin);
                child(k, computed, o);
                o.push(Ev::MapKeyEnd);
                o.push(Ev::MapValueBegin);
                child(v, computed, o);
                o.push(Ev::MapValueEnd);
            }
            o.push(Ev::MapEnd);
        }
        V::Tag(m) => o.push(Ev::Tag(m.clone())),
        V::Tagged(m, x) => {
            o.push(Ev::TaggedBegin(m.clone()));
            child(x, computed, o);
            o.push(Ev::TaggedEnd(m.clone()));
        }
        V::Rec(m, n, xs) => {
            o.push(Ev::RecBegin(m.clone(), *n));
            for (t, l, x) in xs {
                o.push(Ev::RecValueBegin(t.clone(), l.clone()));
                child(x, computed, o);
                o.push(Ev::RecValueEnd(t.clone(), l.clone()));
            }
            o.push(Ev::RecEnd(m.clone()));
        }
        V::Tup(m, n, xs) => {
            o.push(Ev::TupBegin(m.clone(), *n));
            for (t, i, x) in xs {
                o.push(Ev::TupValueBegin(t.clone(), i.clone()));
                child(x, computed, o);
                o.push(Ev::TupValueEnd(t.clone(), i.clone()));
            }
            o.push(Ev::TupEnd(m.clone()));
        }
        V::Rt(m, n, xs) => {
            o.push(Ev::RtBegin(m.clone(), *n));
            for (t, l, i, x) in xs {
                o.push(Ev::RtValueBegin(t.clone(), l.clone(), i.clone()));
                child(x, computed, o);
                o.push(Ev::RtValueEnd(t.clone(), l.clone(), i.clone()));
            }
            o.push(Ev::RtEnd(m.clone()));
        }
        V::Enum(m, x) => {
            o.push(Ev::EnumBegin(m.clone()));
            if let Some(x) = x {
                child(x, computed, o);
            }
            o.push(Ev::EnumEnd(m.clone()));
        }
        V::Hinted(t, x) => {
            o.push(Ev::Hint(t.clone()));
            child(x, computed, o);
        }
    }
}

pub fn size(v: &V) -> usize {
    let mut n = 0;
    walk(v, &mut |_| n += 1);
    n
}
pub fn depth(v: &V) -> usize {
    1 + kids(v).into_iter().map(depth).max().unwrap_or(0)
}
pub fn kids(v: &V) -> Vec<&V> {
    match v {
        V::Seq(_, xs) => xs.iter().map(|x| &x.v).collect(),
        V::Map(_, xs) => xs.iter().flat_map(|(k, v)| [&k.v, &v.v]).collect(),
        V::Tagged(_, x) | V::Hinted(_, x) => vec![&x.v],
        V::Rec(_, _, xs) => xs.iter().map(|x| &x.2.v).collect(),
        V::Tup(_, _, xs) => xs.iter().map(|x| &x.2.v).collect(),
        V::Rt(_, _, xs) => xs.iter().map(|x| &x.3.v).collect(),
        V::Enum(_, Some(x)) => vec![&x.v],
        _ => vec![],
    }
}
pub fn walk(v: &V, f: &mut impl FnMut(&V)) {
    f(v);
    for k in kids(v) {
        walk(k, f);
    }
}
pub fn text_of(fs: &[Frag<String>]) -> String {
    fs.iter().map(|f| f.data.as_str()).collect()
}
pub fn bytes_of(fs: &[Frag<Vec<u8>>]) -> Vec<u8> {
    fs.iter().flat_map(|f| f.data.iter().copied()).collect()
}

// ---------------------------------------------------------------- generator

#[derive(Clone)]
pub struct Cfg {
    pub nodes: usize,
    pub depth: usize,
    /// map keys restricted to things with a scalar JSON image
    pub scalar_keys: bool,
    /// allow tags that change interpretation: Option/unit, NUMBER, VALUE_IDENT
    pub tags: bool,
    /// allow the text tags of sval_json (each crate decides what they mean)
    pub json_tags: bool,
    pub hints: bool,
    pub enums: bool,
    /// `enum_begin` directly followed by `enum_end`
    pub empty_enums: bool,
    /// enum variant directly inside an enum variant
    pub nested_enums: bool,
    pub binary: bool,
    pub modes: bool,
    /// size hints may be absent (they are always truthful)
    pub absent_sizes: bool,
    pub frags: bool,
    /// labels always on records
    pub dyn_labels: bool,
    pub label_tags: bool,
    pub floats: bool,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            nodes: 24,
            depth: 6,
            scalar_keys: false,
            tags: true,
            json_tags: false,
            hints: true,
            enums: true,
            empty_enums: true,
            nested_enums: true,
            binary: true,
            modes: true,
            absent_sizes: true,
            frags: true,
            dyn_labels: true,
            label_tags: true,
            floats: true,
        }
    }
}

pub const TAGS: &[Tag] = &[
    Tag::new("A"),
    Tag::new("B"),
    Tag::new("app.custom"),
    tags::CONSTANT_SIZE,
    Tag::new("some-much-longer-tag-name::with::segments"),
];
pub const T_JSON_TEXT: Tag = sval_json::tags::JSON_TEXT;
pub const T_JSON_VALUE: Tag = sval_json::tags::JSON_VALUE;
pub const T_JSON_NUMBER: Tag = sval_json::tags::JSON_NUMBER;

pub const LABELS: &[&str] = &[
    "a", "b", "field", "value_0", "", "A", "Some", "None", "x\"y", "back\\slash", "new\nline", "tab\t", "é", "日本", "\u{1F600}", "0", "1",
    "-1", "\u{0}", "\u{1f}", "\u{7f}", "/", "</script>", "with space", "a.b", "\u{2028}", "end\"", "type", "a_rather_long_field_label_for_buffers",
];
pub const IDENTS: &[&str] = &["a", "b", "field", "value_0", "A", "Some", "None", "type", "ident_1", "Zed"];

pub fn gen_char(s: &mut Src) -> char {
    match s.weighted(&[20, 8, 6, 6, 4, 2, 1, 1]) {
        0 => (b'a' + s.n(26) as u8) as char,
        1 => *s.pick(&['"', '\\', '\n', '\r', '\t', '\u{8}', '\u{c}', '/', '\'', '\u{0}', '\u{7f}', '{', '}', '[', ']', ',', ':']),
        2 => (s.n(0x20) as u8) as char,
        3 => (0x20 + s.n(0x60) as u8) as char,
        4 => *s.pick(&['é', 'ß', '\u{80}', '\u{7ff}', '\u{800}', '日', '\u{fffd}', '\u{ffff}', '\u{2028}', '\u{2029}', '\u{feff}', '\u{200b}']),
        5 => *s.pick(&['\u{10000}', '\u{1F600}', '\u{10ffff}', '\u{1d11e}', '\u{d7ff}', '\u{e000}', '\u{fffe}', '\u{fdd0}', '\u{ad}', '\u{200d}', '\u{fff9}']),
        6 => char::from_u32(0x80 + s.n(0x780) as u32).unwrap_or('\u{80}'),
        _ => char::from_u32(s.n(0x110000) as u32).unwrap_or('\u{e001}'),
    }
}
pub fn gen_text(s: &mut Src, max: usize) -> String {
    let n = s.len(max);
    let t: String = (0..n).map(|_| gen_char(s)).collect();
    if s.chance(1, 64) {
        // an exact byte length around a power of two, repeating what was drawn
        let want = want_len(s);
        let mut o = String::with_capacity(want);
        for c in t.chars().chain("abc".chars()).collect::<Vec<_>>().iter().cycle() {
            if o.len() + c.len_utf8() > want {
                break;
            }
            o.push(*c);
        }
        while o.len() < want {
            o.push('z');
        }
        return o;
    }
    t
}
fn want_len(s: &mut Src) -> usize {
    if s.chance(1, 40) && !std::mem::replace(&mut s.huge, true) { *s.pick(HUGE) } else { *s.pick(LENGTHS) }
}
const HUGE: &[usize] = &[2047, 2048, 4095, 4096, 4097, 5000, 8192, 16384, 32768, 65535, 65536, 65537];
const LENGTHS: &[usize] = &[15, 16, 17, 22, 23, 24, 31, 32, 33, 39, 40, 41, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 513, 1024, 1500];
/// Split text at char boundaries into fragments, possibly with empty ones.
pub fn split_text(s: &mut Src, t: &str, frags: bool) -> Vec<Frag<String>> {
    if !frags {
        return vec![Frag { data: t.into(), borrowed: true }];
    }
    let style = s.weighted(&[4, 4, 2]);
    let mut out: Vec<Frag<String>> = Vec::new();
    match style {
        0 => out.push(Frag { data: t.into(), borrowed: s.bool() }),
        1 => {
            let mut cur = String::new();
            for c in t.chars() {
                if s.chance(1, 4) {
                    out.push(Frag { data: std::mem::take(&mut cur), borrowed: s.bool() });
                }
                cur.push(c);
            }
            if !cur.is_empty() || s.chance(1, 3) {
                out.push(Frag { data: cur, borrowed: s.bool() });
            }
        }
        _ => {
            let b = s.bool();
            for c in t.chars() {
                out.push(Frag { data: c.into(), borrowed: b });
            }
        }
    }
    out
}
pub fn gen_bytes(s: &mut Src, max: usize) -> Vec<u8> {
    let n = s.len(max);
    let t: Vec<u8> = (0..n).map(|_| if s.chance(1, 4) { s.n(256) as u8 } else { *s.pick(&[0u8, 1, 9, 10, 34, 92, 97, 99, 100, 127, 128, 200, 254, 255]) }).collect();
    if s.chance(1, 64) {
        let want = want_len(s);
        return t.iter().copied().chain([7, 0, 255]).collect::<Vec<_>>().into_iter().cycle().take(want).collect();
    }
    t
}
pub fn split_bytes(s: &mut Src, t: &[u8], frags: bool) -> Vec<Frag<Vec<u8>>> {
    if !frags || s.bool() {
        return vec![Frag { data: t.into(), borrowed: s.bool() }];
    }
    let mut out = Vec::new();
    let mut cur = Vec::new();
    for b in t {
        if s.chance(1, 3) {
            out.push(Frag { data: std::mem::take(&mut cur), borrowed: s.bool() });
        }
        cur.push(*b);
    }
    if !cur.is_empty() || s.chance(1, 3) {
        out.push(Frag { data: cur, borrowed: s.bool() });
    }
    out
}
pub fn gen_int(s: &mut Src) -> Num {
    macro_rules! g {
        ($t:ty, $v:ident) => {{
            let x = match s.weighted(&[4, 2, 2, 2, 1]) {
                0 => s.n(20) as $t,
                // around a power of two or ten of any size
                4 => {
                    let p = if s.bool() { 1u128 << s.n(128) } else { 10u128.pow(s.n(39) as u32) };
                    let p = p.wrapping_add(s.n(3) as u128).wrapping_sub(1);
                    (if s.bool() { p.wrapping_neg() } else { p }) as $t
                }
                1 => <$t>::MAX.wrapping_sub(s.n(3) as $t),
                2 => <$t>::MIN.wrapping_add(s.n(3) as $t),
                _ => {
                    let hi = s.bits() as u128;
                    let x = (hi << 64) | s.bits() as u128;
                    let sh = s.n(128) as u32;
                    (x >> sh) as $t
                }
            };
            Num::$v(x)
        }};
    }
    match s.n(10) {
        0 => g!(i64, I64),
        1 => g!(i8, I8),
        2 => g!(i16, I16),
        3 => g!(i32, I32),
        4 => g!(i128, I128),
        5 => g!(u8, U8),
        6 => g!(u16, U16),
        7 => g!(u32, U32),
        8 => g!(u64, U64),
        _ => g!(u128, U128),
    }
}
pub fn gen_f64(s: &mut Src) -> f64 {
    match s.weighted(&[4, 3, 3, 2, 1]) {
        0 => s.n(100) as f64 - 50.0,
        1 => *s.pick(&[
            0.0,
            -0.0,
            0.1,
            1.5,
            1e21,
            1e16,
            1e15,
            123456789012345680.0,
            1e-5,
            1e-6,
            1e-7,
            5e-324,
            f64::MAX,
            f64::MIN,
            f64::MIN_POSITIVE,
            f64::NAN,
            f64::INFINITY,
            f64::NEG_INFINITY,
            9007199254740993.0,
            -9223372036854775808.0,
            18446744073709551616.0,
            1.7976931348623157e308,
        ]),
        2 => f64::from_bits(s.bits()),
        4 => {
            let x = if s.bool() { 10f64.powi(s.n(640) as i32 - 325) } else { 2f64.powi(s.n(2100) as i32 - 1075) };
            let x = f64::from_bits(x.to_bits().wrapping_add(s.n(3) as u64).wrapping_sub(1));
            if s.bool() { -x } else { x }
        }
        _ => (s.bits() as i64 as f64) / 1000.0,
    }
}
pub fn gen_f32(s: &mut Src) -> f32 {
    match s.weighted(&[4, 3, 3, 1]) {
        3 => {
            let x = if s.bool() { 10f32.powi(s.n(86) as i32 - 46) } else { 2f32.powi(s.n(280) as i32 - 150) };
            let x = f32::from_bits(x.to_bits().wrapping_add(s.n(3) as u32).wrapping_sub(1));
            if s.bool() { -x } else { x }
        }
        0 => s.n(100) as f32 - 50.0,
        1 => *s.pick(&[0.0f32, -0.0, 0.1, 1.5, 16777217.0, 1e21, 1e-7, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-45, f32::NAN, f32::INFINITY, f32::NEG_INFINITY]),
        _ => f32::from_bits(s.bits() as u32),
    }
}
/// A text of the NUMBER grammar.
pub fn gen_number_text(s: &mut Src) -> String {
    let mut o = String::new();
    match s.weighted(&[5, 3, 1]) {
        0 => {}
        1 => o.push('-'),
        _ => o.push('+'),
    }
    let digits = |s: &mut Src, max: usize, o: &mut String| {
        let n = 1 + s.len(max);
        for _ in 0..n {
            o.push((b'0' + if s.chance(1, 3) { 0 } else { s.n(10) as u8 }) as char);
        }
    };
    digits(s, 12, &mut o);
    if s.chance(1, 3) {
        o.push('.');
        digits(s, 8, &mut o);
    }
    if s.chance(1, 3) {
        o.push(*s.pick(&['e', 'E']));
        match s.n(3) {
            0 => {}
            1 => o.push('-'),
            _ => o.push('+'),
        }
        digits(s, 2, &mut o);
    }
    o
}

pub struct Gen<'a> {
    pub cfg: Cfg,
    pub left: usize,
    pub s: &'a mut Src,
}

pub fn gen(s: &mut Src, cfg: &Cfg) -> V {
    let left = 1 + s.n(cfg.nodes);
    let mut g = Gen { cfg: cfg.clone(), left, s };
    let depth = g.cfg.depth;
    let v = g.any(depth);
    if g.s.chance(1, 64) { g.deep(v) } else { v }
}

impl<'a> Gen<'a> {
    /// wrap a value in many layers of containers
    fn deep(&mut self, v: V) -> V {
        let n = if self.s.chance(1, 12) && !std::mem::replace(&mut self.s.huge, true) { *self.s.pick(&[63usize, 64, 65, 100, 127, 128, 129, 150, 255, 256, 257, 300]) } else { *self.s.pick(&[7usize, 8, 9, 15, 16, 17, 31, 32, 33, 40]) };
        let pat: Vec<usize> = (0..1 + self.s.n(3)).map(|_| self.s.n(6)).collect();
        let mut v = v;
        for i in 0..n {
            let c = C { mode: self.mode(), v };
            v = match pat[i % pat.len()] {
                0 => V::Seq(Some(1), vec![c]),
                1 => V::Map(Some(1), vec![(C { mode: Mode::Value, v: V::Text(Some(1), vec![Frag { data: "k".into(), borrowed: true }]) }, c)]),
                2 => V::Rec(M::default(), Some(1), vec![(None, Lb::stat("r"), c)]),
                3 => V::Tup(M::default(), Some(1), vec![(None, Ix::new(0), c)]),
                4 => V::Rt(M::default(), Some(1), vec![(None, Lb::stat("rt"), Ix::new(0), c)]),
                _ => V::Tagged(M { tag: None, label: Some(Lb::stat("T")), index: None }, Box::new(c)),
            };
        }
        v
    }
    /// occasionally repeat the last entry, mostly with a number that tells the copies apart, so that containers get wide
    fn widen<T: Clone>(&mut self, xs: &mut Vec<T>, vary: impl Fn(&mut T, usize)) {
        if !xs.is_empty() && self.left > 0 && self.s.chance(1, 64) {
            let x = xs[xs.len() - 1].clone();
            let want = if self.s.chance(1, 12) && !std::mem::replace(&mut self.s.huge, true) { *self.s.pick(&[255usize, 256, 257, 300, 512, 1000, 1024, 1025]) } else { *self.s.pick(&[9usize, 15, 16, 17, 31, 32, 33, 64, 65, 128, 129]) };
            let plain = self.s.chance(1, 4);
            while xs.len() < want {
                let mut x = x.clone();
                // every eighth copy stays as it is
                if !plain && xs.len() % 8 != 7 {
                    vary(&mut x, xs.len());
                }
                xs.push(x);
            }
            self.left = self.left.saturating_sub(10);
        }
    }
    fn mode(&mut self) -> Mode {
        if !self.cfg.modes {
            return Mode::Value;
        }
        [Mode::Inline, Mode::Value, Mode::Computed][self.s.weighted(&[3, 3, 2])]
    }
    pub fn lb(&mut self) -> Lb {
        let ident = self.cfg.label_tags && self.s.chance(1, 4);
        let pool = if ident { IDENTS } else { LABELS };
        let text: &'static str = self.s.pick(pool);
        let kind = if self.cfg.dyn_labels { self.s.weighted(&[3, 1, 1]) } else { 0 };
        let tag = if ident {
            Some(tags::VALUE_IDENT)
        } else if self.cfg.label_tags && self.s.chance(1, 8) {
            Some(self.s.pick(TAGS).clone())
        } else {
            None
        };
        let dynamic = |g: &mut Self| if g.s.chance(1, 3) && !ident { gen_text(g.s, 12) } else { text.to_string() };
        match kind {
            0 => Lb { text: text.into(), stat: Some(text), owned: false, tag },
            1 => Lb { text: dynamic(self), stat: None, owned: false, tag },
            _ => Lb { text: dynamic(self), stat: None, owned: true, tag },
        }
    }
    pub fn ix(&mut self) -> Ix {
        let v = match self.s.weighted(&[6, 1, 1, 1]) {
            0 => self.s.n(8) as i128,
            1 => -(self.s.n(5) as i128),
            2 => *self.s.pick(&[i32::MAX as i128, u32::MAX as i128, i64::MAX as i128, i64::MIN as i128, u64::MAX as i128, i64::MAX as i128 + 1]),
            _ => self.s.bits() as i64 as i128,
        };
        let tag = if self.cfg.label_tags && self.s.chance(1, 4) { Some(self.s.pick(&[tags::VALUE_OFFSET, TAGS[0].clone()]).clone()) } else { None };
        Ix { v, tag }
    }
    fn opt_tag(&mut self) -> Option<Tag> {
        if self.s.chance(1, 4) {
            Some(self.s.pick(TAGS).clone())
        } else {
            None
        }
    }
    pub fn meta(&mut self) -> M {
        let tag = self.opt_tag();
        let label = if self.s.chance(2, 3) { Some(self.lb()) } else { None };
        let index = if self.s.chance(1, 2) { Some(self.ix()) } else { None };
        M { tag, label, index }
    }
    fn hint(&mut self, n: usize) -> Option<usize> {
        if self.cfg.absent_sizes && self.s.bool() {
            None
        } else {
            Some(n)
        }
    }
    pub fn text(&mut self) -> V {
        let t = gen_text(self.s, 20);
        self.text_from(&t)
    }
    pub fn text_from(&mut self, t: &str) -> V {
        let f = self.cfg.frags;
        let fs = split_text(self.s, t, f);
        V::Text(self.hint(t.len()), fs)
    }
    pub fn bin(&mut self) -> V {
        let b = gen_bytes(self.s, 16);
        let f = self.cfg.frags;
        let fs = split_bytes(self.s, &b, f);
        V::Bin(self.hint(b.len()), fs)
    }
    pub fn scalar(&mut self) -> V {
        match self.s.weighted(&[1, 2, 5, 5, 2, 1]) {
            0 => V::Null,
            1 => V::Bool(self.s.bool()),
            2 => V::Num(gen_int(self.s)),
            3 => self.text(),
            4 => {
                if self.cfg.floats {
                    if self.s.bool() { V::F64(gen_f64(self.s)) } else { V::F32(gen_f32(self.s)) }
                } else {
                    V::Num(gen_int(self.s))
                }
            }
            _ => V::Tag(self.tag_meta()),
        }
    }
    fn tag_meta(&mut self) -> M {
        if self.cfg.tags && self.s.chance(1, 2) {
            match self.s.n(3) {
                0 => M { tag: Some(tags::RUST_UNIT), label: None, index: None },
                1 => M { tag: Some(tags::RUST_OPTION_NONE), label: Some(Lb::stat("None")), index: Some(Ix::new(0)) },
                _ => M { tag: Some(tags::RUST_OPTION_NONE), label: None, index: None },
            }
        } else {
            self.meta()
        }
    }
    pub fn key(&mut self, d: usize) -> V {
        if !self.cfg.scalar_keys && self.s.chance(1, 4) {
            return self.any(d);
        }
        match self.s.weighted(&[6, 3, 1, 1]) {
            0 => self.text(),
            1 => self.scalar(),
            2 => {
                let m = self.meta();
                let x = self.key(d.saturating_sub(1));
                if d == 0 { x } else { V::Tagged(m, Box::new(C { mode: self.mode(), v: x })) }
            }
            _ => {
                if !self.cfg.enums {
                    return self.text();
                }
                let m = self.meta();
                let t = self.tag_meta();
                V::Enum(m, Some(Box::new(C { mode: self.mode(), v: V::Tag(t) })))
            }
        }
    }
    pub fn child(&mut self, d: usize) -> C {
        let mode = self.mode();
        C { mode, v: self.any(d) }
    }
    /// something that may be an enum variant
    pub fn variant(&mut self, d: usize) -> V {
        match self.s.weighted(&[3, 4, 2, 2, 1, if self.cfg.nested_enums && d > 0 { 1 } else { 0 }]) {
            0 => V::Tag(self.tag_meta()),
            1 => self.tagged(d),
            2 => self.record(d),
            3 => self.tuple(d),
            4 => self.rectup(d),
            _ => self.enumeration(d.saturating_sub(1)),
        }
    }
    pub fn enumeration(&mut self, d: usize) -> V {
        let m = self.meta();
        if self.cfg.empty_enums && self.s.chance(1, 40) {
            return V::Enum(m, None);
        }
        let mode = self.mode();
        let v = self.variant(d);
        V::Enum(m, Some(Box::new(C { mode, v })))
    }
    pub fn tagged(&mut self, d: usize) -> V {
        let mut m = self.meta();
        if self.cfg.tags {
            match self.s.weighted(&[6, 2, 1, if self.cfg.json_tags { 2 } else { 0 }]) {
                0 => {}
                1 => {
                    m = M { tag: Some(tags::RUST_OPTION_SOME), label: Some(Lb::stat("Some")), index: Some(Ix::new(1)) };
                }
                2 => {
                    m.tag = Some(tags::NUMBER);
                    let t = gen_number_text(self.s);
                    let x = self.text_from(&t);
                    return V::Tagged(m, Box::new(C { mode: self.mode(), v: x }));
                }
                _ => {
                    let (tag, t) = match self.s.n(3) {
                        0 => {
                            // content of a JSON string literal
                            let t = gen_text(self.s, 12);
                            let q = crate::engine::jstr(&t);
                            (T_JSON_TEXT, q[1..q.len() - 1].to_string())
                        }
                        1 => {
                            let t = *self.s.pick(&["null", "true", "1", "-1.5e3", "\"x\"", "[1,2]", "{\"a\":[{}]}", "{}", "[]", "\"\\n\""]);
                            (T_JSON_VALUE, t.to_string())
                        }
                        _ => {
                            let t = *self.s.pick(&["0", "-0", "12", "1.5", "1e5", "-1.25E-10", "123456789012345678901234567890", "0.10", "1E+2"]);
                            (T_JSON_NUMBER, t.to_string())
                        }
                    };
                    m.tag = Some(tag);
                    let x = self.text_from(&t);
                    return V::Tagged(m, Box::new(C { mode: self.mode(), v: x }));
                }
            }
        }
        let x = self.child(d.saturating_sub(1));
        V::Tagged(m, Box::new(x))
    }
    fn count(&mut self, d: usize) -> usize {
        if d == 0 || self.left == 0 {
            return 0;
        }
        let m = self.left.min(6);
        self.s.n(m + 1)
    }
    pub fn record(&mut self, d: usize) -> V {
        let m = self.meta();
        let n = self.count(d);
        let mut xs: Vec<_> = (0..n).map(|_| (self.opt_tag(), self.lb(), self.child(d - 1))).collect();
        self.widen(&mut xs, |x, i| x.2.v = V::Num(Num::I32(i as i32)));
        let n = xs.len();
        V::Rec(m, self.hint(n), xs)
    }
    pub fn tuple(&mut self, d: usize) -> V {
        let m = self.meta();
        let n = self.count(d);
        let mut xs: Vec<_> = (0..n).map(|i| (self.opt_tag(), if self.s.chance(1, 3) { self.ix() } else { Ix::new(i as i128) }, self.child(d - 1))).collect();
        self.widen(&mut xs, |x, i| (x.1.v, x.2.v) = (i as i128, V::Num(Num::I32(i as i32))));
        let n = xs.len();
        V::Tup(m, self.hint(n), xs)
    }
    pub fn rectup(&mut self, d: usize) -> V {
        let m = self.meta();
        let n = self.count(d);
        let mut xs: Vec<_> =
            (0..n).map(|i| (self.opt_tag(), self.lb(), if self.s.chance(1, 3) { self.ix() } else { Ix::new(i as i128) }, self.child(d - 1))).collect();
        self.widen(&mut xs, |x, i| (x.2.v, x.3.v) = (i as i128, V::Num(Num::I32(i as i32))));
        let n = xs.len();
        V::Rt(m, self.hint(n), xs)
    }
    pub fn seq(&mut self, d: usize) -> V {
        let n = self.count(d);
        let mut xs: Vec<_> = (0..n).map(|_| self.child(d - 1)).collect();
        self.widen(&mut xs, |x, i| x.v = V::Num(Num::I32(i as i32)));
        let n = xs.len();
        V::Seq(self.hint(n), xs)
    }
    pub fn map(&mut self, d: usize) -> V {
        let n = self.count(d);
        let mut xs: Vec<_> = (0..n)
            .map(|_| {
                let mode = self.mode();
                let k = self.key(d - 1);
                (C { mode, v: k }, self.child(d - 1))
            })
            .collect();
        self.widen(&mut xs, |x, i| x.1.v = V::Num(Num::I32(i as i32)));
        let n = xs.len();
        V::Map(self.hint(n), xs)
    }
    pub fn any(&mut self, d: usize) -> V {
        if self.left == 0 || d == 0 {
            return self.scalar();
        }
        self.left -= 1;
        let e = if self.cfg.enums { 1 } else { 0 };
        let b = if self.cfg.binary { 1 } else { 0 };
        let h = if self.cfg.hints { 1 } else { 0 };
        match self.s.weighted(&[5, 4, 4, 3, 3, 2, 3, 5 * e, b, h]) {
            0 => self.scalar(),
            1 => self.seq(d),
            2 => self.map(d),
            3 => self.record(d),
            4 => self.tuple(d),
            5 => self.rectup(d),
            6 => self.tagged(d),
            7 => self.enumeration(d),
            8 => self.bin(),
            _ => {
                let t = self.s.pick(TAGS).clone();
                let x = self.child(d - 1);
                V::Hinted(t, Box::new(x))
            }
        }
    }
}

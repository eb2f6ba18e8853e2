//! A recursive family of Rust types deriving sval::Value, serde::Serialize and Debug, with generators.
use crate::engine::Src;
use crate::val::*;
use serde::Serialize;
use std::collections::BTreeMap;
use std::fmt;
use sval_derive::Value;

/// Any member of the family; all three traits delegate to the content without adding anything.
#[derive(Clone)]
pub enum D {
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    F32(f32),
    F64(f64),
    Char(char),
    Str(String),
    Nil(()),
    Opt(Option<Box<D>>),
    Vec(Vec<D>),
    Arr([Box<D>; 2]),
    Arr0([i32; 0]),
    T1(Box<(D,)>),
    T2(Box<(D, D)>),
    T4(Box<(D, u8, D, String)>),
    Map(BTreeMap<String, D>),
    MapI(BTreeMap<i32, D>),
    MapU(BTreeMap<u128, D>),
    MapB(BTreeMap<bool, D>),
    MapE(BTreeMap<Key, D>),
    MapN(BTreeMap<NewKey, D>),
    Unit(Unit),
    Empty(Empty),
    EmptyT(EmptyT),
    New(Box<New>),
    NewS(NewS),
    Pair(Box<Pair>),
    Quad(Box<Quad>),
    One(Box<One>),
    Three(Box<Three>),
    Gen(Box<Gen<D>>),
    GenS(Gen<Vec<Option<String>>>),
    Raw(Box<Raw>),
    E(Box<E>),
    GE(Box<GE<D>>),
    GU(GE<()>),
}
#[derive(Value, Serialize, Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub enum Key {
    A,
    Beta,
    LongerVariantName,
}
#[derive(Value, Serialize, Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct NewKey(pub String);
#[derive(Value, Serialize, Debug, Clone)]
pub struct Unit;
#[derive(Value, Serialize, Debug, Clone)]
pub struct Empty {}
#[derive(Value, Serialize, Debug, Clone)]
pub struct EmptyT();
#[derive(Value, Serialize, Debug, Clone)]
pub struct New(pub D);
#[derive(Value, Serialize, Debug, Clone)]
pub struct NewS(pub String);
#[derive(Value, Serialize, Debug, Clone)]
pub struct Pair(pub D, pub D);
#[derive(Value, Serialize, Debug, Clone)]
pub struct Quad(pub D, pub i8, pub Option<D>, pub Vec<u64>);
#[derive(Value, Serialize, Debug, Clone)]
pub struct One {
    pub a: D,
}
#[derive(Value, Serialize, Debug, Clone)]
pub struct Three {
    pub a: D,
    pub b_field: Option<D>,
    pub c: Vec<D>,
}
#[derive(Value, Serialize, Debug, Clone)]
pub struct Gen<T> {
    pub inner: T,
    pub n: u64,
}
#[derive(Value, Serialize, Debug, Clone)]
pub struct Raw {
    pub ctype: D,
    pub b: (),
    pub _c: bool,
}
#[derive(Value, Serialize, Debug, Clone)]
pub enum E {
    A,
    B(D),
    C(D, D),
    F { x: D },
    Z {},
    T(),
    O(Option<D>),
    V(Vec<D>),
    X(Box<E>),
    U(()),
    N(New),
    S(Unit),
    P { x: D, y: Option<E2>, zed: Vec<E2> },
    R((D, D)),
    W(BTreeMap<String, D>),
}
#[derive(Value, Serialize, Debug, Clone)]
pub enum E2 {
    One,
    Two(u8, String),
    Three(Box<D>),
}
#[derive(Value, Serialize, Debug, Clone)]
pub enum GE<T> {
    L(T),
    R { t: T, u: Option<T> },
    N,
    P(T, T),
}

macro_rules! delegate {
    ($($v:ident)+) => {
        impl sval::Value for D {
            fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
                match self { $(D::$v(x) => x.stream(s),)+ }
            }
        }
        impl Serialize for D {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                match self { $(D::$v(x) => x.serialize(s),)+ }
            }
        }
        impl fmt::Debug for D {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                match self { $(D::$v(x) => fmt::Debug::fmt(x, f),)+ }
            }
        }
        impl D {
            /// the innermost member, as dynamic values
            pub fn with(&self, f: &mut dyn FnMut(&dyn sval_dynamic::Value)) {
                match self { $(D::$v(x) => f(x),)+ }
            }
        }
    };
}
delegate!(Bool I8 I16 I32 I64 I128 U8 U16 U32 U64 U128 F32 F64 Char Str Nil Opt Vec Arr Arr0 T1 T2 T4 Map MapI MapU MapB MapE MapN Unit Empty EmptyT New NewS Pair Quad One Three Gen GenS Raw E GE GU);

#[derive(Clone, Copy)]
pub struct Feat {
    pub floats: bool,
    pub text: fn(&mut Src) -> String,
    pub chars: bool,
    pub maps: bool,
    pub one_tuples: bool,
    pub arrays: bool,
    pub unit_structs: bool,
    /// structs and variants with braces or parentheses but no fields
    pub empty_structs: bool,
}
pub fn any_text(s: &mut Src) -> String {
    gen_text(s, 10)
}
pub struct G<'a> {
    pub s: &'a mut Src,
    pub f: Feat,
    pub left: usize,
}
impl G<'_> {
    fn int(&mut self) -> D {
        match gen_int(self.s) {
            crate::ev::Num::I8(x) => D::I8(x),
            crate::ev::Num::I16(x) => D::I16(x),
            crate::ev::Num::I32(x) => D::I32(x),
            crate::ev::Num::I64(x) => D::I64(x),
            crate::ev::Num::I128(x) => D::I128(x),
            crate::ev::Num::U8(x) => D::U8(x),
            crate::ev::Num::U16(x) => D::U16(x),
            crate::ev::Num::U32(x) => D::U32(x),
            crate::ev::Num::U64(x) => D::U64(x),
            crate::ev::Num::U128(x) => D::U128(x),
        }
    }
    fn str(&mut self) -> String {
        (self.f.text)(self.s)
    }
    fn leaf(&mut self) -> D {
        match self.s.weighted(&[5, 4, 1, 1, 1, 2, 1, 2]) {
            0 => self.int(),
            1 => D::Str(self.str()),
            2 => D::Nil(()),
            3 => D::Bool(self.s.bool()),
            4 => {
                if self.f.chars {
                    D::Char(gen_char(self.s))
                } else {
                    D::Bool(self.s.bool())
                }
            }
            5 => {
                if self.f.floats {
                    if self.s.bool() { D::F64(gen_f64(self.s)) } else { D::F32(gen_f32(self.s)) }
                } else {
                    self.int()
                }
            }
            6 => D::Opt(None),
            _ => {
                if self.f.unit_structs {
                    D::Unit(Unit)
                } else {
                    D::E(Box::new(E::A))
                }
            }
        }
    }
    fn vec(&mut self, d: usize) -> Vec<D> {
        let n = if d == 0 { 0 } else { self.s.n(4) };
        let mut v: Vec<D> = (0..n).map(|_| self.any(d - 1)).collect();
        if n > 0 && self.s.chance(1, 200) && !std::mem::replace(&mut self.s.huge, true) {
            let want = *self.s.pick(&[9usize, 16, 17, 32, 33, 65, 127, 129, 255, 257, 300]);
            while v.len() < want {
                v.push(v[v.len() % n].clone());
            }
        }
        v
    }
    fn opt(&mut self, d: usize) -> Option<D> {
        if self.s.bool() { Some(self.any(d.saturating_sub(1))) } else { None }
    }
    fn e2(&mut self, d: usize) -> E2 {
        match self.s.n(3) {
            0 => E2::One,
            1 => E2::Two(self.s.n(256) as u8, self.str()),
            _ => E2::Three(Box::new(self.any(d))),
        }
    }
    fn e(&mut self, d: usize) -> E {
        let d = d.saturating_sub(1);
        match self.s.n(15) {
            0 => E::A,
            1 => E::B(self.any(d)),
            2 => E::C(self.any(d), self.any(d)),
            3 => E::F { x: self.any(d) },
            4 if self.f.empty_structs => E::Z {},
            5 if self.f.empty_structs => E::T(),
            6 => E::O(self.opt(d)),
            7 => E::V(self.vec(d)),
            8 if d > 0 => E::X(Box::new(self.e(d))),
            9 => E::U(()),
            10 => E::N(New(self.any(d))),
            11 if self.f.unit_structs => E::S(Unit),
            12 => {
                let x = self.any(d);
                let y = if self.s.bool() { Some(self.e2(d)) } else { None };
                let n = if d == 0 { 0 } else { self.s.n(3) };
                E::P { x, y, zed: (0..n).map(|_| self.e2(d - 1)).collect() }
            }
            13 => E::R((self.any(d), self.any(d))),
            14 if self.f.maps => E::W(self.map(d)),
            _ => E::A,
        }
    }
    fn map(&mut self, d: usize) -> BTreeMap<String, D> {
        let n = if d == 0 { 0 } else { self.s.n(4) };
        (0..n).map(|_| (self.str(), self.any(d - 1))).collect()
    }
    pub fn any(&mut self, d: usize) -> D {
        if d == 0 || self.left == 0 {
            return self.leaf();
        }
        self.left -= 1;
        let d1 = d - 1;
        match self.s.n(24) {
            0 => self.leaf(),
            1 => D::Opt(self.opt(d).map(Box::new)),
            2 => D::Vec(self.vec(d)),
            3 if self.f.arrays => D::Arr([Box::new(self.any(d1)), Box::new(self.any(d1))]),
            4 if self.f.arrays => D::Arr0([]),
            5 if self.f.one_tuples => D::T1(Box::new((self.any(d1),))),
            6 => D::T2(Box::new((self.any(d1), self.any(d1)))),
            7 => D::T4(Box::new((self.any(d1), self.s.n(256) as u8, self.any(d1), self.str()))),
            8 if self.f.maps => match self.s.n(6) {
                0 => D::Map(self.map(d)),
                1 => D::MapI((0..self.s.n(3)).map(|_| (self.s.n(9) as i32 - 4, self.any(d1))).collect()),
                2 => D::MapU((0..self.s.n(3)).map(|_| (self.s.bits() as u128 * self.s.bits() as u128, self.any(d1))).collect()),
                3 => D::MapB((0..self.s.n(3)).map(|_| (self.s.bool(), self.any(d1))).collect()),
                4 => D::MapE((0..self.s.n(3)).map(|_| ([Key::A, Key::Beta, Key::LongerVariantName][self.s.n(3)].clone(), self.any(d1))).collect()),
                _ => D::MapN((0..self.s.n(3)).map(|_| (NewKey(self.str()), self.any(d1))).collect()),
            },
            9 if self.f.empty_structs => if self.s.bool() { D::Empty(Empty {}) } else { D::EmptyT(EmptyT()) },
            10 => D::New(Box::new(New(self.any(d1)))),
            11 => D::NewS(NewS(self.str())),
            12 => D::Pair(Box::new(Pair(self.any(d1), self.any(d1)))),
            13 => {
                let n = self.s.n(4);
                D::Quad(Box::new(Quad(self.any(d1), self.s.n(256) as u8 as i8, self.opt(d1), (0..n).map(|_| self.s.bits()).collect())))
            }
            14 => D::One(Box::new(One { a: self.any(d1) })),
            15 => D::Three(Box::new(Three { a: self.any(d1), b_field: self.opt(d1), c: self.vec(d1) })),
            16 => D::Gen(Box::new(Gen { inner: self.any(d1), n: self.s.bits() })),
            17 => {
                let n = self.s.n(3);
                D::GenS(Gen { inner: (0..n).map(|_| if self.s.bool() { Some(self.str()) } else { None }).collect(), n: 0 })
            }
            18 => D::Raw(Box::new(Raw { ctype: self.any(d1), b: (), _c: self.s.bool() })),
            19 => D::GE(Box::new(match self.s.n(4) {
                0 => GE::L(self.any(d1)),
                1 => GE::R { t: self.any(d1), u: self.opt(d1) },
                2 => GE::N,
                _ => GE::P(self.any(d1), self.any(d1)),
            })),
            20 => D::GU(match self.s.n(4) {
                0 => GE::L(()),
                1 => GE::R { t: (), u: if self.s.bool() { Some(()) } else { None } },
                2 => GE::N,
                _ => GE::P((), ()),
            }),
            _ => D::E(Box::new(self.e(d))),
        }
    }
}
pub fn gen_dual(s: &mut Src, f: Feat, nodes: usize, depth: usize) -> D {
    let left = 1 + s.n(nodes);
    let mut g = G { s, f, left };
    let mut v = g.any(depth);
    if g.s.chance(1, 400) && !std::mem::replace(&mut g.s.huge, true) {
        // many layers of containers
        let n = *g.s.pick(&[16usize, 17, 31, 32, 33, 63, 64, 65, 100, 120]);
        let pat: Vec<usize> = (0..1 + g.s.n(3)).map(|_| g.s.n(8)).collect();
        for i in 0..n {
            v = match pat[i % pat.len()] {
                0 => D::Vec(vec![v]),
                1 => D::Opt(Some(Box::new(v))),
                2 => D::One(Box::new(One { a: v })),
                3 => D::E(Box::new(E::B(v))),
                4 => D::T2(Box::new((D::Bool(true), v))),
                5 => D::GE(Box::new(GE::R { t: v, u: None })),
                6 => D::New(Box::new(New(v))),
                _ => D::Pair(Box::new(Pair(v, D::Nil(())))),
            };
        }
    }
    v
}
/// rough size: number of begin-ish calls
pub fn dual_size(d: &D) -> usize {
    crate::ev::record(d).map(|e| e.len()).unwrap_or(0)
}

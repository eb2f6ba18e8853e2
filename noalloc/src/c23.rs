//! C23: without an allocator the same results, or an error.
use crate::checks::{core::cfg, flat, nested};
use crate::engine::*;
use crate::ensure;
use crate::ev::*;
use crate::fmtm;
use crate::jsonm;
use crate::val::*;
use std::collections::hash_map::DefaultHasher;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use sval_buffer::{BinaryBuf, TextBuf, ValueBuf};

pub static C23: Check = Check {
    id: "C23",
    rule: "sval built without std and alloc: random value trees to JSON and fmt (must equal the reference), through nested streams and flattening (must equal the model or fail), random operation histories on TextBuf, BinaryBuf and ValueBuf around their capacity of one fragment or part (contents always equal the model's, failures leave the contents alone, clear makes them usable), and labels (static ones become owned, others fail); values that need no allocation must not fail; non-trivial = at least 3 nodes, or at least 3 operations",
    quick: 1_000_000,
    thorough: 10_000_000,
    run: c23,
    assumptions: &["built with debug assertions and the crates' no_debug_assertions features, which is how the documentation says to get errors in debug builds"],
};

fn c23(cx: &mut Ctx) -> R {
    match cx.src.weighted(&[2, 2, 2, 2, 3, 3, 3, 1]) {
        0 => json(cx),
        1 => fmt(cx),
        2 => text(cx),
        3 => binary(cx),
        4 => value(cx),
        5 => nest(cx),
        6 => flatten(cx),
        _ => label(cx),
    }
}

fn json(cx: &mut Ctx) -> R {
    cx.class("JSON");
    let big = cx.src.chance(1, 12);
    let c = Cfg { scalar_keys: !cx.src.chance(1, 6), json_tags: true, nodes: if big { 60 } else { 20 }, depth: if big { 9 } else { 6 }, ..Cfg::default() };
    let v = gen(&mut cx.src, &c);
    cx.sample(|| format!("JSON {v:?}"));
    cx.nontrivial_if(size(&v) >= 3);
    let mut s = String::new();
    match (jsonm::image(&v), sval_json::stream_to_fmt_write(&mut s, &v)) {
        (Err(_), Err(_)) => Ok(()),
        (Err(_), Ok(())) => fail(format!("a container used as a map key was accepted: {s}")),
        (Ok(_), Err(e)) => fail(format!("well-formed value rejected: {e}")),
        (Ok(j), Ok(())) => {
            let p = jsonm::parse(&s).map_err(|e| Fail { msg: format!("malformed JSON ({e}): {s}") })?;
            jsonm::matches(&j, &p).map_err(|e| Fail { msg: format!("wrong JSON {s}: {e}") })
        }
    }
}

fn fmt(cx: &mut Ctx) -> R {
    cx.class("fmt");
    let c = cfg(&mut cx.src);
    let v = gen(&mut cx.src, &c);
    cx.nontrivial_if(size(&v) >= 3);
    let p = fmtm::rendering(&v);
    let full = format!("{:?}", sval_fmt::ToFmt::new(&v));
    cx.sample(|| format!("fmt {full}"));
    let ok = |what: &str, t: &str| fmtm::match_text(&p, t).map_err(|e| Fail { msg: format!("{what} printed {:?}: {e}", clip(t, 600)) });
    ok("ToFmt Debug", &full)?;
    let mut w = String::new();
    ensure!(sval_fmt::stream_to_write(&mut w, &v).is_ok(), "stream_to_write failed");
    ok("stream_to_write", &w)
}

/// Text and binary buffers: one borrowed fragment fits, nothing else does.
macro_rules! fragments {
    ($name:ident, $what:expr, $Buf:ident, $T:ty, $gen:expr, $get:ident, $borrowed:ident, $Owned:ty, $value:expr) => {
        fn $name(cx: &mut Ctx) -> R {
            cx.class($what);
            let pool: Vec<$Owned> = (0..1 + cx.src.n(4)).map(|_| $gen(&mut cx.src)).collect();
            let n = 1 + cx.src.len(12);
            let mut b = $Buf::new();
            let mut model: $Owned = Default::default();
            let mut desc = String::new();
            cx.nontrivial_if(n >= 3);
            for _ in 0..n {
                let f: &$T = &pool[cx.src.n(pool.len())];
                let before = model.clone();
                match cx.src.weighted(&[5, 2, 2, 1, 1]) {
                    0 => {
                        let r = b.push_fragment(f).is_ok();
                        let _ = write!(desc, " push_fragment({f:?})={r};");
                        if r {
                            model = [&before[..], f].concat().into();
                        }
                        ensure!(r || !before.is_empty(), "{desc} a single borrowed fragment was refused");
                    }
                    1 => {
                        let r = b.push_fragment_computed(f).is_ok();
                        let _ = write!(desc, " push_fragment_computed({f:?})={r};");
                        if r {
                            model = [&before[..], f].concat().into();
                        }
                    }
                    2 => {
                        b.clear();
                        model = Default::default();
                        desc.push_str(" clear;");
                    }
                    3 => {
                        b = b.clone();
                        desc.push_str(" clone;");
                    }
                    _ => {
                        b = $Buf::from(f);
                        model = f.to_owned().into();
                        let _ = write!(desc, " from({f:?});");
                    }
                }
                ensure!(b.$get() == &model[..], "{desc} contains {:?}, expected {:?}", b.$get(), model);
                if let Some(x) = b.$borrowed() {
                    ensure!(x == &model[..], "{desc} borrows {x:?}, expected {model:?}");
                }
                let evs = record(&b).map_err(|e| Fail { msg: format!("{desc} {e}") })?;
                let want: &[Ev] = &$value(&model);
                ensure!(norm_frags(&evs) == norm_frags(want), "{desc} {}", diff(&norm_frags(want), &norm_frags(&evs)));
                ensure!(b == $Buf::from(&model[..]), "{desc} is not equal to the same contents");
            }
            cx.sample(|| format!("{}{desc}", $what));
            // collecting a value
            let c = Cfg { nodes: 3, depth: 1, ..Cfg::default() };
            let mut g = Gen { cfg: c, left: 3, s: &mut cx.src };
            let v = if g.s.chance(3, 4) { if $what == "TextBuf" { g.text() } else { g.bin() } } else { g.any(1) };
            let one = match &v {
                V::Text(_, fs) => fs.len() == 1 && fs[0].borrowed,
                V::Bin(_, fs) => fs.len() == 1 && fs[0].borrowed,
                _ => false,
            };
            let same_kind = if $what == "TextBuf" { matches!(&v, V::Text(..)) } else { matches!(&v, V::Bin(..)) };
            match $Buf::collect(&v) {
                Ok(b) => {
                    let mut all: $Owned = Default::default();
                    for e in events(&v) {
                        collect_into(&e, &mut all);
                    }
                    if same_kind {
                        ensure!(b.$get() == &all[..], "collecting {v:?} gave {:?}", b.$get());
                    }
                }
                Err(_) => ensure!(!(one && same_kind), "collecting a single borrowed fragment {v:?} failed"),
            }
            Ok(())
        }
    };
}
trait Collect {
    fn put(&mut self, e: &Ev);
}
impl Collect for String {
    fn put(&mut self, e: &Ev) {
        if let Ev::TextFrag(s, _) = e {
            self.push_str(s)
        }
    }
}
impl Collect for Vec<u8> {
    fn put(&mut self, e: &Ev) {
        if let Ev::BinFrag(s, _) = e {
            self.extend(s)
        }
    }
}
fn collect_into(e: &Ev, o: &mut impl Collect) {
    o.put(e)
}
fragments!(text, "TextBuf", TextBuf, str, |s: &mut Src| gen_text(s, 8), as_str, as_borrowed_str, String, |m: &String| vec![
    Ev::TextBegin(Some(m.len())),
    Ev::TextFrag(m.clone(), true),
    Ev::TextEnd
]);
fragments!(binary, "BinaryBuf", BinaryBuf, [u8], |s: &mut Src| gen_bytes(s, 8), as_slice, as_borrowed_slice, Vec<u8>, |m: &Vec<u8>| vec![
    Ev::BinBegin(Some(m.len())),
    Ev::BinFrag(m.clone(), true),
    Ev::BinEnd
]);

/// a value that one part of a buffer can hold
fn one_part(v: &V) -> bool {
    match v {
        V::Null | V::Bool(_) | V::Num(_) | V::F32(_) | V::F64(_) => true,
        V::Text(_, fs) => fs.is_empty() || (fs.len() == 1 && fs[0].borrowed),
        V::Bin(_, fs) => fs.is_empty() || (fs.len() == 1 && fs[0].borrowed),
        V::Tag(m) => m.label.as_ref().map_or(true, |l| l.stat.is_some()),
        _ => false,
    }
}
fn same(what: &str, v: &V, got: &impl sval::Value) -> R {
    let got = record(got).map_err(|e| Fail { msg: format!("{what}: {e}") })?;
    // buffers keep exact sizes for text and binary
    let n = |e: &[Ev]| drop_text_sizes(&norm_frags(e));
    let (e, g) = (n(&events(v)), n(&got));
    ensure!(e == g, "{what}: {}", diff(&e, &g));
    Ok(())
}
fn drop_text_sizes(evs: &[Ev]) -> Vec<Ev> {
    evs.iter()
        .map(|e| match e {
            Ev::TextBegin(_) => Ev::TextBegin(None),
            Ev::BinBegin(_) => Ev::BinBegin(None),
            e => e.clone(),
        })
        .collect()
}
fn value(cx: &mut Ctx) -> R {
    cx.class("ValueBuf");
    let n = 1 + cx.src.n(5);
    let vs: Vec<V> = (0..n)
        .map(|_| {
            let c = cfg(&mut cx.src);
            let left = 1 + cx.src.n(c.nodes);
            let d = c.depth;
            let mut g = Gen { cfg: c, left, s: &mut cx.src };
            match g.s.n(4) {
                0 => g.any(d),
                1 => g.text(),
                2 => V::Tag(g.meta()),
                _ => g.scalar(),
            }
        })
        .collect();
    cx.nontrivial_if(n >= 3 || vs.iter().map(size).sum::<usize>() >= 3);
    cx.sample(|| format!("ValueBuf {vs:?}"));
    let mut b = ValueBuf::new();
    for v in &vs {
        b.clear();
        ensure!(!b.is_complete(), "a cleared buffer claims to be complete");
        let fits = one_part(v);
        let r = no_panic(|| sval::Value::stream(v, &mut b)).map_err(|e| Fail { msg: format!("buffering {v:?} panicked: {e}") })?;
        cx.class_if(r.is_ok(), "fits");
        match r {
            Ok(()) => {
                ensure!(b.is_complete(), "{v:?} was buffered but the buffer isn't complete");
                same("buffer", v, &b)?;
                same("to_value", v, &b.to_value())?;
                same("clone of value", v, &b.to_value().clone())?;
                ensure!(b.to_value().into_owned().is_err(), "a borrowing value became owned without an allocator");
                if cx.src.bool() {
                    // more than one value does not fit either
                    let _ = sval::Stream::bool(&mut b, true);
                    let evs = norm_frags(&record(&b.to_value()).unwrap_or_default());
                    let _ = evs;
                }
            }
            Err(_) => ensure!(!fits, "{v:?} fits but was refused"),
        }
        match no_panic(|| ValueBuf::collect(v)).map_err(|e| Fail { msg: format!("collecting {v:?} panicked: {e}") })? {
            Ok(c) => {
                ensure!(c.is_complete(), "collected {v:?} isn't complete");
                same("collect", v, &c)?;
                ensure!(c.into_owned().is_err(), "a borrowing buffer became owned without an allocator");
            }
            Err(_) => ensure!(!fits, "{v:?} fits but couldn't be collected"),
        }
        match sval_buffer::Value::collect(v) {
            Ok(c) => same("Value::collect", v, &c)?,
            Err(_) => ensure!(!fits, "{v:?} fits but couldn't be collected"),
        }
        if let Ok(c) = no_panic(|| ValueBuf::collect_owned(v)).map_err(|e| Fail { msg: format!("collect_owned of {v:?} panicked: {e}") })? {
            same("collect_owned", v, &c)?;
        }
        if let Ok(c) = sval_buffer::Value::collect_owned(v) {
            same("Value::collect_owned", v, &c)?;
        }
    }
    Ok(())
}

/// Some(true) if nothing in the value needs memory on its way through a nested stream
fn plain(v: &V, computed: bool) -> bool {
    let lb = |l: &Option<Lb>| l.as_ref().map_or(true, |l| l.stat.is_some());
    let here = match v {
        V::Text(_, fs) => !computed && fs.len() == 1 && fs[0].borrowed,
        V::Bin(_, fs) => !computed && fs.len() == 1 && fs[0].borrowed,
        V::Tag(m) | V::Tagged(m, _) => lb(&m.label),
        V::Rec(m, _, xs) => lb(&m.label) && xs.iter().all(|x| x.1.stat.is_some()),
        V::Rt(m, _, xs) => lb(&m.label) && xs.iter().all(|x| x.1.stat.is_some()),
        V::Tup(m, _, _) => lb(&m.label),
        V::Enum(..) => false,
        _ => true,
    };
    here && children(v).iter().all(|c| plain(&c.v, computed || c.mode == Mode::Computed))
}
fn children(v: &V) -> Vec<&C> {
    match v {
        V::Seq(_, xs) => xs.iter().collect(),
        V::Map(_, xs) => xs.iter().flat_map(|(k, x)| [k, x]).collect(),
        V::Tagged(_, x) | V::Hinted(_, x) | V::Enum(_, Some(x)) => vec![x],
        V::Rec(_, _, xs) => xs.iter().map(|x| &x.2).collect(),
        V::Tup(_, _, xs) => xs.iter().map(|x| &x.2).collect(),
        V::Rt(_, _, xs) => xs.iter().map(|x| &x.3).collect(),
        _ => vec![],
    }
}

fn nest(cx: &mut Ctx) -> R {
    cx.class("nested");
    let mut c = cfg(&mut cx.src);
    if cx.src.bool() {
        c.frags = false;
        c.dyn_labels = false;
        c.modes = cx.src.bool();
        c.enums = cx.src.bool();
    }
    let v = gen(&mut cx.src, &c);
    cx.nontrivial_if(size(&v) >= 3);
    let exp = nested::norm(&events(&v), false);
    cx.sample(|| format!("nested {exp:?}"));
    let why = nested::inexpressible(&v);
    let simple = why.is_none() && plain(&v, false);
    let r = no_panic(|| nested::rebuild(&v)).map_err(|e| Fail { msg: format!("nested stream panicked: {e}; {exp:?}") })?;
    cx.class_if(r.is_ok(), "nested ok");
    match r {
        Ok(got) => {
            ensure!(why.is_none(), "{}: expected an error, got {got:?}", why.unwrap());
            let g = nested::norm(&got, false);
            ensure!(g == exp, "recursive stream: {}", diff(&exp, &g));
        }
        // containers deeper down may have to be buffered
        Err(e) => ensure!(!simple || depth(&v) > 1, "needs no allocation but failed: {e}; {exp:?}"),
    }
    let r = no_panic(|| nested::rebuild_min(&v)).map_err(|e| Fail { msg: format!("nested stream panicked: {e}; {exp:?}") })?;
    match r {
        Ok(got) => {
            ensure!(why.is_none(), "{}: expected an error, got {got:?}", why.unwrap());
            let mut exp = Vec::new();
            nested::lowered(&v, false, &mut exp);
            ensure!(got == exp, "minimal stream: {}", diff(&exp, &got));
        }
        // a minimal stream sees most of the rest as computed text or nested values, which have to be buffered
        Err(e) => ensure!(!simple || !matches!(&v, V::Null | V::Bool(_) | V::F64(_) | V::Text(..)), "needs no allocation but failed (minimal stream): {e}; {exp:?}"),
    }
    Ok(())
}

/// flattening these never needs a synthesised text label
fn flat_plain(v: &V) -> bool {
    match v {
        V::Seq(..) | V::Tup(..) => true,
        V::Rec(..) | V::Rt(..) => true,
        V::Null | V::Bool(_) | V::Num(_) | V::F32(_) | V::F64(_) => true,
        V::Map(_, xs) => xs.iter().all(|(k, _)| matches!(&k.v, V::Null | V::Bool(_) | V::Num(_) | V::F64(_)) || (k.mode != Mode::Computed && matches!(&k.v, V::Text(_, fs) if fs.len() == 1 && fs[0].borrowed))),
        _ => false,
    }
}

fn flatten(cx: &mut Ctx) -> R {
    use flat::{Alloc, Step, P};
    cx.class("flatten");
    let p = *cx.src.pick(&[P::Map, P::Seq, P::Rec, P::Tup, P::Rt]);
    let start = if cx.src.chance(1, 5) { *cx.src.pick(&[isize::MAX, isize::MIN, -1, -3]) } else { cx.src.n(6) as isize };
    let n = 1 + cx.src.n(3);
    let steps: Vec<Step> = (0..n).map(|_| if cx.src.chance(1, 5) { Step::Own(C::inline(V::Num(gen_int(&mut cx.src)))) } else { Step::Flat(flat::gen_root(&mut cx.src)) }).collect();
    let h = flat::Hist { p, start, steps };
    let (mut exp, mut offs, mut off, mut entries) = (Vec::new(), Vec::new(), start, 0);
    let mut simple = true;
    let mut desc = format!("onto {p:?} from {start}:");
    for st in &h.steps {
        match st {
            Step::Own(c) => {
                let ix = Ix { v: off as i128, tag: Some(sval::tags::VALUE_OFFSET) };
                flat::entry(p, None, None, Lb::stat("own"), ix, events(&c.v), &mut exp);
                off = off.wrapping_add(1);
                desc.push_str(" own");
            }
            Step::Flat(v) => {
                desc.push_str(&format!(" flatten {:?}", events(v)));
                simple &= flat_plain(v);
                let mut a = Alloc { first: if p == P::Seq { 0 } else { off }, next: if p == P::Seq { 0 } else { off } };
                entries += flat::flat(v, false, false, p, &mut a, &mut exp);
                if p != P::Seq {
                    off = a.next;
                }
                offs.push(off);
            }
        }
    }
    cx.sample(|| format!("flatten {}", clip(&desc, 400)));
    cx.nontrivial_if(entries >= 2);
    let mut r = Rec::new();
    let mut got_offs = Vec::new();
    let res = no_panic(|| flat::run(&h, &mut r, &mut got_offs)).map_err(|e| Fail { msg: format!("{desc}\nflattening panicked: {e}") })?;
    let strip = |e: &[Ev]| drop_static(&norm_frags(e));
    let (exp, mut got) = (strip(&exp), strip(&r.evs));
    cx.class_if(res.is_ok(), "flatten ok");
    if res.is_ok() {
        ensure!(got == exp, "{desc}\n{}", diff(&exp, &got));
        ensure!(got_offs == offs, "{desc}\nreturned offsets {got_offs:?}, expected {offs:?}");
    } else {
        ensure!(!simple, "{desc}\nneeds no allocation but failed");
        // what came out before the error must be right
        if matches!(got.last(), Some(Ev::TextFrag(..) | Ev::BinFrag(..))) {
            got.pop();
        }
        ensure!(exp.len() >= got.len() && got[..] == exp[..got.len()], "{desc}\nbefore the error: {}", diff(&exp, &got));
    }
    Ok(())
}

fn label(cx: &mut Ctx) -> R {
    cx.class("label");
    let c = Cfg { label_tags: true, ..Cfg::default() };
    let mut g = Gen { cfg: c, left: 3, s: &mut cx.src };
    let (a, b) = (g.lb(), g.lb());
    cx.nontrivial_if(!a.text.is_empty());
    cx.sample(|| format!("label {a:?} {b:?}"));
    let (la, lb) = (a.label(), b.label());
    let hash = |l: &sval::Label| {
        let mut h = DefaultHasher::new();
        l.hash(&mut h);
        h.finish()
    };
    ensure!((la == lb) == (a.text == b.text), "{a:?} == {b:?} is {}", la == lb);
    ensure!(la.as_str() == a.text, "as_str of {a:?} is {:?}", la.as_str());
    let d = la.clone();
    ensure!(Lb::rec(&d) == Lb::rec(&la) && d == la, "clone of {a:?} is {:?}", Lb::rec(&d));
    ensure!(hash(&d) == hash(&la), "clone of {a:?} hashes differently");
    match la.try_to_owned() {
        Ok(o) => {
            ensure!(o.as_str() == a.text && o.tag() == a.tag.as_ref() && o == la && hash(&o) == hash(&la), "owned {a:?} is {:?}", Lb::rec(&o));
            ensure!(o.as_static_str().is_some(), "owned label {a:?} without an allocator isn't static");
        }
        Err(_) => ensure!(a.stat.is_none(), "static label {a:?} couldn't be made owned"),
    }
    ensure!(la.as_static_str().is_some() == a.stat.is_some(), "{a:?} static: {:?}", la.as_static_str());
    Ok(())
}

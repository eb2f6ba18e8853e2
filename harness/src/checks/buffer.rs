//! C06-C09: sval_buffer.
use crate::engine::*;
use crate::ensure;
use crate::ev::*;
use crate::val::*;
use std::fmt::Write as _;
use sval_buffer::{BinaryBuf, TextBuf, Value as BV, ValueBuf};

fn cfg(s: &mut Src) -> Cfg {
    let big = s.chance(1, 15);
    Cfg { nodes: if big { 80 } else { 20 }, depth: if big { 10 } else { 6 }, json_tags: false, ..Cfg::default() }
}

/// Compare a buffer's replay with the model: one fragment per text, and the size hint of text and
/// binary may be absent or has to be the real length.
pub fn same_content(exp: &[Ev], got: &[Ev]) -> Result<(), String> {
    let e = norm_frags(exp);
    let g = norm_frags(got);
    let mut i = 0;
    while i < g.len() {
        let len = match g.get(i + 1) {
            Some(Ev::TextFrag(s, _)) => s.len(),
            Some(Ev::BinFrag(s, _)) => s.len(),
            _ => 0,
        };
        if let Ev::TextBegin(Some(n)) | Ev::BinBegin(Some(n)) = &g[i] {
            if *n != len {
                return Err(format!("size hint {n} on {len} bytes of text or binary"));
            }
        }
        i += 1;
    }
    let blank = |v: Vec<Ev>| -> Vec<Ev> {
        v.into_iter()
            .map(|e| match e {
                Ev::TextBegin(_) => Ev::TextBegin(None),
                Ev::BinBegin(_) => Ev::BinBegin(None),
                e => e,
            })
            .collect()
    };
    let (e, g) = (blank(e), blank(g));
    if e == g {
        Ok(())
    } else {
        Err(diff(&e, &g))
    }
}

fn rec_ref<'a>(v: impl sval_ref::ValueRef<'a>) -> Result<Vec<Ev>, String> {
    let mut r = Rec::new();
    match sval_ref::stream_ref(&mut r, v) {
        Ok(()) => Ok(r.evs),
        Err(_) => Err("streaming by reference failed".into()),
    }
}

pub static C06: Check = Check {
    id: "C06",
    rule: "random value trees collected in one of 8 ways (collect, collect_owned, free functions, as a stream, call by call, re-buffering a buffer) and put through a random chain of conversions (to_value, into_value, clone, into_owned, re-collect), then streamed by value and by reference and compared call by call with the model; non-trivial = at least 3 nodes and depth >= 2",
    quick: 600_000,
    thorough: 15_000_000,
    run: c06,
    assumptions: &["fragments of one text or binary may be merged, and its size hint may be dropped or replaced by the exact length"],
};
enum B<'a> {
    Buf(ValueBuf<'a>),
    Val(BV<'a>),
}
fn c06(cx: &mut Ctx) -> R {
    let c = cfg(&mut cx.src);
    let v = gen(&mut cx.src, &c);
    let evs = events(&v);
    cx.nontrivial_if(size(&v) >= 3 && depth(&v) >= 2);
    let how = cx.src.n(8);
    let n = cx.src.n(4);
    let chain: Vec<usize> = (0..n).map(|_| cx.src.n(6)).collect();
    cx.sample(|| format!("way {how}, conversions {chain:?}, {v:?}"));
    cx.class(["collect", "collect_owned", "stream into", "call by call", "Value::collect", "Value::collect_owned", "free fn", "re-buffer"][how]);
    let e = |e: sval_buffer::Error| Fail { msg: format!("collecting failed: {e}") };
    let inner;
    let mut b = match how {
        0 => B::Buf(ValueBuf::collect(&v).map_err(e)?),
        1 => B::Buf(ValueBuf::collect_owned(&v).map_err(e)?),
        2 => {
            let mut b = ValueBuf::new();
            ensure!(sval::Value::stream(&v, &mut b).is_ok(), "streaming into a ValueBuf failed");
            B::Buf(b)
        }
        3 => {
            let mut b = ValueBuf::default();
            ensure!(play(&evs, &mut b).is_ok(), "streaming into a ValueBuf failed");
            B::Buf(b)
        }
        4 => B::Val(BV::collect(&v).map_err(e)?),
        5 => B::Val(BV::collect_owned(&v).map_err(e)?),
        6 => B::Buf(if cx.src.bool() { sval_buffer::stream_to_value(&v).map_err(e)? } else { sval_buffer::stream_to_value_owned(&v).map_err(e)? }),
        _ => {
            inner = ValueBuf::collect(&v).map_err(e)?;
            let mut b = ValueBuf::new();
            ensure!(sval_ref::stream_ref(&mut b, &inner).is_ok(), "streaming a buffer by reference into another failed");
            B::Buf(b)
        }
    };
    let check = |b: &B, what: &str| -> R {
        let (g, r) = match b {
            B::Buf(b) => {
                ensure!(b.is_complete(), "{what}: is_complete is false for a whole value");
                (record(b), rec_ref(b))
            }
            B::Val(b) => (record(b), rec_ref(b)),
        };
        for (g, how) in [(g, "streamed"), (r, "streamed by reference")] {
            let g = g.map_err(|e| Fail { msg: format!("{what}: {e}") })?;
            same_content(&evs, &g).map_err(|e| Fail { msg: format!("{what}, {how}: {e}") })?;
        }
        Ok(())
    };
    check(&b, "after collecting")?;
    for op in chain {
        b = match (op, b) {
            (0, B::Buf(b)) => B::Val(b.to_value()),
            (1, B::Buf(b)) => B::Val(b.into_value()),
            (0 | 1, B::Val(b)) => B::Val(b.clone()),
            (2, B::Buf(b)) => B::Buf(b.into_owned().map_err(e)?),
            (2, B::Val(b)) => B::Val(b.into_owned().map_err(e)?),
            (3, B::Val(b)) => B::Buf(ValueBuf::collect_owned(&b).map_err(e)?),
            (3, B::Buf(b)) => B::Val(BV::collect_owned(&b).map_err(e)?),
            (4, B::Val(b)) => B::Val(BV::collect(&b).map_err(e)?.into_owned().map_err(e)?),
            (4, B::Buf(b)) => {
                let v = b.to_value();
                check(&B::Val(v), "to_value")?;
                B::Buf(b)
            }
            (_, B::Buf(b)) => {
                // stream into an emptied buffer
                let mut o = ValueBuf::new();
                let _ = sval::Stream::seq_begin(&mut o, None);
                o.clear();
                ensure!(sval_ref::stream_ref(&mut o, &b).is_ok(), "re-buffering failed");
                B::Buf(o)
            }
            (_, B::Val(b)) => B::Val(b.clone()),
        };
        check(&b, ["after to_value", "after into_value", "after into_owned", "after re-collecting", "after collect+into_owned", "after re-buffering"][op])?;
    }
    Ok(())
}

pub static C07: Check = Check {
    id: "C07",
    rule: "random histories (up to 8 steps) on one ValueBuf: whole values, prefixes of values call by call, values that fail after a prefix, all kinds of unbalanced end calls and fragments outside of text or binary, clear, into_owned, mem::take; after every step is_complete, the replay and errors are compared with a model of the calls since the last clear; also TextBuf/BinaryBuf/Value collection of failing values; non-trivial = at least 3 steps with a clear, failure or partial value",
    quick: 1_500_000,
    thorough: 12_000_000,
    run: c07,
    assumptions: &["text and binary fragments are only sent between their begin and end calls"],
};
fn is_begin(e: &Ev) -> bool {
    use Ev::*;
    matches!(e, MapBegin(_) | MapKeyBegin | MapValueBegin | SeqBegin(_) | SeqValueBegin | EnumBegin(_) | TaggedBegin(_) | RecBegin(..) | RecValueBegin(..) | TupBegin(..) | TupValueBegin(..) | RtBegin(..) | RtValueBegin(..))
}
fn is_end(e: &Ev) -> bool {
    use Ev::*;
    matches!(e, MapEnd | MapKeyEnd | MapValueEnd | SeqEnd | SeqValueEnd | EnumEnd(_) | TaggedEnd(_) | RecEnd(..) | RecValueEnd(..) | TupEnd(..) | TupValueEnd(..) | RtEnd(..) | RtValueEnd(..))
}
fn whole(evs: &[Ev]) -> bool {
    let mut d = 0i64;
    let mut any = false;
    let mut last_hint = false;
    for e in evs {
        last_hint = matches!(e, Ev::Hint(_));
        if matches!(e, Ev::TextBegin(_) | Ev::BinBegin(_)) || is_begin(e) {
            d += 1;
        }
        if matches!(e, Ev::TextEnd | Ev::BinEnd) || is_end(e) {
            d -= 1;
        }
        any |= !last_hint;
    }
    d == 0 && any && !last_hint
}
fn c07(cx: &mut Ctx) -> R {
    let steps = 1 + cx.src.n(8);
    // plan first, so that everything played outlives the buffer
    let mut plan: Vec<(usize, Vec<Ev>)> = Vec::new();
    for _ in 0..steps {
        let op = cx.src.weighted(&[4, 4, 3, 2, 3, 1, 1, 2]);
        let c = Cfg { nodes: 10, depth: 4, ..Cfg::default() };
        let mut evs = if op <= 2 || op == 7 { events(&gen(&mut cx.src, &c)) } else { vec![] };
        match op {
            1 => {
                let n = cx.src.n(evs.len() + 1);
                evs.truncate(n);
            }
            2 | 7 => {
                let n = cx.src.n(evs.len() + 1);
                evs.truncate(n);
                evs.push(Ev::Fail);
            }
            _ => {}
        }
        plan.push((op, evs));
    }
    let which: Vec<usize> = plan.iter().map(|p| if p.0 == 3 { cx.src.n(17) } else { 0 }).collect();
    let owned: Vec<Play> = plan.iter().map(|p| Play(p.1.clone())).collect();
    cx.nontrivial_if(steps >= 3 && plan.iter().any(|p| p.0 != 0));
    cx.sample(|| format!("{:?}", plan.iter().map(|(o, e)| format!("{}{e:?}", ["value ", "prefix ", "fails after ", "unbalanced end ", "clear ", "into_owned ", "take ", "collect failing "][*o])).collect::<Vec<_>>()));
    let mut b = ValueBuf::new();
    let mut model: Vec<Ev> = Vec::new();
    let mut values = 0; // whole values since the last clear
    let mut broken = false; // an error was reported since the last clear
    for (k, (op, evs)) in plan.iter().enumerate() {
        match op {
            0 => {
                // a value may only start where one is expected
                if !model.is_empty() {
                    continue;
                }
                let r = sval::Value::stream(&owned[k], &mut b);
                ensure!(r.is_ok(), "step {k}: buffering a whole value failed");
                model.extend(evs.iter().cloned());
                values += 1;
            }
            1 => {
                if !model.is_empty() {
                    continue;
                }
                for (i, e) in evs.iter().enumerate() {
                    ensure!(play_one(&owned[k].0[i], &mut b).is_ok(), "step {k}: call {e:?} failed");
                    model.push(e.clone());
                    if i > 600 && i + 2 < evs.len() {
                        continue;
                    }
                    ensure!(b.is_complete() == whole(&model), "step {k}: is_complete is {} after {:?}", b.is_complete(), model);
                }
                values += whole(&model) as usize;
            }
            2 => {
                if !model.is_empty() {
                    continue;
                }
                let r = sval::Value::stream(&owned[k], &mut b);
                ensure!(r.is_err(), "step {k}: a failing value was buffered without an error");
                model.extend(evs[..evs.len() - 1].iter().cloned());
                values += whole(&model) as usize;
            }
            3 => {
                // an end call without a begin, or a fragment without text or binary to add it to: an error, never a panic
                use sval::Stream;
                let (t, l, i) = (None, &sval::Label::new("x"), &sval::Index::new(0));
                let w = which[k];
                let last = model.iter().rev().find(|e| !is_end(e) && !matches!(e, Ev::TextEnd | Ev::BinEnd));
                if w < 13 && !model.is_empty() && !whole(&model) {
                    continue;
                }
                if w >= 13 && matches!(last, Some(Ev::TextBegin(_) | Ev::TextFrag(..) | Ev::BinBegin(_) | Ev::BinFrag(..) | Ev::Hint(_))) {
                    continue;
                }
                let r = match w {
                    0 => b.seq_end(),
                    1 => b.map_end(),
                    2 => b.record_end(t, None, None),
                    3 => b.tagged_end(t, None, None),
                    4 => b.enum_end(t, None, None),
                    5 => b.tuple_end(t, None, None),
                    6 => b.record_tuple_end(t, None, None),
                    7 => b.seq_value_end(),
                    8 => b.map_key_end(),
                    9 => b.map_value_end(),
                    10 => b.record_value_end(t, l),
                    11 => b.tuple_value_end(t, i),
                    12 => b.record_tuple_value_end(t, l, i),
                    13 => b.text_fragment("x"),
                    14 => b.text_fragment_computed("x"),
                    15 => b.binary_fragment(b"x"),
                    _ => b.binary_fragment_computed(b"x"),
                };
                ensure!(r.is_err(), "step {k}: {} was accepted", if w < 13 { "an unbalanced end call" } else { "a fragment outside of text or binary" });
                cx.class(if w < 13 { "end without begin" } else { "fragment outside of text or binary" });
                broken = true;
            }
            4 => {
                b.clear();
                model.clear();
                values = 0;
                broken = false;
            }
            5 => {
                b = match b.into_owned() {
                    Ok(b) => b,
                    Err(e) => return fail(format!("into_owned: {e}")),
                };
            }
            6 => {
                let old = std::mem::take(&mut b);
                ensure!(old.into_err().is_some() == broken, "step {k}: into_err does not match the errors reported since clear");
                model.clear();
                values = 0;
                broken = false;
            }
            _ => {
                // collections of a value that fails
                let v = &owned[k];
                ensure!(ValueBuf::collect(v).is_err(), "step {k}: ValueBuf::collect accepts a failing value");
                ensure!(ValueBuf::collect_owned(v).is_err(), "step {k}: ValueBuf::collect_owned accepts a failing value");
                ensure!(BV::collect(v).is_err(), "step {k}: Value::collect accepts a failing value");
                ensure!(BV::collect_owned(v).is_err(), "step {k}: Value::collect_owned accepts a failing value");
                ensure!(TextBuf::collect(v).is_err(), "step {k}: TextBuf::collect accepts a failing value");
                ensure!(BinaryBuf::collect(v).is_err(), "step {k}: BinaryBuf::collect accepts a failing value");
                cx.class("collect of a failing value");
            }
        }
        ensure!(b.is_complete() == whole(&model), "step {k}: is_complete is {} after {:?}", b.is_complete(), model);
        if values == 1 && whole(&model) && !broken {
            let g = record(&b).map_err(|e| Fail { msg: format!("step {k}: {e}") })?;
            same_content(&model, &g).map_err(|e| Fail { msg: format!("step {k}: {e}") })?;
        }
        if model.is_empty() {
            // documented: an empty buffer streams null
            let g = record(&b).map_err(|e| Fail { msg: format!("step {k}: {e}") })?;
            ensure!(g == [Ev::Null], "step {k}: an empty buffer streams {g:?}");
        }
    }
    // after clear it behaves as new
    b.clear();
    ensure!(!b.is_complete(), "complete right after clear");
    let probe = [Ev::SeqBegin(Some(1)), Ev::SeqValueBegin, Ev::TextBegin(None), Ev::TextFrag("x".into(), false), Ev::TextEnd, Ev::SeqValueEnd, Ev::SeqEnd];
    let probe: &'static [Ev; 7] = Box::leak(Box::new(probe));
    ensure!(play(probe, &mut b).is_ok(), "buffering after clear failed");
    ensure!(b.is_complete(), "incomplete after clear and a whole value");
    let g = record(&b).map_err(|e| Fail { msg: e })?;
    let r = same_content(probe, &g);
    drop(b);
    // SAFETY: nothing borrows the probe any more
    unsafe { drop(Box::from_raw(probe as *const _ as *mut [Ev; 7])) };
    if let Err(e) = r {
        return fail(format!("after clear: {e}"));
    }
    Ok(())
}

pub static C08: Check = Check {
    id: "C08",
    rule: "random values and labels turned into owned buffers by random routes (collect_owned, collect+into_owned, to_value+into_owned, into_owned in the middle of a value, clones in random order), then every byte the source owns is overwritten in place and the source dropped; all owned forms (in random drop order) must still replay the original calls and must not hand out borrowed fragments; borrowed buffers must hand back the original addresses; non-trivial = value has heap text, binary or a dynamic label",
    quick: 400_000,
    thorough: 6_000_000,
    run: c08,
    assumptions: &["memory errors are observed as changed content, wrong addresses or crashes in a build with AddressSanitizer; a further sample of cases runs under Miri (undefined behaviour other than aliasing rules)"],
};
fn scribble_lb(l: &mut Lb) {
    // SAFETY: ASCII over any string of the same length is valid UTF-8
    unsafe { l.text.as_bytes_mut().iter_mut().for_each(|b| *b = b'#') }
}
fn scribble_m(m: &mut M) {
    if let Some(l) = &mut m.label {
        scribble_lb(l)
    }
}
fn scribble_ev(e: &mut Ev) {
    match e {
        Ev::TextFrag(t, _) => unsafe { t.as_bytes_mut().iter_mut().for_each(|b| *b = b'#') },
        Ev::BinFrag(t, _) => t.iter_mut().for_each(|b| *b = b'#'),
        _ => {}
    }
}
/// Overwrite all heap text and bytes in place.
fn scribble(v: &mut V) {
    match v {
        V::Text(_, fs) => fs.iter_mut().for_each(|f| unsafe { f.data.as_bytes_mut().iter_mut().for_each(|b| *b = b'#') }),
        V::Bin(_, fs) => fs.iter_mut().for_each(|f| f.data.iter_mut().for_each(|b| *b = b'#')),
        V::Seq(_, xs) => xs.iter_mut().for_each(|x| scribble(&mut x.v)),
        V::Map(_, xs) => xs.iter_mut().for_each(|(k, x)| {
            scribble(&mut k.v);
            scribble(&mut x.v)
        }),
        V::Tag(m) => scribble_m(m),
        V::Tagged(m, x) => {
            scribble_m(m);
            scribble(&mut x.v)
        }
        V::Enum(m, x) => {
            scribble_m(m);
            if let Some(x) = x {
                scribble(&mut x.v)
            }
        }
        V::Hinted(_, x) => scribble(&mut x.v),
        V::Rec(m, _, xs) => {
            scribble_m(m);
            xs.iter_mut().for_each(|(_, l, x)| {
                scribble_lb(l);
                scribble(&mut x.v)
            })
        }
        V::Tup(m, _, xs) => {
            scribble_m(m);
            xs.iter_mut().for_each(|(_, _, x)| scribble(&mut x.v))
        }
        V::Rt(m, _, xs) => {
            scribble_m(m);
            xs.iter_mut().for_each(|(_, l, _, x)| {
                scribble_lb(l);
                scribble(&mut x.v)
            })
        }
        _ => {}
    }
}
fn c08(cx: &mut Ctx) -> R {
    let labels = cx.src.chance(1, 4);
    if labels {
        return c08_labels(cx);
    }
    let c = Cfg { nodes: 12, depth: 4, ..Cfg::default() };
    let mut v = gen(&mut cx.src, &c);
    let evs = events(&v);
    let route = cx.src.n(8);
    let clones = cx.src.n(4);
    let order: Vec<u64> = (0..clones).map(|_| cx.src.bits() % 5).collect();
    let mut heap = false;
    walk(&v, &mut |x| heap |= matches!(x, V::Text(_, f) if f.iter().any(|f| !f.data.is_empty())) || matches!(x, V::Bin(_, f) if f.iter().any(|f| !f.data.is_empty())));
    heap |= evs.iter().any(|e| matches!(e, Ev::RecValueBegin(_, l) | Ev::RtValueBegin(_, l, _) if l.stat.is_none()));
    cx.nontrivial_if(heap);
    cx.class(["collect_owned", "collect+into_owned", "Value::collect_owned", "Value::collect+into_owned", "to_value+into_owned", "clone+into_owned", "into_owned of a partial buffer", "into_owned twice"][route]);
    cx.sample(|| format!("route {route} clones {order:?} {v:?}"));
    // zero copy while borrowed
    {
        let mut direct = Rec::new();
        let _ = sval::Value::stream(&v, &mut direct);
        let b = ValueBuf::collect(&v).map_err(|e| Fail { msg: e.to_string() })?;
        let mut r = Rec::new();
        ensure!(sval_ref::stream_ref(&mut r, &b).is_ok(), "stream_ref failed");
        // a text or binary made of a single borrowed fragment keeps its address
        let single = |evs: &[Ev], ptrs: &[(usize, usize)]| -> Vec<Option<(usize, usize)>> {
            let mut out = Vec::new();
            let mut p = 0;
            let mut cur: Vec<Option<(usize, usize)>> = Vec::new();
            for e in evs {
                match e {
                    Ev::TextBegin(_) | Ev::BinBegin(_) => cur.clear(),
                    Ev::TextFrag(_, true) | Ev::BinFrag(_, true) => {
                        cur.push(Some(ptrs[p]));
                        p += 1;
                    }
                    Ev::TextFrag(_, false) | Ev::BinFrag(_, false) => cur.push(None),
                    Ev::TextEnd | Ev::BinEnd => out.push(if cur.len() == 1 && cur[0].map_or(false, |x| x.1 > 0) { cur[0] } else { None }),
                    _ => {}
                }
            }
            out
        };
        let want = single(&direct.evs, &direct.ptrs);
        let got = single(&r.evs, &r.ptrs);
        ensure!(want.len() == got.len(), "buffer replays {} texts, {} were streamed", got.len(), want.len());
        for (w, g) in want.iter().zip(&got) {
            if let Some(w) = w {
                ensure!(*g == Some(*w), "a borrowed fragment was copied or moved: {g:?} instead of {w:?}");
            }
        }
        // every borrowed fragment handed out has to point into the source
        for p in &r.ptrs {
            ensure!(p.1 == 0 || direct.ptrs.iter().any(|d| d.0 <= p.0 && p.0 + p.1 <= d.0 + d.1), "a buffer hands out a borrowed fragment that is not part of the source");
        }
    }
    let e = |e: sval_buffer::Error| Fail { msg: format!("conversion failed: {e}") };
    let first: B<'static> = match route {
        0 => B::Buf(ValueBuf::collect_owned(&v).map_err(e)?),
        1 => B::Buf(ValueBuf::collect(&v).map_err(e)?.into_owned().map_err(e)?),
        2 => B::Val(BV::collect_owned(&v).map_err(e)?),
        3 => B::Val(BV::collect(&v).map_err(e)?.into_owned().map_err(e)?),
        4 => B::Val(ValueBuf::collect(&v).map_err(e)?.to_value().into_owned().map_err(e)?),
        // own a buffer in the middle of a value, overwrite what it was built from, then go on
        6 | 7 => {
            let cut = cx.src.n(evs.len() + 1);
            let again = if route == 7 { cut + cx.src.n(evs.len() - cut + 1) } else { evs.len() };
            let mut src = evs.clone();
            let mut b = {
                let mut b = ValueBuf::new();
                ensure!(play(&src[..cut], &mut b).is_ok(), "buffering failed");
                b.into_owned().map_err(e)?
            };
            src.iter_mut().for_each(scribble_ev);
            drop(src);
            let rest: Vec<Ev> = evs
                .iter()
                .map(|e| match e {
                    Ev::TextFrag(t, _) => Ev::TextFrag(t.clone(), false),
                    Ev::BinFrag(t, _) => Ev::BinFrag(t.clone(), false),
                    e => e.clone(),
                })
                .collect();
            for (i, ev) in rest.iter().enumerate().skip(cut) {
                if i == again {
                    b = b.into_owned().map_err(e)?;
                }
                // SAFETY: fragments are sent as computed ones, so nothing may be kept of `ev`
                let ev: &'static Ev = unsafe { &*(ev as *const Ev) };
                ensure!(play_one(ev, &mut b).is_ok(), "call {ev:?} failed on a buffer owned before it");
            }
            B::Buf(b)
        }
        _ => {
            let a = BV::collect(&v).map_err(e)?;
            let b = a.clone();
            drop(a);
            B::Val(b.into_owned().map_err(e)?)
        }
    };
    let mut all: Vec<B<'static>> = vec![first];
    for o in &order {
        let i = (*o as usize) % all.len();
        let n = match &all[i] {
            B::Buf(b) => B::Val(b.to_value()),
            B::Val(b) => B::Val(b.clone()),
        };
        all.push(n);
        if *o == 4 {
            all.remove(0);
        }
    }
    scribble(&mut v);
    let check = |b: &B<'static>| -> R {
        let mut r = Rec::new();
        let ok = match b {
            B::Buf(b) => sval_ref::stream_ref(&mut r, b),
            B::Val(b) => sval_ref::stream_ref(&mut r, b),
        };
        ensure!(ok.is_ok(), "streaming an owned buffer failed");
        same_content(&evs, &r.evs).map_err(|e| Fail { msg: format!("owned buffer changed after its source was overwritten: {e}") })?;
        // as a `'static` value it may only claim `'static` borrows it really has: none here
        ensure!(r.ptrs.iter().all(|p| p.1 == 0), "an owned buffer hands out a borrowed fragment with a 'static lifetime");
        Ok(())
    };
    for b in &all {
        check(b)?;
    }
    drop(v);
    while !all.is_empty() {
        let i = cx.src.n(all.len());
        all.swap_remove(i);
        for b in &all {
            check(b)?;
        }
    }
    Ok(())
}
fn c08_labels(cx: &mut Ctx) -> R {
    use sval::Label;
    let n = 1 + cx.src.n(3);
    let mut texts: Vec<String> = (0..n).map(|_| gen_text(&mut cx.src, 20)).collect();
    let orig = texts.clone();
    let ops: Vec<(usize, usize, usize)> = (0..1 + cx.src.n(8)).map(|_| (cx.src.n(5), cx.src.n(16), cx.src.n(2))).collect();
    cx.class("labels");
    cx.nontrivial_if(ops.len() >= 3 && orig.iter().any(|t| !t.is_empty()));
    cx.sample(|| format!("labels {orig:?} ops {ops:?}"));
    let mut owned: Vec<(Label<'static>, usize, bool)> = Vec::new();
    {
        let mut all: Vec<(Label, usize, bool)> = texts.iter().enumerate().map(|(i, t)| (Label::new_computed(t), i, false)).collect();
        for (op, i, t) in &ops {
            let i = i % all.len();
            let (l, k, tag) = (&all[i].0, all[i].1, all[i].2);
            match op {
                0 => {
                    let c = l.clone();
                    all.push((c, k, tag));
                }
                1 => {
                    let c = l.to_owned();
                    owned.push((c.clone(), k, tag));
                    all.push((c, k, tag));
                }
                2 => {
                    let c = match l.try_to_owned() {
                        Ok(c) => c,
                        Err(_) => return fail("try_to_owned failed with alloc"),
                    };
                    owned.push((c, k, tag));
                }
                3 => {
                    let c = l.clone().with_tag(&TAGS[*t]);
                    all.push((c, k, true));
                }
                _ => {
                    if all.len() > 1 {
                        all.remove(i);
                    }
                }
            }
            for (l, k, tag) in &all {
                ensure!(l.as_str() == orig[*k], "label reads {:?} instead of {:?}", l.as_str(), orig[*k]);
                ensure!(l.tag().is_some() == *tag, "label lost or gained its tag hint");
            }
        }
    }
    for t in &mut texts {
        unsafe { t.as_bytes_mut().iter_mut().for_each(|b| *b = b'#') };
    }
    for (l, k, _) in &owned {
        ensure!(l.as_str() == orig[*k], "owned label reads {:?} instead of {:?} after its source was overwritten", l.as_str(), orig[*k]);
    }
    drop(texts);
    while !owned.is_empty() {
        let i = cx.src.n(owned.len());
        let (l, k, _) = owned.swap_remove(i);
        let c = l.clone();
        drop(l);
        ensure!(c.as_str() == orig[k], "cloned label reads {:?} instead of {:?}", c.as_str(), orig[k]);
        for (l, k, _) in &owned {
            ensure!(l.as_str() == orig[*k], "owned label reads {:?} instead of {:?}", l.as_str(), orig[*k]);
        }
    }
    Ok(())
}

pub static C09: Check = Check {
    id: "C09",
    rule: "random histories (up to 14 steps) on TextBuf and BinaryBuf: borrowed/computed/display/fmt::Write pushes, From, clear, clone, swap, a Display that fails midway, collect of fragmented values and of values of every other kind; content, as_borrowed_*, equality and streaming compared with a String/Vec model; non-trivial = at least 3 pushes mixing borrowed and computed or a clear",
    quick: 3_000_000,
    thorough: 25_000_000,
    run: c09,
    assumptions: &[],
};
fn c09(cx: &mut Ctx) -> R {
    if cx.src.bool() {
        c09_text(cx)
    } else {
        c09_bin(cx)
    }
}
fn c09_text(cx: &mut Ctx) -> R {
    cx.class("text");
    let frags: Vec<String> = (0..4).map(|_| gen_text(&mut cx.src, 16)).collect();
    let n = cx.src.n(15);
    let ops: Vec<(usize, usize)> = (0..n).map(|_| (cx.src.weighted(&[5, 4, 2, 2, 2, 2, 1, 1]), cx.src.n(4))).collect();
    cx.nontrivial_if(ops.iter().filter(|o| o.0 < 4).count() >= 3);
    cx.sample(|| format!("text {frags:?} ops {ops:?}"));
    let mut b = TextBuf::new();
    let mut m = String::new();
    let mut pushes: Vec<(usize, bool)> = Vec::new(); // (fragment, borrowed) since the last clear
    let mut kept: Vec<(TextBuf, String)> = Vec::new();
    for (op, k) in &ops {
        let f = &frags[*k];
        let ok = match op {
            0 => {
                m.push_str(f);
                pushes.push((*k, true));
                b.push_fragment(f).is_ok()
            }
            1 => {
                m.push_str(f);
                pushes.push((*k, false));
                b.push_fragment_computed(&f.clone()).is_ok()
            }
            2 => {
                m.push_str(f);
                pushes.push((*k, false));
                b.push_display(f).is_ok()
            }
            3 => {
                m.push_str(f);
                m.push('7');
                pushes.push((*k, false));
                write!(b, "{f}{}", 7).is_ok()
            }
            4 => {
                m.clear();
                pushes.clear();
                b.clear();
                true
            }
            5 => {
                kept.push((b.clone(), m.clone()));
                true
            }
            6 => {
                m = f.clone();
                pushes = vec![(*k, true)];
                b = TextBuf::from(f.as_str());
                true
            }
            _ => {
                if !kept.is_empty() {
                    let i = k % kept.len();
                    std::mem::swap(&mut b, &mut kept[i].0);
                    std::mem::swap(&mut m, &mut kept[i].1);
                    pushes = vec![(0, false), (0, false)]; // unknown
                }
                true
            }
        };
        ensure!(ok, "push failed");
        ensure!(b.as_str() == m, "content is {:?}, expected {m:?}", b.as_str());
        ensure!(AsRef::<str>::as_ref(&b) == m, "as_ref differs");
        match b.as_borrowed_str() {
            Some(s) => {
                ensure!(s == m, "as_borrowed_str is {s:?}, expected {m:?}");
                let (p, l) = (s.as_ptr() as usize, s.len());
                ensure!(
                    l == 0 || frags.iter().any(|f| (f.as_ptr() as usize) <= p && p + l <= f.as_ptr() as usize + f.len()),
                    "as_borrowed_str returns memory that was not borrowed"
                );
            }
            None => ensure!(!(pushes.len() == 1 && pushes[0].1), "a single borrowed fragment is no longer borrowed"),
        }
        for (o, om) in &kept {
            ensure!(o.as_str() == om, "a clone changed to {:?}, expected {om:?}", o.as_str());
            ensure!((*o == b) == (*om == m), "equality of {om:?} and {m:?} is wrong");
        }
        let evs = record(&b).map_err(|e| Fail { msg: e })?;
        let exp = [Ev::TextBegin(Some(m.len())), Ev::TextFrag(m.clone(), true), Ev::TextEnd];
        super::buffer::same_content(&exp, &evs).map_err(|e| Fail { msg: e })?;
        let mut r = Rec::new();
        ensure!(sval_ref::stream_ref(&mut r, &b).is_ok(), "stream_ref failed");
        super::buffer::same_content(&exp, &r.evs).map_err(|e| Fail { msg: e })?;
        ensure!(r.ptrs.iter().all(|(p, l)| *l == 0 || frags.iter().any(|f| (f.as_ptr() as usize) <= *p && p + l <= f.as_ptr() as usize + f.len())), "stream_ref hands out a borrow of memory that was not borrowed");
    }
    // collecting a fragmented value
    let t = gen_text(&mut cx.src, 24);
    let fs = split_text(&mut cx.src, &t, true);
    let one = fs.len() == 1 && fs[0].borrowed;
    let v = V::Text(if cx.src.bool() { Some(t.len()) } else { None }, fs);
    match TextBuf::collect(&v) {
        Ok(b) => {
            ensure!(b.as_str() == t, "collected {:?}, expected {t:?}", b.as_str());
            ensure!(!one || b.as_borrowed_str().is_some(), "a single borrowed fragment was copied by collect");
            let fresh = TextBuf::from(t.as_str());
            ensure!(b == fresh, "buffers with the same content differ");
        }
        Err(e) => return fail(format!("collect failed: {e}")),
    }
    match TextBuf::collect_display(&t) {
        Ok(b) => ensure!(b.as_str() == t, "collect_display gives {:?}, expected {t:?}", b.as_str()),
        Err(e) => return fail(format!("collect_display failed: {e}")),
    }
    ensure!(TextBuf::collect(&V::F64(gen_f64(&mut cx.src))).is_err(), "a number was collected as text");
    // a Display that fails makes the push fail, with what came before it kept
    let (head, tail) = (gen_text(&mut cx.src, 6), gen_text(&mut cx.src, 6));
    let mut b = TextBuf::from(t.as_str());
    ensure!(b.push_display(Breaks(&head)).is_err(), "push_display of a failing Display succeeded");
    ensure!(b.as_str().starts_with(&t) && format!("{t}{head}").starts_with(b.as_str()), "after a failed push_display the content is {:?}", b.as_str());
    let before = b.as_str().to_owned();
    ensure!(b.push_fragment(&tail).is_ok() && b.as_str() == format!("{before}{tail}"), "pushing after a failed push_display gives {:?}", b.as_str());
    ensure!(TextBuf::collect_display(Breaks(&head)).is_err(), "collect_display of a failing Display succeeded");
    c09_kinds(cx)
}
/// writes a text, then fails
struct Breaks<'a>(&'a str);
impl std::fmt::Display for Breaks<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(self.0)?;
        Err(std::fmt::Error)
    }
}
/// values of other kinds can't be collected
fn c09_kinds(cx: &mut Ctx) -> R {
    if !cx.src.chance(1, 4) {
        return Ok(());
    }
    fn inner(v: &V) -> &V {
        match v {
            V::Tagged(_, x) | V::Hinted(_, x) | V::Enum(_, Some(x)) => inner(&x.v),
            v => v,
        }
    }
    let v = gen(&mut cx.src, &Cfg { nodes: 5, depth: 2, ..Cfg::default() });
    let l = inner(&v);
    let text = TextBuf::collect(&v);
    let bin = BinaryBuf::collect(&v);
    match l {
        V::Text(_, fs) => {
            cx.class("collect text");
            ensure!(matches!(&text, Ok(b) if b.as_str() == text_of(fs)), "text collects as {text:?}");
        }
        // their label may be taken for text
        V::Tag(_) | V::Enum(_, None) => {}
        // a number that is too wide is documented to be streamed as text
        V::Num(n) if n.i128().map_or(true, |n| i64::try_from(n).is_err()) => {}
        l => {
            cx.class("collect another kind");
            ensure!(text.is_err(), "{l:?} collects as text {text:?}");
        }
    }
    match l {
        V::Bin(_, fs) => {
            cx.class("collect binary");
            ensure!(matches!(&bin, Ok(b) if b.as_slice() == bytes_of(fs)), "binary collects as {bin:?}");
        }
        V::Text(..) | V::Null | V::Bool(_) | V::F32(_) | V::F64(_) | V::Map(..) | V::Rec(..) => ensure!(bin.is_err(), "{l:?} collects as binary {bin:?}"),
        V::Num(n) if !matches!(n, Num::U8(_)) => ensure!(bin.is_err(), "{l:?} collects as binary {bin:?}"),
        V::Seq(_, xs) if xs.iter().all(|x| matches!(x.v, V::Num(Num::U8(_)))) => {
            let exp: Vec<u8> = xs.iter().filter_map(|x| if let V::Num(Num::U8(b)) = x.v { Some(b) } else { None }).collect();
            ensure!(matches!(&bin, Ok(b) if b.as_slice() == exp), "{l:?} collects as binary {bin:?}");
        }
        V::Seq(_, xs) if xs.iter().any(|x| !matches!(inner(&x.v), V::Num(Num::U8(_)) | V::Seq(..) | V::Tup(..) | V::Rt(..) | V::Bin(..) | V::Tag(_) | V::Enum(..))) => ensure!(bin.is_err(), "{l:?} collects as binary {bin:?}"),
        _ => {}
    }
    Ok(())
}
fn c09_bin(cx: &mut Ctx) -> R {
    cx.class("binary");
    let frags: Vec<Vec<u8>> = (0..4).map(|_| gen_bytes(&mut cx.src, 16)).collect();
    let n = cx.src.n(15);
    let ops: Vec<(usize, usize)> = (0..n).map(|_| (cx.src.weighted(&[5, 5, 2, 2, 1, 1]), cx.src.n(4))).collect();
    cx.nontrivial_if(ops.iter().filter(|o| o.0 < 2).count() >= 3);
    cx.sample(|| format!("binary {frags:?} ops {ops:?}"));
    let mut b = BinaryBuf::new();
    let mut m: Vec<u8> = Vec::new();
    let mut pushes: Vec<bool> = Vec::new();
    let mut kept: Vec<(BinaryBuf, Vec<u8>)> = Vec::new();
    let inside = |p: usize, l: usize| l == 0 || frags.iter().any(|f| (f.as_ptr() as usize) <= p && p + l <= f.as_ptr() as usize + f.len());
    for (op, k) in &ops {
        let f = &frags[*k];
        let ok = match op {
            0 => {
                m.extend_from_slice(f);
                pushes.push(true);
                b.push_fragment(f).is_ok()
            }
            1 => {
                m.extend_from_slice(f);
                pushes.push(false);
                b.push_fragment_computed(&f.clone()).is_ok()
            }
            2 => {
                m.clear();
                pushes.clear();
                b.clear();
                true
            }
            3 => {
                kept.push((b.clone(), m.clone()));
                true
            }
            4 => {
                m = f.clone();
                pushes = vec![true];
                b = BinaryBuf::from(f.as_slice());
                true
            }
            _ => {
                if !kept.is_empty() {
                    let i = k % kept.len();
                    std::mem::swap(&mut b, &mut kept[i].0);
                    std::mem::swap(&mut m, &mut kept[i].1);
                    pushes = vec![false, false];
                }
                true
            }
        };
        ensure!(ok, "push failed");
        ensure!(b.as_slice() == m, "content is {:?}, expected {m:?}", b.as_slice());
        ensure!(AsRef::<[u8]>::as_ref(&b) == m, "as_ref differs");
        match b.as_borrowed_slice() {
            Some(s) => {
                ensure!(s == m, "as_borrowed_slice is {s:?}, expected {m:?}");
                ensure!(inside(s.as_ptr() as usize, s.len()), "as_borrowed_slice returns memory that was not borrowed");
            }
            None => ensure!(!(pushes.len() == 1 && pushes[0]), "a single borrowed fragment is no longer borrowed"),
        }
        for (o, om) in &kept {
            ensure!(o.as_slice() == om, "a clone changed to {:?}, expected {om:?}", o.as_slice());
            ensure!((*o == b) == (*om == m), "equality of {om:?} and {m:?} is wrong");
        }
        let exp = [Ev::BinBegin(Some(m.len())), Ev::BinFrag(m.clone(), true), Ev::BinEnd];
        let evs = record(&b).map_err(|e| Fail { msg: e })?;
        same_content(&exp, &evs).map_err(|e| Fail { msg: e })?;
        let mut r = Rec::new();
        ensure!(sval_ref::stream_ref(&mut r, &b).is_ok(), "stream_ref failed");
        same_content(&exp, &r.evs).map_err(|e| Fail { msg: e })?;
        ensure!(r.ptrs.iter().all(|(p, l)| inside(*p, *l)), "stream_ref hands out a borrow of memory that was not borrowed");
    }
    let t = gen_bytes(&mut cx.src, 24);
    let fs = split_bytes(&mut cx.src, &t, true);
    let one = fs.len() == 1 && fs[0].borrowed;
    let v = V::Bin(if cx.src.bool() { Some(t.len()) } else { None }, fs);
    match BinaryBuf::collect(&v) {
        Ok(b) => {
            ensure!(b.as_slice() == t, "collected {:?}, expected {t:?}", b.as_slice());
            ensure!(!one || b.as_borrowed_slice().is_some(), "a single borrowed fragment was copied by collect");
            ensure!(b == BinaryBuf::from(t.as_slice()), "buffers with the same content differ");
        }
        Err(e) => return fail(format!("collect failed: {e}")),
    }
    // a sequence of bytes is a documented form of binary
    match BinaryBuf::collect(t.as_slice()) {
        Ok(b) => ensure!(b.as_slice() == t, "collected {:?} from a byte sequence, expected {t:?}", b.as_slice()),
        Err(e) => return fail(format!("collect of a byte sequence failed: {e}")),
    }
    let x = gen_text(&mut cx.src, 8);
    ensure!(BinaryBuf::collect(x.as_str()).is_err(), "text was collected as binary");
    if let Some(a) = t.first_chunk::<5>() {
        let b = BinaryBuf::from(a);
        ensure!(b.as_slice() == a && b.as_borrowed_slice() == Some(a.as_slice()), "From<&[u8; 5]> holds {:?}", b.as_slice());
    }
    let e = t.first_chunk::<0>().map(|a| BinaryBuf::from(a).as_slice().is_empty());
    ensure!(e == Some(true), "From<&[u8; 0]> is not empty");
    Ok(())
}

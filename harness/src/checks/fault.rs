//! C21: faults in streams, values and sinks.
use crate::checks::core::{arb_any, cfg, TYPES};
use crate::checks::{bridge, nested};
use crate::dual::*;
use crate::engine::*;
use crate::ensure;
use crate::ev::*;
use crate::val::*;
use sval::{Stream, Value};

pub static C21: Check = Check {
    id: "C21",
    rule: "a random value (model trees, derived types, 46 built-in types, serde bridges in both directions, buffers, refs, dyn, labels, Display adapters) is streamed through a random adapter into a stream that fails at every call position (all k up to 40 calls, random beyond), or itself fails before any call / before or after any node and is given to every sink (recorder, buffers, JSON to string/vec/fmt/io, fmt, serde, recursive streams, flattening, sval_test, dyn); the operation must return an error, make no call after the failing one, the calls before it must be those of the fault-free run, and nothing may panic; non-trivial = at least 3 calls precede or follow the fault",
    quick: 960_000,
    thorough: 4_000_000,
    run: c21,
    assumptions: &["sval_fmt::stream_to_string and ToFmt have no way to return an error of the value and are excluded"],
};

pub static C27: Check = Check {
    id: "C27",
    rule: "the call sequence of a random value, broken by a few edits (cut short, calls removed, doubled, swapped, replaced or inserted from another value, text that is not what its tag says, or drawn at random altogether), is played as a value into 10 of the sinks (buffers, text and binary buffers, JSON to string/vec/fmt/io, fmt, token writers, serde, recursive streams, flattening, dyn, default lowering, casts): nothing may panic; a sequence cut short must be an error for serde and recursive streams and leaves a ValueBuf incomplete; and the wrappers must still hand on every call unchanged; non-trivial = at least 3 calls remain and the sequence is not well formed or carries mistagged text",
    quick: 900_000,
    thorough: 6_000_000,
    run: c27,
    assumptions: &["what a sink other than a wrapper writes for a malformed sequence is left open"],
};

/// Is this the call sequence of exactly one value?
fn whole(evs: &[Ev]) -> bool {
    fn value(e: &[Ev], mut i: usize) -> Option<usize> {
        while let Some(Ev::Hint(_)) = e.get(i) {
            i += 1;
        }
        let many = |mut i: usize, sep: &dyn Fn(&[Ev], usize) -> Option<usize>, end: &dyn Fn(&Ev) -> bool| loop {
            while let Some(Ev::Hint(_)) = e.get(i) {
                i += 1;
            }
            if end(e.get(i)?) {
                return Some(i + 1);
            }
            i = sep(e, i)?;
        };
        let wrapped = |e: &[Ev], i: usize, b: &dyn Fn(&Ev) -> bool, x: &dyn Fn(&Ev, &Ev) -> bool| -> Option<usize> {
            if !b(e.get(i)?) {
                return None;
            }
            let mut j = value(e, i + 1)?;
            while let Some(Ev::Hint(_)) = e.get(j) {
                j += 1;
            }
            if x(&e[i], e.get(j)?) { Some(j + 1) } else { None }
        };
        match e.get(i)? {
            Ev::Null | Ev::Bool(_) | Ev::Num(_) | Ev::F32(_) | Ev::F64(_) | Ev::Tag(_) => Some(i + 1),
            Ev::TextBegin(_) => {
                i += 1;
                while let Some(Ev::TextFrag(..) | Ev::Hint(_)) = e.get(i) {
                    i += 1;
                }
                matches!(e.get(i)?, Ev::TextEnd).then_some(i + 1)
            }
            Ev::BinBegin(_) => {
                i += 1;
                while let Some(Ev::BinFrag(..) | Ev::Hint(_)) = e.get(i) {
                    i += 1;
                }
                matches!(e.get(i)?, Ev::BinEnd).then_some(i + 1)
            }
            Ev::SeqBegin(_) => many(i + 1, &|e, i| wrapped(e, i, &|x| matches!(x, Ev::SeqValueBegin), &|_, x| matches!(x, Ev::SeqValueEnd)), &|x| matches!(x, Ev::SeqEnd)),
            Ev::MapBegin(_) => many(
                i + 1,
                &|e, i| {
                    let i = wrapped(e, i, &|x| matches!(x, Ev::MapKeyBegin), &|_, x| matches!(x, Ev::MapKeyEnd))?;
                    wrapped(e, i, &|x| matches!(x, Ev::MapValueBegin), &|_, x| matches!(x, Ev::MapValueEnd))
                },
                &|x| matches!(x, Ev::MapEnd),
            ),
            Ev::RecBegin(..) => many(i + 1, &|e, i| wrapped(e, i, &|x| matches!(x, Ev::RecValueBegin(..)), &|_, x| matches!(x, Ev::RecValueEnd(..))), &|x| matches!(x, Ev::RecEnd(_))),
            Ev::TupBegin(..) => many(i + 1, &|e, i| wrapped(e, i, &|x| matches!(x, Ev::TupValueBegin(..)), &|_, x| matches!(x, Ev::TupValueEnd(..))), &|x| matches!(x, Ev::TupEnd(_))),
            Ev::RtBegin(..) => many(i + 1, &|e, i| wrapped(e, i, &|x| matches!(x, Ev::RtValueBegin(..)), &|_, x| matches!(x, Ev::RtValueEnd(..))), &|x| matches!(x, Ev::RtEnd(_))),
            Ev::TaggedBegin(_) => wrapped(e, i, &|_| true, &|_, x| matches!(x, Ev::TaggedEnd(_))),
            Ev::EnumBegin(_) => {
                let mut j = i + 1;
                while let Some(Ev::Hint(_)) = e.get(j) {
                    j += 1;
                }
                if let Some(Ev::EnumEnd(_)) = e.get(j) {
                    return Some(j + 1);
                }
                wrapped(e, i, &|_| true, &|_, x| matches!(x, Ev::EnumEnd(_)))
            }
            _ => None,
        }
    }
    let Some(mut i) = value(evs, 0) else { return false };
    while let Some(Ev::Hint(_)) = evs.get(i) {
        i += 1;
    }
    i == evs.len()
}

fn c27(cx: &mut Ctx) -> R {
    let s = &mut cx.src;
    let c = cfg(s);
    let v = gen(s, &c);
    let mut evs = events(&v);
    if evs.len() > 400 {
        evs.truncate(400);
    }
    ensure!(evs.len() == 400 || whole(&evs), "harness: a generated value is not whole: {evs:?}");
    // calls to insert
    let c2 = Cfg { nodes: 6, depth: 3, ..Cfg::default() };
    let other = events(&gen(s, &c2));
    let (mut cut, mut tagged) = (false, false);
    if s.chance(1, 8) {
        // no order at all
        let n = 1 + s.n(8);
        let all: Vec<Ev> = evs.iter().chain(&other).cloned().collect();
        evs = (0..n).map(|_| s.pick(&all).clone()).collect();
        cx.class("random calls");
    } else if s.chance(1, 4) {
        let k = s.n(evs.len());
        let rest = evs.split_off(k);
        // the end of a tag or enum adds nothing to what a recursive stream already has
        cut = !rest.iter().all(|e| matches!(e, Ev::EnumEnd(_) | Ev::TaggedEnd(_) | Ev::Hint(_)));
        cx.class("cut short");
    } else {
        for _ in 0..1 + s.n(3) {
            if evs.is_empty() {
                break;
            }
            let i = s.n(evs.len());
            match s.n(8) {
                6 | 7 => {
                    // text that is not what its tag says
                    let t: Vec<usize> = (0..evs.len()).filter(|i| matches!(evs[*i], Ev::TextBegin(_))).collect();
                    if t.is_empty() {
                        continue;
                    }
                    let i = *s.pick(&t);
                    let Some(n) = evs[i..].iter().position(|e| matches!(e, Ev::TextEnd)) else { continue };
                    let m = M { tag: Some(s.pick(&[sval::tags::NUMBER, sval_json::tags::JSON_NUMBER, sval_json::tags::JSON_TEXT, sval_json::tags::JSON_VALUE, sval::tags::VALUE_IDENT, sval::tags::RUST_OPTION_SOME, sval::tags::RUST_UNIT]).clone()), ..M::default() };
                    for e in &mut evs[i..i + n] {
                        if let Ev::TextFrag(t, _) = e {
                            if s.chance(3, 4) {
                                *t = (0..s.n(6)).map(|_| *s.pick(&['0', '1', '9', '-', '+', '.', 'e', 'E', 'n', 'a', 'i', 'N', 'A', 's', '_', ' ', '"', '\\', '\u{e9}', '\u{10000}', '\0'])).collect();
                            }
                        }
                    }
                    tagged = true;
                    evs.insert(i + n + 1, Ev::TaggedEnd(m.clone()));
                    evs.insert(i, Ev::TaggedBegin(m));
                }
                0 => {
                    evs.remove(i);
                }
                1 => {
                    let e = evs[i].clone();
                    evs.insert(i, e);
                }
                2 => {
                    let j = s.n(evs.len());
                    evs.swap(i, j);
                }
                3 => evs[i] = s.pick(&other).clone(),
                4 => {
                    let e = s.pick(&other).clone();
                    evs.insert(i, e);
                }
                _ => {
                    let e = s.pick(&evs).clone();
                    evs.insert(i, e);
                }
            }
        }
        cx.class("edited");
    }
    let ok = whole(&evs);
    cx.class_if(ok, "still well formed");
    cx.nontrivial_if(evs.len() >= 3 && (!ok || tagged));
    cx.sample(|| format!("{evs:?}"));
    let p = Play(evs);
    for _ in 0..10 {
        let w = cx.src.n(SINKS + 4);
        if (22..24).contains(&w) {
            // the assertions of sval_test report by panicking
            continue;
        }
        let r = match w {
            w if w < SINKS => no_panic(|| sink(w, &p)),
            w => no_panic(|| match w - SINKS {
                0 => {
                    let _ = (p.to_bool(), p.to_text().map(str::len), p.to_binary().map(<[u8]>::len), p.to_i8(), p.to_u8());
                    let _ = (p.to_i64(), p.to_u64(), p.to_i128(), p.to_u128(), p.to_f32(), p.to_f64(), Value::tag(&p));
                    None
                }
                1 => {
                    let _ = (format!("{:?}", sval_fmt::ToFmt::new(&p)), sval_fmt::stream_to_string(&p));
                    None
                }
                2 => {
                    let mut b = sval_buffer::ValueBuf::new();
                    let r = p.stream(&mut b);
                    let done = b.is_complete();
                    let t = b.to_value();
                    let _ = record(&t);
                    let _ = record(&b);
                    let _ = t.into_owned();
                    let e = b.into_err();
                    match (r, e) {
                        (Err(_), None) => Some("a ValueBuf failed without an error to report".into()),
                        (Ok(()), Some(e)) => Some(format!("a ValueBuf took every call, but reports {e}")),
                        (Ok(()), None) if done && cut && !ok => Some("a ValueBuf calls a value that was cut short complete".into()),
                        _ => None,
                    }
                }
                _ => {
                    let mut b = sval_test::TokenBuf::new();
                    let _ = p.stream(&mut b);
                    let _ = format!("{:?}", b.as_tokens());
                    None
                }
            }),
        };
        match r {
            Err(e) => return fail(format!("sink {w} panicked: {e}\ncalls: {:?}", p.0)),
            Ok(Some(m)) if w >= SINKS => return fail(format!("{m}\ncalls: {:?}", p.0)),
            Ok(Some(m)) if cut && !ok && matches!(w, 15..=18) => return fail(format!("a value cut short, but {m}\ncalls: {:?}", p.0)),
            Ok(_) => {}
        }
    }
    // wrappers pass on whatever they are given
    let exp = record(&p).map_err(|m| Fail { msg: m })?;
    ensure!(exp == p.0, "played as {exp:?}");
    let mut r = Rec::new();
    let w = cx.src.n(5);
    let res = no_panic(|| match w {
        0 => (&&p as &dyn sval_dynamic::Value).stream(&mut r),
        1 => p.stream(&mut r as &mut dyn sval_dynamic::Stream),
        2 => sval_ref::stream_ref(&mut r, sval_ref::to_ref(&p)),
        3 => Box::new(&p).stream(&mut &mut r),
        _ => sval::stream(&mut r, &p),
    });
    match res {
        Err(e) => return fail(format!("wrapper {w} panicked: {e}")),
        Ok(res) => ensure!(res.is_ok() && r.evs == p.0, "wrapper {w}: {}", diff(&p.0, &r.evs)),
    }
    Ok(())
}

fn c21(cx: &mut Ctx) -> R {
    if cx.src.bool() {
        failing_stream(cx)
    } else {
        failing_value(cx)
    }
}

/// `put` streams something into the given recorder
fn every_fault(cx: &mut Ctx, what: &str, put: &dyn Fn(&mut Rec) -> sval::Result) -> R {
    let mut full = Rec::new();
    match no_panic(|| put(&mut full)) {
        Err(e) => return fail(format!("{what} panicked: {e}")),
        Ok(Err(_)) => {
            cx.class("value unsupported by adapter");
            return Ok(());
        }
        Ok(Ok(())) => {}
    }
    let n = full.evs.len();
    cx.nontrivial_if(n >= 3);
    cx.sample(|| format!("{what}: {:?}", full.evs));
    let ks: Vec<usize> = if n <= 40 { (0..n).collect() } else { (0..25).map(|_| cx.src.n(n)).collect() };
    for k in ks {
        let mut r = Rec::failing(k);
        let res = match no_panic(|| put(&mut r)) {
            Err(e) => return fail(format!("{what}: the stream failed at call {k} of {n}, then: {e}\ncalls: {:?}", full.evs)),
            Ok(r) => r,
        };
        ensure!(res.is_err(), "{what}: the stream failed at call {k} ({:?}), but the operation succeeded\ncalls: {:?}", full.evs[k], full.evs);
        ensure!(r.failed, "{what}: call {k} was never made\ncalls: {:?}", full.evs);
        ensure!(r.after_fail == 0, "{what}: {} calls after the stream failed at call {k} ({:?})\ncalls: {:?}", r.after_fail, full.evs[k], full.evs);
        ensure!(r.evs[..] == full.evs[..k], "{what}: failing at call {k}: {}", diff(&full.evs[..k], &r.evs));
    }
    Ok(())
}

const FEAT: Feat = Feat { floats: true, text: any_text, chars: true, maps: true, one_tuples: true, arrays: true, unit_structs: true, empty_structs: true };

fn failing_stream(cx: &mut Ctx) -> R {
    let s = &mut cx.src;
    let k = s.n(18);
    match k {
        0 => {
            let t = s.n(TYPES);
            let v = arb_any(s, t);
            every_fault(cx, &format!("built-in type {t}"), &|r| v.put(r))
        }
        1 => {
            let t = s.n(TYPES);
            let v = arb_any(s, t);
            let Ok(b) = v.buf() else { return Ok(()) };
            every_fault(cx, &format!("buffered built-in type {t}"), &|r| b.stream(r))
        }
        2 | 3 => {
            let d = gen_dual(s, FEAT, 10, 4);
            every_fault(cx, "derived type", &|r| d.stream(r))
        }
        4 | 5 => {
            let d = gen_dual(s, FEAT, 10, 4);
            every_fault(cx, "serde type as sval", &|r| sval_serde::ToValue::new(&d).stream(r))
        }
        6 => {
            let d = gen_dual(s, FEAT, 8, 3);
            every_fault(cx, "sval as serde as sval", &|r| sval_serde::ToValue::new(sval_serde::ToSerialize::new(&d)).stream(r))
        }
        7 => {
            let d = gen_dual(s, FEAT, 8, 4);
            let text = gen_text(s, 20);
            let w = s.n(5);
            every_fault(cx, "Display/Debug adapter", &|r| match w {
                0 => sval_fmt::stream_debug(r, &d),
                1 => sval_fmt::stream_display(r, format_args!("<{text}|{d:?}>")),
                2 => sval::stream_display(r, &text),
                3 => sval_fmt::DebugToValue::new(&d).stream(r),
                _ => sval::Display::new(&text).stream(r),
            })
        }
        8 => {
            let l = Lb { text: gen_text(s, 6), stat: None, owned: s.bool(), tag: Some(TAGS[0].clone()) };
            let w = s.n(5);
            let j = gen_text(s, 6);
            let n = s.bits() as i64;
            let m = M { tag: None, label: if s.bool() { Some(l.clone()) } else { None }, index: if s.bool() { Some(Ix::new(3)) } else { None } };
            every_fault(cx, "label, index, tag or JSON text", &|r| match w {
                0 => r.value_computed(l.label().as_str()),
                1 => sval::default_stream::i128(r, n as i128),
                2 => sval_json::JsonStr::new(&j).stream(r),
                3 => r.value_computed(&sval_json::JsonStr::boxed(j.as_str())),
                _ => m.with(|t, l, i| sval::default_stream::tag(r, t, l, i)),
            })
        }
        9 => {
            let c = cfg(s);
            let v = gen(s, &c);
            let Ok(b) = sval_buffer::ValueBuf::collect(&v) else { return fail("buffering failed") };
            let w = s.n(3);
            every_fault(cx, "buffer", &|r| match w {
                0 => b.stream(r),
                1 => sval_ref::ValueRef::stream_ref(&b, r),
                _ => r.value_computed(&b),
            })
        }
        10 => {
            let c = cfg(s);
            let v = gen(s, &c);
            let Ok(b) = sval_buffer::Value::collect(&v) else { return fail("buffering failed") };
            every_fault(cx, "immutable buffer", &|r| b.stream(r))
        }
        11 => {
            let c = cfg(s);
            let v = gen(s, &c);
            let mut mask = !0u64;
            for _ in 0..s.n(12) {
                mask &= !(1 << s.n(30));
            }
            every_fault(cx, "default stream methods", &|r| {
                r.mask = mask;
                v.stream(r)
            })
        }
        12 => {
            let c = cfg(s);
            let v = gen(s, &c);
            let w = s.n(4);
            every_fault(cx, "dyn", &|r| match w {
                0 => {
                    let d: &dyn sval_dynamic::Value = &v;
                    d.stream(r)
                }
                1 => {
                    let d: &mut dyn sval_dynamic::Stream = r;
                    v.stream(d)
                }
                2 => {
                    let mut r: Box<dyn sval_dynamic::Stream> = Box::new(r);
                    v.stream(&mut *r)
                }
                _ => r.value_computed(&&&v),
            })
        }
        13 => {
            let c = cfg(s);
            let v = gen(s, &c);
            let w = s.n(5);
            every_fault(cx, "flattening", &|r| {
                match w {
                    0 => sval_flatten::flatten_to_map(r, &v, 1).map(|_| ()),
                    1 => sval_flatten::flatten_to_seq(r, &v),
                    2 => sval_flatten::flatten_to_record(r, &v, 1).map(|_| ()),
                    3 => sval_flatten::flatten_to_tuple(r, &v, 1).map(|_| ()),
                    _ => sval_flatten::flatten_to_record_tuple(r, &v, 1).map(|_| ()),
                }
            })
        }
        14 => {
            // text and binary buffers
            let t = gen_text(s, 12);
            let b = gen_bytes(s, 12);
            let w = s.n(4);
            let tb = sval_buffer::TextBuf::from(t.as_str());
            let bb = sval_buffer::BinaryBuf::from(b.as_slice());
            every_fault(cx, "text or binary buffer", &|r| match w {
                0 => tb.stream(r),
                1 => bb.stream(r),
                2 => sval_ref::ValueRef::stream_ref(&tb, r),
                _ => sval_ref::ValueRef::stream_ref(&bb, r),
            })
        }
        15 | 16 => {
            // containers streamed through ValueRef
            let c = Cfg { nodes: 4, depth: 3, ..Cfg::default() };
            let vs: Vec<V> = (0..1 + s.n(3)).map(|_| gen(s, &c)).collect();
            let refs: Vec<sval_ref::Ref<&V>> = vs.iter().map(sval_ref::Ref::new).collect();
            let n = refs.len();
            let w = s.n(8);
            use sval_ref::stream_ref as sr;
            every_fault(cx, "ValueRef container", &|r| match w {
                0 => sr(r, &refs),
                1 => sr(r, refs.as_slice()),
                2 => sr(r, &[refs[0], refs[1 % n], refs[2 % n]]),
                3 => sr(r, (refs[0],)),
                4 => sr(r, (refs[0], refs[1 % n])),
                5 => sr(r, Box::new((refs[0], refs[1 % n], refs[2 % n], refs[0]))),
                6 => sr(r, (refs[0], &refs, [refs[0]], (refs[1 % n], refs.as_slice()))),
                _ => sr(r, &vec![(refs[0], refs[1 % n])]),
            })
        }
        _ => {
            let c = cfg(s);
            let v = gen(s, &c);
            every_fault(cx, "serialize bridge", &|r| sval_serde::ToValue::new(sval_serde::ToSerialize::new(&v)).stream(r))
        }
    }
}

/// every way to consume a value that reports errors; Some(why) if it did not fail
fn sink(w: usize, v: &(impl Value + ?Sized)) -> Option<String> {
    let went = |what: &str, got: String| Some(format!("{what} succeeded with {}", clip(&got, 300)));
    match w {
        0 => record(v).ok().and_then(|e| went("streaming", format!("{e:?}"))),
        1 => sval_buffer::ValueBuf::collect(v).ok().and_then(|b| went("ValueBuf::collect", format!("{b:?}"))),
        2 => sval_buffer::ValueBuf::collect_owned(v).ok().and_then(|b| went("ValueBuf::collect_owned", format!("{b:?}"))),
        3 => sval_buffer::Value::collect(v).ok().and_then(|b| went("Value::collect", format!("{b:?}"))),
        4 => sval_buffer::Value::collect_owned(v).ok().and_then(|b| went("Value::collect_owned", format!("{b:?}"))),
        5 => sval_buffer::TextBuf::collect(v).ok().and_then(|b| went("TextBuf::collect", format!("{b:?}"))),
        6 => sval_buffer::BinaryBuf::collect(v).ok().and_then(|b| went("BinaryBuf::collect", format!("{b:?}"))),
        7 => sval_json::stream_to_string(v).ok().and_then(|b| went("sval_json::stream_to_string", b)),
        8 => sval_json::stream_to_vec(v).ok().and_then(|b| went("sval_json::stream_to_vec", format!("{b:?}"))),
        9 => {
            let mut o = String::new();
            sval_json::stream_to_fmt_write(&mut o, v).ok().and_then(|_| went("sval_json::stream_to_fmt_write", o))
        }
        10 => {
            let mut o = Vec::new();
            sval_json::stream_to_io_write(&mut o, v).ok().and_then(|_| went("sval_json::stream_to_io_write", format!("{o:?}")))
        }
        11 => sval_json::stream_to_json_str(v).ok().and_then(|b| went("sval_json::stream_to_json_str", b.as_str().into())),
        12 => {
            let mut o = String::new();
            sval_fmt::stream_to_write(&mut o, v).ok().and_then(|_| went("sval_fmt::stream_to_write", o))
        }
        13 => {
            struct F<'a, T: ?Sized>(&'a T);
            impl<'a, T: Value + ?Sized> std::fmt::Display for F<'a, T> {
                fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                    sval_fmt::stream_to_fmt(f, self.0)
                }
            }
            let mut o = String::new();
            std::fmt::Write::write_fmt(&mut o, format_args!("{}", F(v))).ok().and_then(|_| went("sval_fmt::stream_to_fmt", o))
        }
        14 => {
            struct T(String);
            impl std::fmt::Write for T {
                fn write_str(&mut self, s: &str) -> std::fmt::Result {
                    self.0.push_str(s);
                    Ok(())
                }
            }
            impl sval_fmt::TokenWrite for T {}
            let mut o = T(String::new());
            sval_fmt::stream_to_token_write(&mut o, v).ok().and_then(|_| went("sval_fmt::stream_to_token_write", o.0))
        }
        15 => serde_json::to_string(&sval_serde::ToSerialize::new(v)).ok().and_then(|b| went("serde_json through ToSerialize", b)),
        16 => bridge::serde_calls(&sval_serde::ToSerialize::new(v)).ok().and_then(|b| went("ToSerialize", format!("{b:?}"))),
        17 => nested::rebuild(v).ok().and_then(|b| went("a recursive stream", format!("{b:?}"))),
        18 => nested::rebuild_min(v).ok().and_then(|b| went("a minimal recursive stream", format!("{b:?}"))),
        19 => {
            let mut r = Rec::new();
            sval_flatten::flatten_to_record(&mut r, &v, 0).ok().and_then(|_| went("flatten_to_record", format!("{:?}", r.evs)))
        }
        20 => {
            let mut r = Rec::new();
            sval_flatten::flatten_to_map(&mut r, &v, 0).ok().and_then(|_| went("flatten_to_map", format!("{:?}", r.evs)))
        }
        21 => {
            let mut r = Rec::new();
            sval_flatten::flatten_to_seq(&mut r, &v).ok().and_then(|_| went("flatten_to_seq", format!("{:?}", r.evs)))
        }
        22 => {
            // assert_invalid panics if the value is valid
            no_panic(|| sval_test::assert_invalid(v)).err().and_then(|e| went("assert_invalid", e))
        }
        23 => no_panic(|| sval_test::assert_valid(v)).ok().and_then(|_| went("assert_valid", String::new())),
        24 => {
            let mut r = MinRec::default();
            v.stream(&mut r).ok().and_then(|_| went("streaming to a minimal stream", String::new()))
        }
        25 => {
            let mut r = Rec::new();
            let d: &mut dyn sval_dynamic::Stream = &mut r;
            d.value(&v).ok().and_then(|_| went("dyn Stream::value", format!("{:?}", r.evs)))
        }
        26 => {
            let mut r = Rec::new();
            r.value_computed(&v).ok().and_then(|_| went("value_computed", format!("{:?}", r.evs)))
        }
        27 => {
            let mut r = Rec::new();
            sval_serde::ToValue::new(sval_serde::ToSerialize::new(v)).stream(&mut r).ok().and_then(|_| went("to serde and back", format!("{:?}", r.evs)))
        }
        28 => {
            let mut b = sval_buffer::ValueBuf::new();
            b.value_computed(&v).ok().and_then(|_| went("ValueBuf::value_computed", format!("{b:?}")))
        }
        29 => {
            let mut r = Rec::new();
            sval_flatten::flatten_to_tuple(&mut r, &v, 0).ok().and_then(|_| went("flatten_to_tuple", format!("{:?}", r.evs)))
        }
        _ => {
            let mut r = Rec::new();
            sval_flatten::flatten_to_record_tuple(&mut r, &v, 0).ok().and_then(|_| went("flatten_to_record_tuple", format!("{:?}", r.evs)))
        }
    }
}
const SINKS: usize = 31;

fn failing_value(cx: &mut Ctx) -> R {
    let s = &mut cx.src;
    let c = cfg(s);
    let v = gen(s, &c);
    let n = size(&v);
    let evs = events(&v);
    cx.nontrivial_if(evs.len() >= 3);
    let picks: Vec<usize> = (0..6).map(|_| cx.src.n(SINKS)).collect();
    if cx.src.bool() {
        // before or after a node, through nested value calls
        let (k, after) = (cx.src.n(n), cx.src.bool());
        cx.sample(|| format!("node {k} fails {}: {evs:?}", if after { "after its calls" } else { "at once" }));
        for w in picks {
            let (r, blown) = with_fuse(k, after, || no_panic(|| sink(w, &v)));
            let r = r.map_err(|e| Fail { msg: format!("sink {w}: a value failing at node {k} panicked: {e}\ncalls: {evs:?}") })?;
            if !blown {
                // a sink that stops early for reasons of its own fails too
                cx.class("stopped before the fault");
            }
            if let Some(m) = r {
                return fail(format!("a value failed {} node {k}, but {m}\ncalls: {evs:?}", if after { "after" } else { "before" }));
            }
        }
    } else {
        // between any two calls
        let k = cx.src.n(evs.len() + 1);
        let mut p = evs[..k].to_vec();
        p.push(Ev::Fail);
        if cx.src.bool() {
            p.extend_from_slice(&evs[k..]);
        }
        cx.sample(|| format!("{p:?}"));
        let p = Play(p);
        for w in picks {
            let r = no_panic(|| sink(w, &p)).map_err(|e| Fail { msg: format!("sink {w}: a value failing before call {k} panicked: {e}\ncalls: {:?}", p.0) })?;
            if let Some(m) = r {
                return fail(format!("a value failed before call {k}, but {m}\ncalls: {:?}", p.0));
            }
        }
    }
    Ok(())
}

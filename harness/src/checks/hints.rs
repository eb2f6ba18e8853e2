//! C22: hints carry no data.
use crate::checks::core::cfg;
use crate::checks::{bridge, nested};
use crate::engine::*;
use crate::ensure;
use crate::ev::*;
use crate::val::*;
use sval::{tags, Tag, Value};

pub static C22: Check = Check {
    id: "C22",
    rule: "the call sequence of a random value is replayed with tag hints (any tag, including the interpreted ones) inserted between any two calls, size hints removed, changed to wrong or extreme numbers, and values wrapped in an unlabelled CONSTANT_SIZE tag; the JSON text, the sval_fmt text, buffered content, casts, flattened entries, recursive-stream results and serde output must be those of the unchanged sequence; non-trivial = at least 3 calls and 1 change",
    quick: 120_000,
    thorough: 4_000_000,
    run: c22,
    assumptions: &["wrong sizes are not given to serde formats and recursive streams, whose contracts allow them to rely on sizes"],
};

fn any_tag(s: &mut Src) -> Tag {
    let all = [
        tags::CONSTANT_SIZE,
        tags::NUMBER,
        tags::RUST_UNIT,
        tags::RUST_OPTION_NONE,
        tags::RUST_OPTION_SOME,
        tags::VALUE_IDENT,
        tags::VALUE_OFFSET,
        T_JSON_TEXT,
        T_JSON_VALUE,
        T_JSON_NUMBER,
        Tag::new("X"),
    ];
    s.pick(&all).clone()
}
fn size_hint(s: &mut Src, n: Option<usize>, wrong: bool) -> Option<usize> {
    match s.n(if wrong { 6 } else { 2 }) {
        0 => n,
        1 => None,
        2 => Some(0),
        3 => n.map(|n| n + 1),
        4 => Some(usize::MAX),
        _ => Some(s.n(1000)),
    }
}
const CS: M = M { tag: Some(tags::CONSTANT_SIZE), label: None, index: None };

/// index one past the value that starts at i
fn end_of(evs: &[Ev], mut i: usize) -> usize {
    while matches!(evs[i], Ev::Hint(_)) {
        i += 1;
    }
    let mut d = 0isize;
    loop {
        d += match &evs[i] {
            Ev::TextBegin(_) | Ev::BinBegin(_) | Ev::MapBegin(_) | Ev::SeqBegin(_) | Ev::EnumBegin(_) | Ev::TaggedBegin(_) | Ev::RecBegin(..) | Ev::TupBegin(..) | Ev::RtBegin(..) => 1,
            Ev::TextEnd | Ev::BinEnd | Ev::MapEnd | Ev::SeqEnd | Ev::EnumEnd(_) | Ev::TaggedEnd(_) | Ev::RecEnd(_) | Ev::TupEnd(_) | Ev::RtEnd(_) => -1,
            _ => 0,
        };
        i += 1;
        if d == 0 {
            return i;
        }
    }
}

fn without_cs(evs: &[Ev]) -> Vec<Ev> {
    evs.iter().filter(|e| !matches!(e, Ev::TaggedBegin(m) | Ev::TaggedEnd(m) if *m == CS)).cloned().collect()
}

pub fn casts(v: &(impl Value + ?Sized)) -> String {
    format!(
        "bool {:?} i8 {:?} i16 {:?} i32 {:?} i64 {:?} i128 {:?} u8 {:?} u16 {:?} u32 {:?} u64 {:?} u128 {:?} f32 {:?} f64 {:?} text {:?} binary {:?}",
        v.to_bool(),
        v.to_i8(),
        v.to_i16(),
        v.to_i32(),
        v.to_i64(),
        v.to_i128(),
        v.to_u8(),
        v.to_u16(),
        v.to_u32(),
        v.to_u64(),
        v.to_u128(),
        v.to_f32().map(|x| x.to_bits()),
        v.to_f64().map(|x| x.to_bits()),
        v.to_text(),
        v.to_binary()
    )
}

fn c22(cx: &mut Ctx) -> R {
    let s = &mut cx.src;
    let mut c = cfg(s);
    c.hints = false;
    c.json_tags = s.chance(1, 4);
    let v = if s.chance(1, 6) {
        let mut g = Gen { cfg: c.clone(), left: 1, s };
        match g.s.n(3) {
            0 => g.bin(),
            1 => g.text(),
            _ => g.scalar(),
        }
    } else {
        gen(s, &c)
    };
    let base = Play(events(&v));
    let (hints, sizes, wrong, constant) = (s.chance(3, 4), s.bool(), s.bool(), s.chance(1, 3));
    let mut evs = base.0.clone();
    let mut changes = 0;
    if constant {
        // wrap elements, fields, map values or the root
        let mut at: Vec<usize> = evs
            .iter()
            .enumerate()
            .filter(|(_, e)| matches!(e, Ev::SeqValueBegin | Ev::MapValueBegin | Ev::RecValueBegin(..) | Ev::TupValueBegin(..) | Ev::RtValueBegin(..)))
            .map(|(i, _)| i + 1)
            .chain([0])
            .collect();
        at.sort();
        // back to front: inner values first
        for i in at.into_iter().rev() {
            if s.chance(1, 3) {
                let e = end_of(&evs, i);
                evs.insert(e, Ev::TaggedEnd(CS));
                evs.insert(i, Ev::TaggedBegin(CS));
                changes += 1;
            }
        }
    }
    if sizes {
        for e in evs.iter_mut() {
            match e {
                Ev::TextBegin(n) | Ev::BinBegin(n) | Ev::SeqBegin(n) | Ev::MapBegin(n) => {
                    *n = size_hint(s, *n, wrong);
                    changes += 1;
                }
                Ev::RecBegin(_, n) | Ev::TupBegin(_, n) | Ev::RtBegin(_, n) if wrong => {
                    *n = size_hint(s, *n, true);
                    changes += 1;
                }
                _ => {}
            }
        }
    }
    if hints {
        let n = 1 + s.n(5);
        for _ in 0..n {
            let i = s.n(evs.len() + 1);
            let t = any_tag(s);
            evs.insert(i, Ev::Hint(t));
            changes += 1;
        }
    }
    let m = Play(evs);
    cx.nontrivial_if(base.0.len() >= 3 && changes > 0);
    cx.sample(|| format!("{:?}", m.0));
    cx.class_if(hints, "hints");
    cx.class_if(sizes && !wrong, "sizes absent");
    cx.class_if(sizes && wrong, "sizes wrong");
    cx.class_if(constant, "constant size");
    let wrong = sizes && wrong;
    let same = |what: &str, f: &dyn Fn(&Play) -> Result<String, String>| -> R {
        let a = no_panic(|| f(&base)).map_err(|e| Fail { msg: format!("{what} of {:?} panicked: {e}", base.0) })?;
        let b = no_panic(|| f(&m)).map_err(|e| Fail { msg: format!("{what} of {:?} panicked: {e}", m.0) })?;
        ensure!(a == b, "{what} of {:?}\nis {}\nbut for {:?}\nit is {}", base.0, clip(&format!("{a:?}"), 700), m.0, clip(&format!("{b:?}"), 700));
        Ok(())
    };
    same("JSON", &|v| sval_json::stream_to_string(v).map_err(|e| e.to_string()))?;
    same("JSON through io", &|v| {
        let mut o = Vec::new();
        sval_json::stream_to_io_write(&mut o, v).map_err(|e| e.to_string())?;
        Ok(String::from_utf8_lossy(&o).into_owned())
    })?;
    same("fmt", &|v| Ok(format!("{:?}", sval_fmt::ToFmt::new(v))))?;
    same("fmt to a writer", &|v| {
        let mut o = String::new();
        sval_fmt::stream_to_write(&mut o, v).map_err(|e| e.to_string())?;
        Ok(o)
    })?;
    same("the buffer", &|v| {
        let b = sval_buffer::ValueBuf::collect(v).map_err(|e| e.to_string())?;
        Ok(format!("{:?}", drop_sizes(&norm_frags(&without_cs(&drop_hints(&record(&b)?))))))
    })?;
    same("the owned buffer", &|v| {
        let b = sval_buffer::Value::collect_owned(v).map_err(|e| e.to_string())?;
        Ok(format!("{:?}", drop_sizes(&norm_frags(&without_cs(&drop_hints(&record(&b)?))))))
    })?;
    same("casting", &|v| Ok(casts(v)))?;
    if !constant {
        same("the tag", &|v| Ok(format!("{:?}", v.tag())))?;
    }
    same("the default conversions", &|v| {
        let mut r = Rec::masked(0);
        v.stream(&mut r).map_err(|e| e.to_string())?;
        Ok(format!("{:?}", drop_sizes(&norm_frags(&r.evs))))
    })?;
    same("flattening onto a record", &|v| {
        let mut r = Rec::new();
        let n = sval_flatten::flatten_to_record(&mut r, v, 2).map_err(|e| e.to_string())?;
        Ok(format!("{n} {:?}", drop_sizes(&norm_frags(&without_cs(&drop_hints(&r.evs))))))
    })?;
    same("flattening onto a map", &|v| {
        let mut r = Rec::new();
        let n = sval_flatten::flatten_to_map(&mut r, v, 2).map_err(|e| e.to_string())?;
        Ok(format!("{n} {:?}", drop_sizes(&norm_frags(&without_cs(&drop_hints(&r.evs))))))
    })?;
    if !wrong {
        same("the recursive stream", &|v| {
            let e = nested::rebuild(v).map_err(|e| e.to_string())?;
            Ok(format!("{:?}", drop_sizes(&without_cs(&norm_frags(&e)))))
        })?;
        same("serde_json", &|v| serde_json::to_string(&sval_serde::ToSerialize::new(v)).map_err(|e| e.to_string()))?;
        if !sizes {
            same("serde", &|v| bridge::serde_calls(&sval_serde::ToSerialize::new(v)).map(|s| format!("{s:?}")).map_err(|e| e.to_string()))?;
        }
    }
    Ok(())
}

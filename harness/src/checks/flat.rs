//! C18: flattening.
use crate::checks::core::cfg;
use crate::engine::*;
use crate::ensure;
use crate::ev::*;
use crate::val::*;
use sval::tags;

pub static C18: Check = Check {
    id: "C18",
    rule: "a history of 1-5 steps on one parent (map, sequence, record, tuple or record tuple), each an own entry or the flattening of a random value (every shape, under tags/hints/enums, complex map keys, explicit and VALUE_OFFSET indexes, negative and extreme offsets), threading the returned offset; the recorded calls and every returned offset must equal the documented mapping; on a parent stream or value that fails at a random call the flattening must fail and make no further calls; non-trivial = at least 2 entries come out of flattened values",
    quick: 300_000,
    thorough: 8_000_000,
    run: c18,
    assumptions: &["an index at the end of the isize range wraps"],
};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum P {
    Map,
    Seq,
    Rec,
    Tup,
    Rt,
}

pub struct Alloc {
    pub first: isize,
    pub next: isize,
}
impl Alloc {
    fn take(&mut self, inc: Option<&Ix>) -> Ix {
        let ix = match inc {
            None => Ix { v: self.next as i128, tag: Some(tags::VALUE_OFFSET) },
            Some(ix) if ix.tag == Some(tags::VALUE_OFFSET) && isize::try_from(ix.v).is_ok() => {
                Ix { v: (ix.v as isize).wrapping_add(self.first) as i128, tag: Some(tags::VALUE_OFFSET) }
            }
            Some(ix) => ix.clone(),
        };
        self.next = isize::try_from(ix.v).unwrap_or(self.next).wrapping_add(1);
        ix
    }
}

/// how a map key reads as a label
pub fn stringify(v: &V, o: &mut String) {
    match v {
        V::Null => o.push_str("null"),
        V::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
        V::Num(n) => o.push_str(&n.text()),
        V::F32(x) => o.push_str(ryu::Buffer::new().format(*x as f64)),
        V::F64(x) => o.push_str(ryu::Buffer::new().format(*x)),
        V::Text(_, fs) => o.push_str(&text_of(fs)),
        V::Bin(_, fs) => bytes_of(fs).iter().for_each(|b| o.push_str(&b.to_string())),
        V::Seq(_, xs) => xs.iter().for_each(|x| stringify(&x.v, o)),
        V::Map(_, xs) => xs.iter().for_each(|(k, v)| {
            stringify(&k.v, o);
            stringify(&v.v, o)
        }),
        V::Tag(m) => match (&m.label, &m.index) {
            (Some(l), _) => o.push_str(&l.text),
            (None, Some(i)) => o.push_str(&i.v.to_string()),
            _ => o.push_str("null"),
        },
        V::Tagged(_, x) | V::Hinted(_, x) | V::Enum(_, Some(x)) => stringify(&x.v, o),
        V::Enum(_, None) => {}
        V::Rec(_, _, xs) => xs.iter().for_each(|(_, l, x)| {
            o.push_str(&l.text);
            stringify(&x.v, o)
        }),
        V::Tup(_, _, xs) => xs.iter().for_each(|(_, _, x)| stringify(&x.v, o)),
        V::Rt(_, _, xs) => xs.iter().for_each(|(_, l, _, x)| {
            o.push_str(&l.text);
            stringify(&x.v, o)
        }),
    }
}

fn child_events(c: &C, computed: bool) -> Vec<Ev> {
    let c = C { mode: if computed { Mode::Computed } else { c.mode }, v: c.v.clone() };
    // a wrapper so the child's own mode counts
    let e = events(&V::Seq(None, vec![c]));
    e[2..e.len() - 2].to_vec()
}

pub fn entry(p: P, tag: Option<sval::Tag>, key: Option<Vec<Ev>>, l: Lb, ix: Ix, v: Vec<Ev>, o: &mut Vec<Ev>) {
    match p {
        P::Map => {
            o.push(Ev::MapKeyBegin);
            match key {
                Some(k) => o.extend(k),
                None => o.extend([Ev::TextBegin(Some(l.text.len())), Ev::TextFrag(l.text.clone(), l.stat.is_some()), Ev::TextEnd]),
            }
            o.push(Ev::MapKeyEnd);
            o.push(Ev::MapValueBegin);
            o.extend(v);
            o.push(Ev::MapValueEnd);
        }
        P::Seq => {
            o.push(Ev::SeqValueBegin);
            o.extend(v);
            o.push(Ev::SeqValueEnd);
        }
        P::Rec => {
            o.push(Ev::RecValueBegin(tag.clone(), l.clone()));
            o.extend(v);
            o.push(Ev::RecValueEnd(tag, l));
        }
        P::Tup => {
            o.push(Ev::TupValueBegin(tag.clone(), ix.clone()));
            o.extend(v);
            o.push(Ev::TupValueEnd(tag, ix));
        }
        P::Rt => {
            o.push(Ev::RtValueBegin(tag.clone(), l.clone(), ix.clone()));
            o.extend(v);
            o.push(Ev::RtValueEnd(tag, l, ix));
        }
    }
}

/// the documented mapping; returns the number of entries
pub fn flat(v: &V, computed: bool, in_enum: bool, p: P, a: &mut Alloc, o: &mut Vec<Ev>) -> usize {
    let sub = |c: &C| computed || c.mode == Mode::Computed;
    match v {
        V::Hinted(_, x) => flat(&x.v, sub(x), in_enum, p, a, o),
        V::Enum(_, Some(x)) => flat(&x.v, sub(x), true, p, a, o),
        V::Tagged(m, x) if in_enum => {
            let ix = a.take(m.index.as_ref());
            let l = m.label.clone().unwrap_or_else(|| Lb::dynamic(&ix.v.to_string()));
            entry(p, None, None, l, ix, child_events(x, computed), o);
            1
        }
        V::Tagged(_, x) => flat(&x.v, sub(x), in_enum, p, a, o),
        V::Seq(_, xs) => {
            for x in xs {
                let ix = a.take(None);
                entry(p, None, None, Lb::dynamic(&ix.v.to_string()), ix, child_events(x, computed), o);
            }
            xs.len()
        }
        V::Map(_, xs) => {
            for (k, x) in xs {
                let ix = a.take(None);
                let mut l = String::new();
                stringify(&k.v, &mut l);
                entry(p, None, Some(child_events(k, computed)), Lb::dynamic(&l), ix, child_events(x, computed), o);
            }
            xs.len()
        }
        V::Rec(_, _, xs) => {
            for (t, l, x) in xs {
                let ix = a.take(None);
                entry(p, t.clone(), None, l.clone(), ix, child_events(x, computed), o);
            }
            xs.len()
        }
        V::Tup(_, _, xs) => {
            for (t, ix, x) in xs {
                let ix = a.take(Some(ix));
                entry(p, t.clone(), None, Lb::dynamic(&ix.v.to_string()), ix, child_events(x, computed), o);
            }
            xs.len()
        }
        V::Rt(_, _, xs) => {
            for (t, l, ix, x) in xs {
                let ix = a.take(Some(ix));
                entry(p, t.clone(), None, l.clone(), ix, child_events(x, computed), o);
            }
            xs.len()
        }
        _ => 0,
    }
}

fn offsets(s: &mut Src, v: &mut V) {
    let each = s.bool();
    let f = |ix: &mut Ix| {
        if each {
            ix.tag = Some(tags::VALUE_OFFSET)
        }
    };
    match v {
        V::Tup(_, _, xs) => xs.iter_mut().for_each(|x| f(&mut x.1)),
        V::Rt(_, _, xs) => xs.iter_mut().for_each(|x| f(&mut x.2)),
        V::Tagged(m, _) => m.index.iter_mut().for_each(f),
        _ => {}
    }
}

pub fn gen_root(s: &mut Src) -> V {
    let c = cfg(s);
    let left = 1 + s.n(c.nodes);
    let d = c.depth;
    let mut g = Gen { cfg: c, left, s };
    let mut v = match g.s.weighted(&[3, 4, 3, 3, 3, 3, 2]) {
        0 => g.seq(d),
        1 => g.map(d),
        2 => g.record(d),
        3 => g.tuple(d),
        4 => g.rectup(d),
        5 => g.enumeration(d),
        _ => g.any(d),
    };
    offsets(g.s, &mut v);
    if let V::Enum(_, Some(x)) = &mut v {
        offsets(g.s, &mut x.v);
    }
    let n = g.s.weighted(&[6, 2, 1]);
    for _ in 0..n {
        let mode = *g.s.pick(&[Mode::Inline, Mode::Value, Mode::Computed]);
        let b = Box::new(C { mode, v });
        v = match g.s.n(3) {
            0 => V::Tagged(g.meta(), b),
            1 => V::Hinted(TAGS[0].clone(), b),
            _ => V::Enum(g.meta(), Some(b)),
        };
    }
    v
}

pub enum Step {
    Own(C),
    Flat(V),
}
pub struct Hist {
    pub p: P,
    pub start: isize,
    pub steps: Vec<Step>,
}

pub fn run<'a>(h: &'a Hist, s: &mut Rec, offsets: &mut Vec<isize>) -> sval::Result {
    use sval::Stream;
    let mut off = h.start;
    for step in &h.steps {
        match step {
            Step::Own(c) => {
                let l = sval::Label::new("own");
                let ix = sval::Index::new_isize(off).with_tag(&tags::VALUE_OFFSET);
                let s: &mut dyn sval_dynamic::Stream<'a> = s;
                let s = s;
                match h.p {
                    P::Map => {
                        s.map_key_begin()?;
                        s.value("own")?;
                        s.map_key_end()?;
                        s.map_value_begin()?;
                        s.value(c)?;
                        s.map_value_end()?;
                    }
                    P::Seq => {
                        s.seq_value_begin()?;
                        s.value(c)?;
                        s.seq_value_end()?;
                    }
                    P::Rec => {
                        s.record_value_begin(None, &l)?;
                        s.value(c)?;
                        s.record_value_end(None, &l)?;
                    }
                    P::Tup => {
                        s.tuple_value_begin(None, &ix)?;
                        s.value(c)?;
                        s.tuple_value_end(None, &ix)?;
                    }
                    P::Rt => {
                        s.record_tuple_value_begin(None, &l, &ix)?;
                        s.value(c)?;
                        s.record_tuple_value_end(None, &l, &ix)?;
                    }
                }
                off = off.wrapping_add(1);
            }
            Step::Flat(v) => {
                off = match h.p {
                    P::Map => sval_flatten::flatten_to_map(s, v, off)?,
                    P::Seq => {
                        sval_flatten::flatten_to_seq(s, v)?;
                        off
                    }
                    P::Rec => sval_flatten::flatten_to_record(s, v, off)?,
                    P::Tup => sval_flatten::flatten_to_tuple(s, v, off)?,
                    P::Rt => sval_flatten::flatten_to_record_tuple(s, v, off)?,
                };
                offsets.push(off);
            }
        }
    }
    Ok(())
}

fn c18(cx: &mut Ctx) -> R {
    let p = *cx.src.pick(&[P::Map, P::Seq, P::Rec, P::Tup, P::Rt]);
    let start = match cx.src.weighted(&[6, 1, 1]) {
        0 => cx.src.n(6) as isize,
        1 => -(cx.src.n(6) as isize),
        _ => *cx.src.pick(&[isize::MAX, isize::MAX - 1, isize::MIN, isize::MIN + 1]),
    };
    let n = 1 + cx.src.n(4);
    let steps: Vec<Step> = (0..n)
        .map(|_| {
            if cx.src.chance(1, 4) {
                Step::Own(C::inline(V::Num(gen_int(&mut cx.src))))
            } else {
                Step::Flat(gen_root(&mut cx.src))
            }
        })
        .collect();
    let h = Hist { p, start, steps };
    // the model
    let (mut exp, mut offs, mut off, mut entries) = (Vec::new(), Vec::new(), start, 0);
    let mut desc = format!("onto {p:?} from {start}:");
    for st in &h.steps {
        match st {
            Step::Own(c) => {
                let ix = Ix { v: off as i128, tag: Some(tags::VALUE_OFFSET) };
                entry(p, None, None, Lb::stat("own"), ix, events(&c.v), &mut exp);
                off = off.wrapping_add(1);
                desc.push_str(" own");
            }
            Step::Flat(v) => {
                desc.push_str(&format!(" flatten {:?}", events(v)));
                let mut a = Alloc { first: if p == P::Seq { 0 } else { off }, next: if p == P::Seq { 0 } else { off } };
                entries += flat(v, false, false, p, &mut a, &mut exp);
                if p != P::Seq {
                    off = a.next;
                }
                offs.push(off);
                cx.class_if(matches!(v, V::Enum(..)), "enum root");
                cx.class_if(matches!(v, V::Tagged(..)), "tagged root");
                cx.class_if(matches!(v, V::Map(_, xs) if !xs.is_empty()), "map root");
            }
        }
    }
    cx.sample(|| clip(&desc, 400));
    cx.nontrivial_if(entries >= 2);
    let mut r = Rec::new();
    let mut got_offs = Vec::new();
    let res = no_panic(|| run(&h, &mut r, &mut got_offs)).map_err(|e| Fail { msg: format!("{desc}\nflattening panicked: {e}") })?;
    ensure!(res.is_ok(), "{desc}\nflattening failed");
    // synthesised labels may be static or not
    let mut got = norm_frags(&r.evs);
    let exp_n = norm_frags(&exp);
    for (e, g) in exp_n.iter().zip(got.iter_mut()) {
        match (e, g) {
            (Ev::RecValueBegin(_, e), Ev::RecValueBegin(_, g))
            | (Ev::RecValueEnd(_, e), Ev::RecValueEnd(_, g))
            | (Ev::RtValueBegin(_, e, _), Ev::RtValueBegin(_, g, _))
            | (Ev::RtValueEnd(_, e, _), Ev::RtValueEnd(_, g, _))
                if e.stat.is_none() =>
            {
                g.stat = None
            }
            (Ev::TextFrag(_, false), Ev::TextFrag(_, b)) if p == P::Map => *b = false,
            _ => {}
        }
    }
    ensure!(got == exp_n, "{desc}\n{}", diff(&exp_n, &got));
    ensure!(got_offs == offs, "{desc}\nreturned offsets {got_offs:?}, expected {offs:?}");
    // a parent that fails
    if !r.evs.is_empty() && cx.src.chance(1, 3) {
        let k = cx.src.n(r.evs.len());
        let mut f = Rec::failing(k);
        let res = no_panic(|| run(&h, &mut f, &mut Vec::new())).map_err(|e| Fail { msg: format!("{desc}\nflattening onto a stream failing at call {k} panicked: {e}") })?;
        ensure!(res.is_err(), "{desc}\nthe parent stream failed at call {k} but the flattening succeeded");
        ensure!(f.after_fail == 0, "{desc}\nthe parent stream was called {} times after failing at call {k}", f.after_fail);
        ensure!(f.evs[..] == r.evs[..k], "{desc}\nwith a failure at call {k}: {}", diff(&r.evs[..k], &f.evs));
    }
    Ok(())
}

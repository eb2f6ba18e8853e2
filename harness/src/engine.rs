//! Choice-sequence property engine: every random decision is an integer drawn from `Src`,
//! so a failing case is a list of integers that can be shrunk and replayed.
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub struct Src {
    replay: Option<Vec<u64>>,
    pos: usize,
    state: u64,
    pub rec: Vec<u64>,
    /// something very long was already drawn: once per case is enough
    pub huge: bool,
    pub log: Option<std::fs::File>,
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { replay: None, pos: 0, state: seed, rec: Vec::new(), huge: false, log: None }
    }
    pub fn replay(c: Vec<u64>) -> Self {
        Src { replay: Some(c), pos: 0, state: 0, rec: Vec::new(), huge: false, log: None }
    }
    /// A uniform integer in `0..n` (n = 0 means the full u64 range).
    pub fn below(&mut self, n: u64) -> u64 {
        let v = match &self.replay {
            Some(c) => {
                let v = c.get(self.pos).copied().unwrap_or(0);
                if n == 0 { v } else { v.min(n - 1) }
            }
            None => {
                let r = splitmix(&mut self.state);
                if n == 0 { r } else { ((r as u128 * n as u128) >> 64) as u64 }
            }
        };
        self.pos += 1;
        self.rec.push(v);
        if let Some(f) = &mut self.log {
            let _ = f.write_all(format!("{v},").as_bytes());
        }
        v
    }
    pub fn n(&mut self, n: usize) -> usize {
        self.below(n.max(1) as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.n(hi - lo + 1)
    }
    pub fn bits(&mut self) -> u64 {
        self.below(0)
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// true with probability num/den; 0 (the shrink target) is false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.n(xs.len())]
    }
    /// index drawn with the given weights; index 0 is the shrink target
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut r = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if r < *x {
                return i;
            }
            r -= *x;
        }
        0
    }
    /// small length, geometric-ish
    pub fn len(&mut self, max: usize) -> usize {
        let m = match self.weighted(&[6, 3, 1]) {
            0 => 3.min(max),
            1 => 8.min(max),
            _ => max,
        };
        self.n(m + 1)
    }
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub msg: String,
}
pub type R = Result<(), Fail>;
pub fn fail<T>(msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { msg: msg.into() })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return $crate::engine::fail(format!($($a)*)); } };
}

pub struct Ctx {
    pub src: Src,
    pub nontrivial: bool,
    pub want_sample: bool,
    pub sample: Option<String>,
    pub classes: Vec<&'static str>,
    /// index of the case within the run (used only to steer generator size)
    pub case: u64,
}
impl Ctx {
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample && self.sample.is_none() {
            self.sample = Some(f());
        }
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        if c {
            self.nontrivial = true;
        }
    }
    pub fn class(&mut self, c: &'static str) {
        self.classes.push(c);
    }
    pub fn class_if(&mut self, b: bool, c: &'static str) {
        if b {
            self.classes.push(c);
        }
    }
}

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Ctx) -> R,
    pub assumptions: &'static [&'static str],
}

fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

pub fn case_seed(seed: u64, id: &str, i: u64) -> u64 {
    let mut s = seed ^ fnv(id).rotate_left(17) ^ i.wrapping_mul(0xD1342543DE82EF95);
    splitmix(&mut s);
    splitmix(&mut s)
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<panic>".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panic: {msg} at {loc}"));
    }));
}

/// Run `f`, turning a panic into its message.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

pub fn run_one(check: &Check, src: Src, case: u64, want_sample: bool) -> (Ctx, R) {
    let mut cx = Ctx { src, nontrivial: false, want_sample, sample: None, classes: Vec::new(), case };
    let r = match catch_unwind(AssertUnwindSafe(|| (check.run)(&mut cx))) {
        Ok(r) => r,
        Err(_) => fail(LAST_PANIC.with(|p| p.borrow().clone())),
    };
    (cx, r)
}

fn on_big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(STACK).spawn(f).unwrap().join().unwrap()
}
pub const STACK: usize = 64 << 20;

/// Shrink by deleting blocks, zeroing blocks and lowering values, keeping any candidate that still fails.
pub fn shrink(mut cur: Vec<u64>, mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>, max_tries: usize) -> Vec<u64> {
    let mut tries = 0;
    let deadline = Instant::now() + std::time::Duration::from_secs(90);
    let mut attempt = |cand: Vec<u64>, cur: &mut Vec<u64>| -> bool {
        if tries >= max_tries || Instant::now() > deadline {
            return false;
        }
        tries += 1;
        if let Some(rec) = fails(&cand) {
            let better = rec.len() < cur.len() || (rec.len() == cur.len() && rec < *cur);
            if better {
                *cur = rec;
                return true;
            }
        }
        false
    };
    loop {
        let mut progress = false;
        for k in [64usize, 32, 16, 8, 5, 4, 3, 2, 1] {
            let mut i = cur.len();
            while i > 0 {
                i = i.min(cur.len());
                if i < k {
                    break;
                }
                let start = i - k;
                let mut c = cur.clone();
                c.drain(start..i);
                if attempt(c, &mut cur) {
                    progress = true;
                } else if k <= 8 && cur[start..i].iter().any(|x| *x != 0) {
                    let mut c = cur.clone();
                    c[start..i].iter_mut().for_each(|x| *x = 0);
                    if attempt(c, &mut cur) {
                        progress = true;
                    }
                }
                i = if i >= 1 { i - 1 } else { 0 };
            }
        }
        let mut i = 0;
        while i < cur.len() {
            let v = cur[i];
            if v > 0 {
                let mut lo = 0u64;
                let mut hi = v;
                // binary search for a smaller failing value (heuristic: monotone)
                let mut guard = 0;
                while lo < hi && guard < 12 {
                    guard += 1;
                    let mid = lo + (hi - lo) / 2;
                    let mut c = cur.clone();
                    if i >= c.len() {
                        break;
                    }
                    c[i] = mid;
                    if attempt(c, &mut cur) {
                        progress = true;
                        hi = mid;
                    } else {
                        lo = mid + 1;
                    }
                }
            }
            i += 1;
        }
        if !progress {
            break;
        }
    }
    cur
}

pub fn jstr(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

pub struct Known {
    /// (property, exact shrunk-choice list) of recorded findings
    pub entries: Vec<(String, String, String)>,
}
impl Known {
    pub fn load(path: &Path) -> Known {
        let mut entries = Vec::new();
        if let Ok(s) = std::fs::read_to_string(path) {
            for l in s.lines() {
                if let Ok(v) = serde_json::from_str::<serde_json::Value>(l) {
                    if v["status"] == "known" {
                        entries.push((
                            v["property"].as_str().unwrap_or("").to_string(),
                            v["signature"].as_str().unwrap_or("").to_string(),
                            v["what"].as_str().unwrap_or("").to_string(),
                        ));
                    }
                }
            }
        }
        Known { entries }
    }
    pub fn lookup(&self, prop: &str, msg: &str) -> Option<usize> {
        self.entries.iter().position(|(p, s, _)| p == prop && !s.is_empty() && msg == s)
    }
}

#[derive(Default)]
struct Agg {
    evals: u64,
    nontrivial: HashSet<u64>,
    classes: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
    known: BTreeMap<usize, u64>,
    failures: Vec<(u64, Vec<u64>, String)>,
    choice_total: u64,
}

fn hash_choices(c: &[u64]) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ c.len() as u64;
    for x in c {
        h = (h ^ *x).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(23);
    }
    h
}

pub struct Opts {
    pub tier: String,
    pub seed: u64,
    pub cases: u64,
    pub outdir: PathBuf,
}

/// Worker process: runs all cases on all cores. Exit 0 ok, 10 violation (details in `result` file).
pub fn worker(check: &'static Check, o: &Opts, inflight: &Path, result: &Path, known: &Known) -> i32 {
    install_panic_hook();
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let agg = Mutex::new(Agg::default());
    let table = std::fs::OpenOptions::new().create(true).truncate(true).read(true).write(true).open(inflight).unwrap();
    let t0 = Instant::now();
    // on a slow machine a quick run reports what it covered in this time
    let budget = if o.tier == "quick" { 400 } else { 5 * 3600 };
    std::thread::scope(|s| {
        for t in 0..threads {
            let (next, stop, agg, table, o) = (&next, &stop, &agg, &table, &o);
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(s, move || {
                    use std::os::unix::fs::FileExt;
                    let mut a = Agg::default();
                    const CHUNK: u64 = 16;
                    'outer: loop {
                        let base = next.fetch_add(CHUNK, Ordering::Relaxed);
                        if base >= o.cases || t0.elapsed().as_secs() >= budget {
                            break;
                        }
                        for i in base..(base + CHUNK).min(o.cases) {
                            if stop.load(Ordering::Relaxed) {
                                break 'outer;
                            }
                            let _ = table.write_all_at(&(i + 1).to_le_bytes(), t as u64 * 8);
                            let want = i % (o.cases / 12).max(1) == 0;
                            let (cx, r) = run_one(check, Src::random(case_seed(o.seed, check.id, i)), i, want);
                            a.evals += 1;
                            a.choice_total += cx.src.rec.len() as u64;
                            for c in &cx.classes {
                                *a.classes.entry(c).or_insert(0) += 1;
                            }
                            if cx.nontrivial {
                                a.nontrivial.insert(hash_choices(&cx.src.rec));
                            }
                            if let (Some(s), true) = (cx.sample, cx.nontrivial) {
                                a.samples.push(s);
                            }
                            if let Err(f) = r {
                                if let Some(k) = known.lookup(check.id, &f.msg) {
                                    *a.known.entry(k).or_insert(0) += 1;
                                } else {
                                    a.failures.push((i, cx.src.rec, f.msg));
                                    stop.store(true, Ordering::Relaxed);
                                    break 'outer;
                                }
                            }
                        }
                    }
                    let _ = table.write_all_at(&0u64.to_le_bytes(), t as u64 * 8);
                    let mut g = agg.lock().unwrap();
                    g.evals += a.evals;
                    g.choice_total += a.choice_total;
                    for (k, v) in a.classes {
                        *g.classes.entry(k).or_insert(0) += v;
                    }
                    for (k, v) in a.known {
                        *g.known.entry(k).or_insert(0) += v;
                    }
                    g.nontrivial.extend(a.nontrivial);
                    g.samples.extend(a.samples);
                    g.failures.extend(a.failures);
                })
                .unwrap();
        }
    });
    let mut g = agg.into_inner().unwrap();
    let wall = t0.elapsed().as_secs_f64();
    g.samples.truncate(12);
    let save = |g: &Agg, viol: &str| {
        let known_txt: Vec<String> = g.known.iter().map(|(k, n)| format!("[{},{}]", k, n)).collect();
        let js = format!(
            "{{\"evals\":{},\"nontrivial\":{},\"classes\":{{{}}},\"samples\":[{}],\"known\":[{}],\"wall\":{},\"violation\":{},\"choices\":{}}}",
            g.evals,
            g.nontrivial.len(),
            g.classes.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","),
            g.samples.iter().map(|s| jstr(&clip(s, 600))).collect::<Vec<_>>().join(","),
            known_txt.join(","),
            wall,
            jstr(viol),
            g.choice_total
        );
        let tmp = result.with_extension("tmp");
        std::fs::write(&tmp, js).unwrap();
        std::fs::rename(&tmp, result).unwrap();
    };
    if g.failures.is_empty() {
        save(&g, "");
        return 0;
    }
    g.failures.sort_by_key(|f| f.0);
    let (i, choices, msg) = g.failures[0].clone();
    // in case shrinking does not survive one of its candidates
    let unshrunk = write_replay(check, o, i, &choices, &msg, "", false, false);
    save(&g, &unshrunk);
    let (first, first_msg) = (choices.clone(), msg.clone());
    let (choices, msg) = on_big_stack(move || {
        let shrunk = shrink(
            choices.clone(),
            |c| {
                let (cx, r) = run_one(check, Src::replay(c.to_vec()), i, false);
                if r.is_err() { Some(cx.src.rec) } else { None }
            },
            6000,
        );
        let (_, r) = run_one(check, Src::replay(shrunk.clone()), i, false);
        match r {
            Err(f) => (shrunk, f.msg),
            Ok(()) => (choices, msg),
        }
    });
    let viol = write_replay(check, o, i, &choices, &msg, &first_msg, true, true);
    if choices != first {
        let _ = std::fs::remove_file(&unshrunk);
    }
    save(&g, &viol);
    10
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let mut t: String = s.chars().take(n).collect();
        t.push('…');
        t
    }
}

fn write_replay(check: &'static Check, o: &Opts, case: u64, choices: &[u64], msg: &str, first: &str, describe: bool, print: bool) -> String {
    let dir = o.outdir.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{}-{:016x}.json", check.id, hash_choices(choices)));
    let sample = if describe {
        let c = choices.to_vec();
        on_big_stack(move || run_one(check, Src::replay(c), case, true).0.sample.unwrap_or_default())
    } else {
        String::new()
    };
    let txt = format!(
        "{{\"property\":{},\"seed\":{},\"case\":{},\"choices\":[{}],\n\"message\":{},\n\"unshrunk_message\":{},\n\"input\":{}}}\n",
        jstr(check.id),
        o.seed,
        case,
        choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","),
        jstr(msg),
        jstr(&clip(first, 4000)),
        jstr(&sample)
    );
    std::fs::write(&p, txt).unwrap();
    if print {
        eprintln!("{}: {}\n  input: {}", check.id, clip(msg, 3000), clip(&sample, 3000));
    }
    p.display().to_string()
}

/// Parent: spawn the worker, survive its death, write evidence, print the verdict.
pub fn run(check: &'static Check, o: &Opts, known_path: &Path) -> i32 {
    let t0 = Instant::now();
    let scratch = o.outdir.join(format!("scratch-{}-{}", check.id, std::process::id()));
    std::fs::create_dir_all(&scratch).unwrap();
    let inflight = scratch.join("inflight");
    let result = scratch.join("result");
    let exe = std::env::current_exe().unwrap();
    let known = Known::load(known_path);
    let limit = if o.tier == "quick" { 700 } else { 6 * 3600 };
    let mut child = std::process::Command::new(&exe)
        .args(["worker", check.id, &o.tier, &o.seed.to_string(), &o.cases.to_string()])
        .arg(&o.outdir)
        .arg(&inflight)
        .arg(&result)
        .arg(known_path)
        .spawn()
        .unwrap();
    // A case takes milliseconds; one that does not end is found by its place in the in-flight table.
    let mut seen: Vec<(u64, Instant)> = Vec::new();
    let mut stuck = None;
    let mut shrinking = None;
    let status = loop {
        if let Some(s) = child.try_wait().unwrap() {
            break s;
        }
        if result.exists() && shrinking.get_or_insert_with(Instant::now).elapsed().as_secs() > 150 {
            let _ = child.kill();
            break child.wait().unwrap();
        }
        let table = std::fs::read(&inflight).unwrap_or_default();
        for (n, c) in table.chunks_exact(8).enumerate() {
            let i = u64::from_le_bytes(c.try_into().unwrap());
            if seen.len() <= n {
                seen.push((i, Instant::now()));
            } else if seen[n].0 != i {
                seen[n] = (i, Instant::now());
            } else if i != 0 && stuck.is_none() && seen[n].1.elapsed().as_secs() >= HANG {
                stuck = Some(i - 1);
            }
        }
        if let Some(i) = stuck {
            // confirm in a process of its own, so that a busy machine is not taken for a hang
            match dies(&exe, check.id, None, Some((o.seed, i)), &scratch) {
                Some(_) => {
                    let _ = child.kill();
                    break child.wait().unwrap();
                }
                None => {
                    seen.iter_mut().for_each(|s| s.1 = Instant::now());
                    stuck = None;
                }
            }
        }
        if t0.elapsed().as_secs() > limit {
            let _ = child.kill();
            let _ = child.wait();
            eprintln!("{}: time limit reached, inconclusive", check.id);
            let _ = std::fs::remove_dir_all(&scratch);
            return 2;
        }
        std::thread::sleep(std::time::Duration::from_millis(20));
    };
    let code = match status.code() {
        // a result without a clean exit: the worker did not survive shrinking
        _ if result.exists() => {
            let txt = std::fs::read_to_string(&result).unwrap();
            let v: serde_json::Value = serde_json::from_str(&txt).unwrap();
            let viol = v["violation"].as_str().unwrap_or("").to_string();
            for k in v["known"].as_array().into_iter().flatten() {
                let e = &known.entries[k[0].as_u64().unwrap() as usize];
                println!("KNOWN-FINDING: property={} {} ({} cases)", check.id, e.2, k[1]);
            }
            write_evidence(check, o, &v, t0.elapsed().as_secs_f64(), !viol.is_empty());
            if viol.is_empty() {
                println!("{}: held on {} cases ({} distinct non-trivial)", check.id, v["evals"], v["nontrivial"]);
                0
            } else {
                println!("VIOLATION property={} replay={}", check.id, viol);
                1
            }
        }
        other => {
            // The worker died: find which in-flight case kills a process of its own.
            eprintln!("{}: worker ended with {:?} ({})", check.id, other, status);
            let mut buf = Vec::new();
            let mut f = std::fs::File::open(&inflight).unwrap();
            f.seek(SeekFrom::Start(0)).unwrap();
            f.read_to_end(&mut buf).unwrap();
            let mut found = None;
            for c in buf.chunks(8) {
                let i = u64::from_le_bytes(c.try_into().unwrap());
                if i == 0 {
                    continue;
                }
                let i = i - 1;
                if let Some(choices) = dies(&exe, check.id, None, Some((o.seed, i)), &scratch) {
                    found = Some((i, choices));
                    break;
                }
            }
            match found {
                Some((i, choices)) => {
                    let small = shrink(
                        choices,
                        |c| dies(&exe, check.id, Some(c), None, &scratch).map(|_| c.to_vec()),
                        250,
                    );
                    let p = write_replay(check, o, i, &small, &format!("the process was killed or never ended: {status}"), "", false, true);
                    let v = serde_json::json!({"evals": i + 1, "nontrivial": 1, "classes": {}, "samples": [], "wall": 0.0, "choices": 0});
                    write_evidence(check, o, &v, t0.elapsed().as_secs_f64(), true);
                    println!("VIOLATION property={} replay={}", check.id, p);
                    1
                }
                None => 2,
            }
        }
    };
    let _ = std::fs::remove_dir_all(&scratch);
    code
}

/// Seconds after which a single case counts as one that never ends.
const HANG: u64 = 40;

/// Runs one case in a process of its own; Some(choices) if that process is killed by a signal or has to be.
fn dies(exe: &Path, id: &str, choices: Option<&[u64]>, case: Option<(u64, u64)>, scratch: &Path) -> Option<Vec<u64>> {
    use std::os::unix::process::ExitStatusExt;
    let out = scratch.join("choices");
    let _ = std::fs::remove_file(&out);
    let mut c = std::process::Command::new(exe);
    c.arg("one").arg(id).arg(&out);
    match (choices, case) {
        (Some(ch), _) => {
            let inp = scratch.join("in");
            std::fs::write(&inp, ch.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",")).unwrap();
            c.arg("choices").arg(&inp);
        }
        (None, Some((seed, i))) => {
            c.arg("seed").arg(seed.to_string()).arg(i.to_string());
        }
        _ => unreachable!(),
    }
    c.stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
    let mut child = c.spawn().ok()?;
    let t0 = Instant::now();
    let st = loop {
        if let Some(st) = child.try_wait().ok()? {
            break st;
        }
        if t0.elapsed().as_secs() >= HANG {
            let _ = child.kill();
            break child.wait().ok()?;
        }
        std::thread::sleep(std::time::Duration::from_millis(2));
    };
    if st.signal().is_some() {
        if let Some(ch) = choices {
            return Some(ch.to_vec());
        }
        let txt = std::fs::read_to_string(&out).unwrap_or_default();
        let v: Vec<u64> = txt.split(',').filter_map(|x| x.trim().parse().ok()).collect();
        return Some(v);
    }
    None
}

/// Single-case process; draws are logged to `out` as they are made so that they survive an abort.
pub fn one(check: &'static Check, out: &Path, mut src: Src, case: u64) -> i32 {
    install_panic_hook();
    src.log = std::fs::File::create(out).ok();
    on_big_stack(move || if run_one(check, src, case, false).1.is_err() { 1 } else { 0 })
}

/// Runs cases from, from+step, … below to on this thread; says which one is running.
pub fn inproc(check: &'static Check, seed: u64, from: u64, step: u64, to: u64) -> i32 {
    install_panic_hook();
    let (mut i, mut n, mut non) = (from, 0, 0);
    while i < to {
        eprintln!("case {i}");
        let (cx, r) = run_one(check, Src::random(case_seed(seed, check.id, i)), i, false);
        if let Err(f) = r {
            eprintln!("failed: {}", f.msg);
            return 1;
        }
        n += 1;
        non += cx.nontrivial as u64;
        i += step;
    }
    println!("ran {n} nontrivial {non}");
    0
}

pub fn replay(check: &'static Check, path: &Path) -> i32 {
    install_panic_hook();
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let c: Vec<u64> = v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
    let case = v["case"].as_u64().unwrap_or(0);
    let (sample, r) = on_big_stack(move || {
        let (cx, r) = run_one(check, Src::replay(c), case, true);
        (cx.sample, r)
    });
    println!("input: {}", sample.unwrap_or_default());
    match r {
        Ok(()) => {
            println!("{}: replay holds", check.id);
            0
        }
        Err(f) => {
            println!("{}: {}", check.id, f.msg);
            println!("VIOLATION property={} replay={}", check.id, path.display());
            1
        }
    }
}

fn write_evidence(check: &'static Check, o: &Opts, v: &serde_json::Value, wall: f64, violated: bool) {
    let mut classes = v["classes"].clone();
    if classes.is_null() {
        classes = serde_json::json!({});
    }
    let ev = serde_json::json!({
        "property": check.id,
        "tier": o.tier,
        "seed": o.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": v["evals"],
            "distinct_nontrivial": v["nontrivial"],
            "rule": check.rule,
            "samples": v["samples"],
            "classes": classes,
            "choices_drawn": v["choices"],
        },
        "assumptions": check.assumptions,
        "wall_s": wall,
        "violations": if violated { 1 } else { 0 },
    });
    let dir = o.outdir.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", check.id)), serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();
}

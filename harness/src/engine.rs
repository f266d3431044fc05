//! Runs a property over many generated cases on all cores, counts what was generated, shrinks a
//! failing case over its choice sequence and writes it to a replay file.

use crate::choice::{mix, Src};
use crate::dict::Dict;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

// ------------------------------------------------------------------------------- work measure

pub struct Counter;

pub const MAXT: usize = 64;
#[repr(align(128))]
struct Slot(AtomicU64, AtomicI64);
static SLOTS: [Slot; MAXT] = [const { Slot(AtomicU64::new(0), AtomicI64::new(0)) }; MAXT];
static NEXT: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    static MINE: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}

fn mine() -> usize {
    MINE.try_with(|m| m.get()).unwrap_or(usize::MAX)
}
pub fn register() -> usize {
    let i = NEXT.fetch_add(1, SeqCst) % MAXT;
    MINE.with(|m| m.set(i));
    i
}
/// Allocations made by this thread so far: a deterministic measure of work.
pub fn work() -> u64 {
    let i = mine();
    if i < MAXT {
        SLOTS[i].0.load(Relaxed)
    } else {
        0
    }
}

unsafe impl GlobalAlloc for Counter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let i = mine();
        if i < MAXT {
            let s = &SLOTS[i];
            s.0.store(s.0.load(Relaxed) + 1, Relaxed);
            s.1.fetch_add(l.size() as i64, Relaxed);
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let i = mine();
        if i < MAXT {
            SLOTS[i].1.fetch_sub(l.size() as i64, Relaxed);
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let i = mine();
        if i < MAXT {
            let s = &SLOTS[i];
            s.0.store(s.0.load(Relaxed) + 1, Relaxed);
            s.1.fetch_add(n as i64 - l.size() as i64, Relaxed);
        }
        System.realloc(p, l, n)
    }
}

// ---------------------------------------------------------------------------------- the parser

thread_local! {
    static SOURCE: RefCell<String> = const { RefCell::new(String::new()) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let t = i.to_string();
        PANIC.with(|p| *p.borrow_mut() = t);
    }));
}

/// What the parser made of a text.
pub enum Out {
    Ast { rest: String, dump: String },
    Rejected(String),
}

impl Out {
    pub fn accepted(&self) -> bool {
        match self {
            Out::Ast { .. } => true,
            _ => false,
        }
    }
    pub fn show(&self) -> String {
        match self {
            Out::Ast { rest, dump } if rest.is_empty() => dump.clone(),
            Out::Ast { rest, dump } => format!("{} with text left over: {:?}", dump, rest),
            Out::Rejected(e) => format!("rejected: {}", cut(e, 200)),
        }
    }
    pub fn same(&self, o: &Out) -> bool {
        match (self, o) {
            (Out::Ast { rest: a, dump: b }, Out::Ast { rest: c, dump: d }) => a == c && b == d,
            (Out::Rejected(a), Out::Rejected(b)) => a == b,
            _ => false,
        }
    }
}

pub fn cut(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        s.chars().take(n).collect::<String>() + "…"
    }
}

pub fn parse(text: &str) -> Out {
    SOURCE.with(|s| {
        let mut s = s.borrow_mut();
        s.clear();
        s.push_str(text);
    });
    if let Some(p) = TRACE.get() {
        let _ = std::fs::write(p, text);
    }
    match elm_parser::verif::parse(text) {
        Ok((rest, dump)) => Out::Ast { rest, dump },
        Err(e) => Out::Rejected(e),
    }
}

static TRACE: std::sync::OnceLock<String> = std::sync::OnceLock::new();
pub fn trace_to(path: &str) {
    let _ = TRACE.set(path.to_string());
}

// ---------------------------------------------------------------------------------- properties

#[derive(Clone, Debug)]
pub struct Fail {
    pub what: String,
    pub source: String,
    pub expected: String,
    pub actual: String,
}

pub fn fail<T>(what: &str, source: &str, expected: &str, actual: &str) -> Result<T, Fail> {
    Err(Fail { what: what.to_string(), source: source.to_string(), expected: expected.to_string(), actual: actual.to_string() })
}

pub struct Ctx<'a> {
    pub src: &'a mut Src,
    pub d: &'a Dict,
    pub text: String, // what the case consisted of; counted as distinct by its hash
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    pub thorough: bool,
    pub bins: &'a str,
    pub scratch: String,
}

pub type Check = fn(&mut Ctx) -> Result<(), Fail>;

pub struct Prop {
    pub id: &'static str,
    pub check: Check,
    pub quick: u64,
    pub threads: usize,
    /// runs the programs, so that there is nothing of the parser's doing to see from here
    pub programs: bool,
    pub rule: &'static str,
    /// labels every run must have reached; a run that does not is an error of the check
    pub required: &'static [&'static str],
}

pub struct Opts {
    pub seed: u64,
    pub thorough: bool,
    pub scale: f64,
    pub out: String, // /verif
    pub bins: String,
    pub scratch: String,
}

fn hash(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.as_bytes() {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h ^ (h >> 29)
}

pub fn idhash(id: &str) -> u64 {
    hash(id)
}

#[derive(Default)]
struct Tally {
    evaluations: u64,
    nontrivial: u64,
    labels: BTreeMap<&'static str, u64>,
    sizes: [u64; 24],
    samples: Vec<(u64, String)>,
    draws: u64,
    guided: u64,
    corpus: u64,
    edges: u64,
    distinct: HashSet<u64>,
}

struct Inflight {
    start: Instant,
    case: u64,
    work0: u64,
    live0: i64,
    tid: i64,
    cpu0: f64,
    choices: Vec<u64>,
}

/// The choices a case that does not end was made from.
pub static STUCK: Mutex<Vec<u64>> = Mutex::new(vec![]);

fn thread_cpu(tid: i64) -> f64 {
    let p = format!("/proc/self/task/{}/stat", tid);
    if let Ok(t) = std::fs::read_to_string(p) {
        if let Some(r) = t.rfind(')') {
            let f: Vec<&str> = t[r + 1..].split_whitespace().collect();
            if f.len() > 12 {
                let u: f64 = f[11].parse().unwrap_or(0.0);
                let s: f64 = f[12].parse().unwrap_or(0.0);
                return (u + s) / 100.0;
            }
        }
    }
    0.0
}

extern "C" {
    fn syscall(n: i64, ...) -> i64;
}
fn gettid() -> i64 {
    unsafe { syscall(186) }
}

/// Edited texts given to the parser and the reference model.
pub static EDITED: AtomicU64 = AtomicU64::new(0);

pub enum Verdict {
    Pass,
    Violation(u64, Vec<u64>, Fail),
    Error(String),
}

/// One case.  A panic of the code under test is a failure like any other.
pub fn one(p: &Prop, src: &mut Src, d: &Dict, o: &Opts, tag: &str, out: &mut Option<(String, bool, Vec<&'static str>)>) -> Result<(), Fail> {
    let mut cx = Ctx {
        src,
        d,
        text: String::new(),
        nontrivial: false,
        labels: vec![],
        thorough: o.thorough,
        bins: &o.bins,
        scratch: format!("{}/{}", o.scratch, tag),
    };
    let r = catch_unwind(AssertUnwindSafe(|| (p.check)(&mut cx)));
    match r {
        Ok(r) => {
            *out = Some((std::mem::take(&mut cx.text), cx.nontrivial, std::mem::take(&mut cx.labels)));
            r
        }
        Err(_) => {
            let source = SOURCE.with(|s| s.borrow().clone());
            let msg = PANIC.with(|p| p.borrow().clone());
            if msg.contains("harness/src") || msg.contains("at src/") {
                // a fault of the harness, not of the parser
                eprintln!("HARNESS PANIC {}", msg);
                std::process::exit(4);
            }
            fail("the parser panicked", &source, "an AST or an error", &msg)
        }
    }
}

pub fn case_seed(seed: u64, id: &str, case: u64) -> u64 {
    mix(mix(seed, idhash(id)), case)
}

const MAX_WORK: u64 = 400_000_000; // allocations in one case
const MAX_LIVE: i64 = 3_000_000_000; // bytes alive in one case
const MAX_CPU: f64 = 120.0; // seconds of processor time in one case

/// Where the state file has the choices of the case a thread is at.
pub const STATE_CHOICES: usize = 4096;
pub const STATE_STEP: usize = 1 << 17;

/// A case's choices changed a little: an entry of the corpus, and parts of others.
fn vary(corpus: &[Vec<u64>], r: &mut Src) -> Vec<u64> {
    let n = corpus.len();
    let from = |r: &mut Src| -> usize {
        // the newest half of the time; of two, mostly the shorter
        let one = |r: &mut Src| if r.chance(500) && n > 32 { n - 32 + r.below(32) } else { r.below(n) };
        let (a, b) = (one(r), one(r));
        if (corpus[a].len() <= corpus[b].len()) == r.chance(750) {
            a
        } else {
            b
        }
    };
    let mut c = corpus[from(r)].clone();
    for _ in 0..1 + r.below(4) {
        if c.is_empty() {
            break;
        }
        let at = r.below(c.len());
        let len = (1usize << r.below(6)).min(c.len() - at);
        match r.weighted(&[30, 20, 10, 12, 12, 8, 8]) {
            0 => c[at] = r.draw(1 << 20),
            1 => {
                let by = 1 + r.draw(8);
                c[at] = if r.chance(500) { c[at].wrapping_add(by) } else { c[at].wrapping_sub(by) };
            }
            2 => {
                c.drain(at..at + len);
            }
            3 => {
                let block: Vec<u64> = c[at..at + len].to_vec();
                let to = r.below(c.len() + 1);
                for _ in 0..1 + r.below(3) {
                    c.splice(to..to, block.iter().cloned());
                }
            }
            4 => {
                let o = &corpus[from(r)];
                if !o.is_empty() {
                    let oat = r.below(o.len());
                    let olen = (1 + r.below(64)).min(o.len() - oat);
                    if r.chance(500) {
                        c.splice(at..at, o[oat..oat + olen].iter().cloned());
                    } else {
                        c.truncate(at);
                        c.extend_from_slice(&o[oat..]);
                    }
                }
            }
            5 => c.truncate(at),
            _ => {
                for x in &mut c[at..at + len] {
                    *x = r.draw(1 << 20);
                }
            }
        }
    }
    c.truncate(10_000);
    c
}

pub fn run(p: &'static Prop, d: &Arc<Dict>, o: &Arc<Opts>, state_file: Option<&str>) -> (Verdict, serde::Json) {
    let t0 = Instant::now();
    let total = ((p.quick as f64) * o.scale * if o.thorough { 20.0 } else { 1.0 }).max(1.0) as u64;
    let part: f64 = std::env::var("VERIF_GUIDED").ok().and_then(|s| s.parse().ok()).unwrap_or(0.25);
    let guided = if crate::cov::edges() == 0 || p.programs { 0 } else { (total as f64 * part) as u64 / p.threads as u64 };
    let total = if std::env::var("VERIF_RANDOM").is_ok() { 1 } else { total };
    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let found: Arc<Mutex<Option<(u64, Vec<u64>, Fail)>>> = Arc::new(Mutex::new(None));
    let lowest = Arc::new(AtomicU64::new(u64::MAX));
    let tallies: Arc<Mutex<Vec<Tally>>> = Arc::new(Mutex::new(vec![]));
    let inflight: Arc<Vec<Mutex<Option<Inflight>>>> = Arc::new((0..MAXT).map(|_| Mutex::new(None)).collect());
    let state: Option<Arc<std::fs::File>> = state_file.map(|f| Arc::new(std::fs::OpenOptions::new().create(true).write(true).open(f).unwrap()));
    let live = Arc::new(AtomicUsize::new(p.threads));
    for th in 0..p.threads {
        let (next, stop, found, lowest, tallies, inflight, d, o, live, state) =
            (next.clone(), stop.clone(), found.clone(), lowest.clone(), tallies.clone(), inflight.clone(), d.clone(), o.clone(), live.clone(), state.clone());
        std::thread::Builder::new()
            .stack_size(512 << 20)
            .spawn(move || {
                let me = register();
                let tid = gettid();
                let mut t = Tally::default();
                let chunk = if total > 20_000 { 64 } else { 1 };
                let mut exec = |case: u64, src: &mut Src, choices: &[u64]| -> bool {
                    if stop.load(Relaxed) && case > lowest.load(Relaxed) {
                        return false;
                    }
                    if let Some(f) = &state {
                        use std::os::unix::fs::FileExt;
                        let _ = f.write_at(&(case + 1).to_le_bytes(), th as u64 * 8);
                    }
                    *inflight[me].lock().unwrap() = Some(Inflight {
                        start: Instant::now(),
                        case,
                        work0: SLOTS[me].0.load(Relaxed),
                        live0: SLOTS[me].1.load(Relaxed),
                        tid,
                        cpu0: if t.evaluations % 256 == 0 { thread_cpu(tid) } else { -1.0 },
                        choices: choices.to_vec(),
                    });
                    let mut info = None;
                    let r = one(p, src, &d, &o, &format!("w{}", th), &mut info);
                    *inflight[me].lock().unwrap() = None;
                    t.evaluations += 1;
                    t.draws += src.rec.len() as u64;
                    if case >= total {
                        t.guided += 1;
                    }
                    if let Some((text, nt, labels)) = info {
                        let b = (64 - (text.len() as u64).leading_zeros()) as usize;
                        t.sizes[b.min(23)] += 1;
                        for l in labels {
                            *t.labels.entry(l).or_insert(0) += 1;
                        }
                        if nt {
                            t.nontrivial += 1;
                            let h = hash(&text);
                            if t.distinct.len() < 6_000_000 {
                                t.distinct.insert(h);
                            }
                            // a few samples, spread over the run
                            let key = mix(h, 77);
                            if t.samples.len() < 3 || key < t.samples.last().unwrap().0 {
                                t.samples.push((key, cut(&text, 700)));
                                t.samples.sort();
                                t.samples.truncate(3);
                            }
                        }
                    }
                    if let Err(f) = r {
                        let mut g = found.lock().unwrap();
                        if g.as_ref().map(|x| case < x.0).unwrap_or(true) {
                            *g = Some((case, src.rec.clone(), f));
                            lowest.store(case, Relaxed);
                        }
                        stop.store(true, Relaxed);
                    }
                    true
                };
                loop {
                    let from = next.fetch_add(chunk, Relaxed);
                    if from >= total {
                        break;
                    }
                    for case in from..(from + chunk).min(total) {
                        exec(case, &mut Src::random(case_seed(o.seed, p.id, case)), &[]);
                    }
                }
                // Guided by what the parser did: cases that made it do something new are kept and
                // varied. Each thread has cases of its own, so that a run can be repeated.
                let mut seen = vec![0u8; crate::cov::SIZE];
                let mut corpus: Vec<Vec<u64>> = vec![];
                let mut r = Src::random(case_seed(o.seed ^ 0x5EED, p.id, th as u64));
                for i in 0..guided {
                    let case = total + th as u64 * guided + i;
                    r.rec.clear();
                    let choices = if i < 64 || corpus.is_empty() || i % 16 == 0 { vec![] } else { vary(&corpus, &mut r) };
                    let mut src = Src::guided(choices.clone(), case_seed(o.seed, p.id, case));
                    if let Some(f) = &state {
                        use std::os::unix::fs::FileExt;
                        let mut b: Vec<u8> = Vec::with_capacity(choices.len() * 8 + 8);
                        b.extend_from_slice(&(choices.len() as u64).to_le_bytes());
                        for c in &choices {
                            b.extend_from_slice(&c.to_le_bytes());
                        }
                        let _ = f.write_at(&b, (STATE_CHOICES + th * STATE_STEP) as u64);
                    }
                    crate::cov::reset();
                    let before = work();
                    if !exec(case, &mut src, &choices) {
                        break;
                    }
                    // what takes long is not worth varying
                    if crate::cov::merge(&mut seen) && src.rec.len() < 1_500 && work() - before < 60_000 {
                        corpus.push(src.rec.clone());
                    }
                }
                t.corpus = corpus.len() as u64;
                t.edges = seen[..crate::cov::EDGES].iter().filter(|b| **b != 0).count() as u64;
                if let Some(f) = &state {
                    use std::os::unix::fs::FileExt;
                    let _ = f.write_at(&0u64.to_le_bytes(), th as u64 * 8);
                }
                tallies.lock().unwrap().push(t);
                live.fetch_sub(1, SeqCst);
            })
            .expect("thread");
    }
    let mut verdict = Verdict::Pass;
    let mut polls = 0u64;
    'wait: while live.load(SeqCst) > 0 {
        std::thread::sleep(Duration::from_millis(5));
        polls += 1;
        for (i, f) in inflight.iter().enumerate() {
            let mut g = f.lock().unwrap();
            if let Some(f) = g.as_mut() {
                if f.start.elapsed() < Duration::from_millis(300) {
                    continue;
                }
                let work = SLOTS[i].0.load(Relaxed).saturating_sub(f.work0);
                let bytes = SLOTS[i].1.load(Relaxed) - f.live0;
                if f.cpu0 < 0.0 {
                    f.cpu0 = thread_cpu(f.tid);
                }
                let cpu = if polls % 100 == 0 { thread_cpu(f.tid) - f.cpu0 } else { 0.0 };
                if work > MAX_WORK || bytes > MAX_LIVE || cpu > MAX_CPU {
                    *STUCK.lock().unwrap() = f.choices.clone();
                    let what = format!("parsing does not end: {} allocations, {} bytes, {:.0} s of processor time in one case", work, bytes, cpu);
                    verdict = Verdict::Violation(
                        f.case,
                        vec![],
                        Fail { what, source: String::new(), expected: "a result".to_string(), actual: "no result".to_string() },
                    );
                    break 'wait;
                }
            }
        }
        if t0.elapsed() > Duration::from_secs(if o.thorough { 6 * 3600 } else { 840 }) {
            verdict = Verdict::Error("out of time before all cases were run".to_string());
            break;
        }
    }
    if let Verdict::Pass = verdict {
        let g = found.lock().unwrap().take();
        if let Some((c, rec, f)) = g {
            verdict = Verdict::Violation(c, rec, f);
        }
    }
    // what was covered
    let ts = tallies.lock().unwrap();
    let mut all = Tally::default();
    for t in ts.iter() {
        all.evaluations += t.evaluations;
        all.nontrivial += t.nontrivial;
        all.draws += t.draws;
        all.guided += t.guided;
        all.corpus += t.corpus;
        all.edges = all.edges.max(t.edges);
        for (k, v) in &t.labels {
            *all.labels.entry(k).or_insert(0) += v;
        }
        for i in 0..24 {
            all.sizes[i] += t.sizes[i];
        }
        all.samples.extend(t.samples.iter().cloned());
        all.distinct.extend(t.distinct.iter());
    }
    all.samples.sort();
    all.samples.truncate(6);
    use serde::Json as J;
    let missing: Vec<&str> = p.required.iter().filter(|l| !all.labels.contains_key(**l)).cloned().collect();
    if let Verdict::Pass = verdict {
        if !missing.is_empty() && o.scale >= 0.2 {
            verdict = Verdict::Error(format!("the generators did not reach: {}", missing.join(", ")));
        }
    }
    let cov = J::obj(vec![
        ("evaluations", J::Num(all.evaluations as f64)),
        ("repeated_nontrivial", J::Num(all.nontrivial as f64 - all.distinct.len() as f64)),
        ("distinct_nontrivial", J::Num(all.distinct.len() as f64)),
        ("rule", J::Str(p.rule.to_string())),
        ("samples", J::Arr(all.samples.iter().map(|s| J::Str(s.1.clone())).collect())),
        ("reached", J::Obj(all.labels.iter().map(|(k, v)| (k.to_string(), J::Num(*v as f64))).collect())),
        (
            "case_bytes_log2",
            J::Obj(all.sizes.iter().enumerate().filter(|x| *x.1 > 0).map(|(i, n)| (format!("<2^{}", i), J::Num(*n as f64))).collect()),
        ),
        ("edited_texts", J::Num(EDITED.load(Relaxed) as f64)),
        ("random_choices", J::Num(all.draws as f64)),
        ("threads", J::Num(p.threads as f64)),
        (
            "guided",
            J::obj(vec![
                ("cases", J::Num(all.guided as f64)),
                ("cases_kept", J::Num(all.corpus as f64)),
                ("parser_edges_reached", J::Num(all.edges as f64)),
                ("parser_edges", J::Num(crate::cov::edges() as f64)),
            ]),
        ),
    ]);
    let viol = match verdict {
        Verdict::Violation(..) => 1.0,
        _ => 0.0,
    };
    let ev = J::obj(vec![
        ("property", J::Str(p.id.to_string())),
        ("tier", J::Str(if o.thorough { "thorough" } else { "quick" }.to_string())),
        ("seed", J::Num(o.seed as f64)),
        ("level", J::Str("exploration".to_string())),
        ("coverage", cov),
        ("wall_s", J::Num((t0.elapsed().as_secs_f64() * 100.0).round() / 100.0)),
        ("violations", J::Num(viol)),
    ]);
    (verdict, ev)
}

// ------------------------------------------------------------------------------------ shrinking

pub fn shrink(p: &'static Prop, d: &Arc<Dict>, o: &Arc<Opts>, start: Vec<u64>, first: Fail) -> (Vec<u64>, Fail, usize) {
    let best = Arc::new(Mutex::new((start, first, 0usize)));
    let done = Arc::new(AtomicBool::new(false));
    {
        let (best, done, d, o) = (best.clone(), done.clone(), d.clone(), o.clone());
        std::thread::Builder::new()
            .stack_size(512 << 20)
            .spawn(move || {
                register();
                let t0 = Instant::now();
                let mut evals = 0usize;
                let try_ = |c: &[u64], evals: &mut usize| -> bool {
                    *evals += 1;
                    let mut src = Src::replay(c);
                    let mut info = None;
                    match one(p, &mut src, &d, &o, "shrink", &mut info) {
                        Ok(()) => false,
                        Err(f) => {
                            let mut rec = src.rec.clone();
                            while rec.last() == Some(&0) {
                                rec.pop();
                            }
                            let mut g = best.lock().unwrap();
                            let key = |v: &Vec<u64>| (v.len(), v.iter().map(|x| *x as u128).sum::<u128>());
                            if key(&rec) < key(&g.0) {
                                *g = (rec, f, *evals);
                                true
                            } else {
                                false
                            }
                        }
                    }
                };
                let out_of_time = |e: usize| e > 30_000 || t0.elapsed() > Duration::from_secs(25);
                loop {
                    let mut progress = false;
                    // remove spans
                    let mut k = best.lock().unwrap().0.len() / 2;
                    while k >= 1 {
                        let mut i = 0;
                        loop {
                            let cur = best.lock().unwrap().0.clone();
                            if i >= cur.len() || out_of_time(evals) {
                                break;
                            }
                            let mut c = cur.clone();
                            let e = (i + k).min(c.len());
                            c.drain(i..e);
                            if try_(&c, &mut evals) {
                                progress = true;
                            } else {
                                i += k.max(1);
                            }
                        }
                        k /= 2;
                    }
                    // zero spans
                    for k in [16usize, 4, 1].iter() {
                        let mut i = 0;
                        loop {
                            let cur = best.lock().unwrap().0.clone();
                            if i >= cur.len() || out_of_time(evals) {
                                break;
                            }
                            let mut c = cur.clone();
                            let e = (i + k).min(c.len());
                            if c[i..e].iter().any(|v| *v != 0) {
                                for v in c[i..e].iter_mut() {
                                    *v = 0;
                                }
                                if try_(&c, &mut evals) {
                                    progress = true;
                                }
                            }
                            i += k;
                        }
                    }
                    // make single choices smaller
                    let mut i = 0;
                    loop {
                        let cur = best.lock().unwrap().0.clone();
                        if i >= cur.len() || out_of_time(evals) {
                            break;
                        }
                        let v = cur[i];
                        let mut tries = vec![];
                        if v > 1 {
                            tries.push(v / 2);
                            tries.push(v - 1);
                        }
                        for t in tries {
                            let mut c = cur.clone();
                            c[i] = t;
                            if try_(&c, &mut evals) {
                                progress = true;
                                break;
                            }
                        }
                        i += 1;
                    }
                    if !progress || out_of_time(evals) {
                        break;
                    }
                }
                best.lock().unwrap().2 = evals;
                done.store(true, SeqCst);
            })
            .expect("thread");
    }
    let t0 = Instant::now();
    while !done.load(SeqCst) && t0.elapsed() < Duration::from_secs(40) {
        std::thread::sleep(Duration::from_millis(10));
    }
    let g = best.lock().unwrap();
    g.clone()
}

pub mod serde {
    //! Just enough JSON.
    #[derive(Clone, Debug)]
    pub enum Json {
        Num(f64),
        Str(String),
        Arr(Vec<Json>),
        Obj(Vec<(String, Json)>),
    }
    impl Json {
        pub fn obj(v: Vec<(&str, Json)>) -> Json {
            Json::Obj(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
        }
        pub fn show(&self) -> String {
            let mut s = String::new();
            self.write(&mut s, 0);
            s.push('\n');
            s
        }
        fn write(&self, o: &mut String, ind: usize) {
            match self {
                Json::Num(n) => o.push_str(&format!("{}", n)),
                Json::Str(s) => {
                    o.push('"');
                    for c in s.chars() {
                        match c {
                            '"' => o.push_str("\\\""),
                            '\\' => o.push_str("\\\\"),
                            '\n' => o.push_str("\\n"),
                            c if (c as u32) < 32 || (0x7f..0xa0).contains(&(c as u32)) => o.push_str(&format!("\\u{:04x}", c as u32)),
                            c => o.push(c),
                        }
                    }
                    o.push('"');
                }
                Json::Arr(a) => {
                    o.push('[');
                    for (i, v) in a.iter().enumerate() {
                        if i > 0 {
                            o.push(',');
                        }
                        if a.len() < 40 {
                            o.push('\n');
                            o.push_str(&" ".repeat(ind + 1));
                        }
                        v.write(o, ind + 1);
                    }
                    o.push(']');
                }
                Json::Obj(a) => {
                    o.push('{');
                    for (i, (k, v)) in a.iter().enumerate() {
                        if i > 0 {
                            o.push(',');
                        }
                        o.push('\n');
                        o.push_str(&" ".repeat(ind + 1));
                        Json::Str(k.clone()).write(o, 0);
                        o.push_str(": ");
                        v.write(o, ind + 1);
                    }
                    o.push('}');
                }
            }
        }
        pub fn read(t: &str) -> Option<Json> {
            let c: Vec<char> = t.chars().collect();
            let mut i = 0;
            let v = val(&c, &mut i)?;
            Some(v)
        }
        pub fn get(&self, k: &str) -> Option<&Json> {
            match self {
                Json::Obj(o) => o.iter().find(|x| x.0 == k).map(|x| &x.1),
                _ => None,
            }
        }
        pub fn str(&self) -> &str {
            match self {
                Json::Str(s) => s,
                _ => "",
            }
        }
        pub fn num(&self) -> f64 {
            match self {
                Json::Num(s) => *s,
                _ => 0.0,
            }
        }
    }
    fn ws(c: &[char], i: &mut usize) {
        while *i < c.len() && c[*i].is_whitespace() {
            *i += 1;
        }
    }
    fn val(c: &[char], i: &mut usize) -> Option<Json> {
        ws(c, i);
        match *c.get(*i)? {
            '"' => {
                *i += 1;
                let mut s = String::new();
                loop {
                    let x = *c.get(*i)?;
                    *i += 1;
                    match x {
                        '"' => return Some(Json::Str(s)),
                        '\\' => {
                            let e = *c.get(*i)?;
                            *i += 1;
                            match e {
                                'n' => s.push('\n'),
                                't' => s.push('\t'),
                                'r' => s.push('\r'),
                                'u' => {
                                    let h: String = c.get(*i..*i + 4)?.iter().collect();
                                    *i += 4;
                                    s.push(std::char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                                }
                                e => s.push(e),
                            }
                        }
                        x => s.push(x),
                    }
                }
            }
            '[' => {
                *i += 1;
                let mut a = vec![];
                loop {
                    ws(c, i);
                    match *c.get(*i)? {
                        ']' => {
                            *i += 1;
                            return Some(Json::Arr(a));
                        }
                        ',' => *i += 1,
                        _ => a.push(val(c, i)?),
                    }
                }
            }
            '{' => {
                *i += 1;
                let mut a = vec![];
                loop {
                    ws(c, i);
                    match *c.get(*i)? {
                        '}' => {
                            *i += 1;
                            return Some(Json::Obj(a));
                        }
                        ',' => *i += 1,
                        _ => {
                            let k = val(c, i)?.str().to_string();
                            ws(c, i);
                            *i += 1;
                            a.push((k, val(c, i)?));
                        }
                    }
                }
            }
            _ => {
                let st = *i;
                while *i < c.len() && "+-.0123456789eE".contains(c[*i]) {
                    *i += 1;
                }
                if *i == st {
                    return None;
                }
                c[st..*i].iter().collect::<String>().parse().ok().map(Json::Num)
            }
        }
    }
}

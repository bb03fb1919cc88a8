//! Engine T: the blocking entry points with real threads, a real runtime, time limits and report files.
//! A scheduler owns which evaluation ends next and with what; it waits until everything that is due has
//! arrived, so that the completion order is the explored one.
use async_trait::async_trait;
use cambrian::error::Error;
use cambrian::meta::{make_obj_func, AlgoConfigBuilder, AsyncObjectiveFunction};
use cambrian::result::FinalReport;
use cambrian::spec_util;
use cambrian::sync_launch::{self, DetailedReportingFileInfo};
use cambrian::termination::TerminationCriterion;
use serde_json::Value as J;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};
use vharness::common::{init_panic_hook, Args, Fragment};
use vharness::explore::{explore, hash64, Ctx, Limits};
use vharness::refspec::{self, RN};
use vharness::runner::SPEC1;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Out {
    Val(f64),
    Rej,
    Fail,
    NonFinite(f64),
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode {
    /// `launch` with a blocking function
    Blocking,
    /// `launch_with_async_obj_func` on the multi-threaded runtime
    AsyncMulti,
    /// the same on the single-threaded one, as the command line tool does
    AsyncSingle,
}

#[derive(Clone, Debug)]
struct Scn {
    name: String,
    mode: Mode,
    yaml: String,
    c: usize,
    n: Option<usize>,
    target: Option<f64>,
    s: usize,
    outs: Vec<Out>,
    /// time limit
    limit: Option<Duration>,
    /// completions to release before waiting for the time limit
    prefix: usize,
    files: bool,
    guess: Option<J>,
    /// nothing is explored: completions in this order with these outcomes
    script: Option<(Order, Vec<Out>)>,
    /// run twice and compare
    twice: bool,
    /// nothing but a large budget
    large: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Order {
    Fifo,
    Lifo,
}

impl Scn {
    fn new(name: &str, mode: Mode) -> Scn {
        Scn {
            name: format!("{name} {mode:?}"),
            mode,
            yaml: SPEC1.into(),
            c: 1,
            n: Some(2),
            target: None,
            s: 1,
            outs: vec![Out::Val(1.0), Out::Val(2.0), Out::Rej],
            limit: None,
            prefix: 0,
            files: true,
            guess: None,
            script: None,
            twice: false,
            large: false,
        }
    }
}

struct Slot {
    value: J,
    seed: u64,
    id: usize,
    out: Option<Out>,
    waker: Option<futures::channel::oneshot::Sender<()>>,
    ended: bool,
    told: bool,
    dropped: bool,
    /// position in the order of completions
    rank: usize,
}

#[derive(Default)]
struct St {
    slots: Vec<Slot>,
    result: Option<Result<FinalReport, Error>>,
    finished: bool,
    panicked: bool,
    max_live: usize,
    ends: usize,
    viols: Vec<(String, String)>,
    told_at_start: Vec<usize>,
}

impl St {
    fn live(&self) -> Vec<usize> {
        (0..self.slots.len()).filter(|i| !self.slots[*i].ended && !self.slots[*i].dropped).collect()
    }
    fn waiting(&self) -> Vec<usize> {
        (0..self.slots.len())
            .filter(|i| !self.slots[*i].ended && !self.slots[*i].dropped && self.slots[*i].out.is_none())
            .collect()
    }
}

struct World {
    m: Mutex<St>,
    cv: Condvar,
    c: usize,
    honour: bool,
}

impl World {
    fn enter(&self, value: J, seed: u64, id: usize, told_at_start: bool, tx: Option<futures::channel::oneshot::Sender<()>>) -> usize {
        let mut g = self.m.lock().unwrap();
        let i = g.slots.len();
        if id != usize::MAX {
            for k in g.live() {
                if g.slots[k].id == id {
                    g.viols.push(("C05".into(), format!("individual {id} is being evaluated twice at the same time")));
                }
            }
        }
        if told_at_start {
            g.told_at_start.push(i);
        }
        g.slots.push(Slot {
            value,
            seed,
            id,
            out: None,
            waker: tx,
            ended: false,
            told: false,
            dropped: false,
            rank: usize::MAX,
        });
        let n = g.live().len();
        g.max_live = g.max_live.max(n);
        if n > self.c {
            g.viols.push(("C05".into(), format!("{n} evaluations in progress, num_concurrent is {}", self.c)));
        }
        drop(g);
        self.cv.notify_all();
        i
    }
    fn end(&self, i: usize) -> Option<Out> {
        let mut g = self.m.lock().unwrap();
        let r = g.ends;
        g.ends += 1;
        g.slots[i].ended = true;
        g.slots[i].rank = r;
        let o = g.slots[i].out;
        drop(g);
        self.cv.notify_all();
        o
    }
    fn wait(&self, d: Duration, mut f: impl FnMut(&mut St) -> bool) -> bool {
        let t0 = Instant::now();
        let mut g = self.m.lock().unwrap();
        loop {
            if f(&mut g) {
                return true;
            }
            let e = t0.elapsed();
            if e >= d {
                return false;
            }
            g = self.cv.wait_timeout(g, (d - e).min(Duration::from_millis(200))).unwrap().0;
        }
    }
    fn release(&self, i: usize, o: Out) {
        let mut g = self.m.lock().unwrap();
        g.slots[i].out = Some(o);
        if let Some(w) = g.slots[i].waker.take() {
            w.send(()).ok();
        }
        drop(g);
        self.cv.notify_all();
    }
}

struct Guard<'a>(&'a World, usize, bool);
impl Drop for Guard<'_> {
    fn drop(&mut self) {
        if !self.2 {
            if let Ok(mut g) = self.0.m.lock() {
                if !g.slots[self.1].ended {
                    g.slots[self.1].dropped = true;
                }
            }
            self.0.cv.notify_all();
        }
    }
}

struct AObj(Arc<World>);
#[async_trait]
impl AsyncObjectiveFunction for AObj {
    async fn evaluate(
        &self,
        value: J,
        mut rx: async_broadcast::Receiver<()>,
        seed: u64,
        id: usize,
    ) -> Result<Option<f64>, Error> {
        let (tx, done) = futures::channel::oneshot::channel::<()>();
        let told0 = rx.clone().try_recv().is_ok();
        let i = self.0.enter(value, seed, id, told0, Some(tx));
        let mut guard = Guard(&self.0, i, false);
        tokio::pin!(done);
        let mut told = false;
        let mut gone = false;
        loop {
            tokio::select! {
                biased;
                _ = &mut done => break,
                r = rx.recv(), if !told && !gone => {
                    if r.is_ok() {
                        told = true;
                        self.0.m.lock().unwrap().slots[i].told = true;
                        self.0.cv.notify_all();
                        if self.0.honour {
                            self.0.m.lock().unwrap().slots[i].out = Some(Out::Rej);
                            break;
                        }
                    } else {
                        gone = true;
                    }
                }
            }
        }
        let o = self.0.end(i);
        guard.2 = true;
        match o {
            Some(Out::Val(v)) | Some(Out::NonFinite(v)) => Ok(Some(v)),
            Some(Out::Rej) | None => Ok(None),
            Some(Out::Fail) => Err(Error::Io(std::io::Error::new(
                std::io::ErrorKind::Other,
                format!("failure of evaluation {i}"),
            ))),
        }
    }
}

/// Evaluations that end as soon as they start.
struct Instant0(Arc<(AtomicUsize, AtomicUsize, AtomicUsize)>);

impl Instant0 {
    fn step(&self) -> Option<f64> {
        let k = self.0 .0.fetch_add(1, Ordering::SeqCst);
        if k % 7 == 3 {
            self.0 .2.fetch_add(1, Ordering::SeqCst);
            None
        } else {
            self.0 .1.fetch_add(1, Ordering::SeqCst);
            Some(1000.0 - (k % 101) as f64)
        }
    }
}

#[async_trait]
impl AsyncObjectiveFunction for Instant0 {
    async fn evaluate(&self, _: J, _: async_broadcast::Receiver<()>, _: u64, _: usize) -> Result<Option<f64>, Error> {
        Ok(self.step())
    }
}

type Log = Arc<Mutex<Vec<(usize, u64, String, Option<u64>)>>>;

/// The same, ever better, with a log.
struct Logged {
    log: Log,
    ids: bool,
}

impl Logged {
    fn step(&self, value: J, seed: u64, id: usize) -> Option<f64> {
        let mut l = self.log.lock().unwrap();
        let k = l.len();
        let v = (k % 97 != 50).then_some(3e7 - k as f64 * 1.0625);
        l.push((id, seed, value.to_string(), v.map(f64::to_bits)));
        v
    }
}

#[async_trait]
impl AsyncObjectiveFunction for Logged {
    async fn evaluate(&self, value: J, _: async_broadcast::Receiver<()>, seed: u64, id: usize) -> Result<Option<f64>, Error> {
        Ok(self.step(value, seed, id))
    }
}

/// Long reports, record by record; the last accepted evaluation is the best one.
fn run_large_files(scn: &Scn, ctx: &Rc<RefCell<Ctx>>) -> Outcome {
    let n = scn.n.expect("budget");
    let dir = std::env::current_dir().unwrap().join(format!("r{}", RUN_NO.fetch_add(1, Ordering::SeqCst)));
    std::fs::create_dir_all(&dir).expect("scratch");
    let fi = DetailedReportingFileInfo {
        detailed_report_file_path: dir.join("detailed_report.csv"),
        best_seen_file_path: dir.join("best_seen.json"),
    };
    let spec = spec_util::from_yaml_str(&scn.yaml).expect("spec");
    let cfg = AlgoConfigBuilder::new().num_concurrent(scn.c).individual_sample_size(scn.s).build().expect("configuration");
    let crit = vec![TerminationCriterion::NumObjFuncEval(n)];
    let log: Log = Default::default();
    let mode = scn.mode;
    let f = Logged { log: log.clone(), ids: mode != Mode::Blocking };
    let ids = f.ids;
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match mode {
        Mode::Blocking => sync_launch::launch(spec, make_obj_func(move |v: J| f.step(v, 0, 0)), cfg, crit, None, true, Some(&fi)),
        m => sync_launch::launch_with_async_obj_func(spec, f, cfg, crit, None, m == Mode::AsyncMulti, Some(&fi)),
    }));
    let mut want = log.lock().unwrap().clone();
    let acc = want.iter().filter(|r| r.3.is_some()).count();
    let mut viols: Vec<(String, String)> = Vec::new();
    let mut viol = |m: String| viols.push(("C14".into(), m));
    match &res {
        Err(_) => viol("the run panics".into()),
        Ok(Err(e)) => viol(format!("the run ends with {e}")),
        Ok(Ok(r)) => {
            if r.num_obj_func_eval_completed != acc || r.num_obj_func_eval_rejected != want.len() - acc {
                viol(format!(
                    "reported are {} completed and {} rejected, there were {acc} and {}",
                    r.num_obj_func_eval_completed,
                    r.num_obj_func_eval_rejected,
                    want.len() - acc
                ));
            }
            let shown = r.to_string();
            for k in [acc, want.len() - acc] {
                if !shown.split(|c: char| !c.is_ascii_digit()).any(|t| t == k.to_string()) {
                    viol(format!("the report does not show the count {k}: {shown:?}"));
                }
            }
            let least = want.iter().filter(|r| r.3.is_some()).last().expect("one accepted").clone();
            if scn.s == 1 {
                if r.best_seen.obj_func_val.to_bits() != least.3.unwrap() {
                    viol(format!("the least of {n} results was {}, the report says {}", f64::from_bits(least.3.unwrap()), r.best_seen.obj_func_val));
                }
                let got = std::fs::read_to_string(dir.join("best_seen.json")).unwrap_or_default();
                let (a, b): (Option<J>, Option<J>) = (serde_json::from_str(&got).ok(), serde_json::from_str(&least.2).ok());
                if a != b || a.is_none() {
                    viol(format!("the best of {n} evaluations had the parameters {}, the best-seen file holds {got:?}", least.2));
                }
            }
        }
    }
    let csv = std::fs::read_to_string(dir.join("detailed_report.csv")).unwrap_or_default();
    let mut lines = csv.lines();
    let head: Vec<&str> = lines.next().unwrap_or("").split(';').collect();
    let cols: Vec<usize> = ["individualId", "seed", "inputVal", "objFuncVal"].iter().filter_map(|n| head.iter().position(|h| h == n)).collect();
    let mut got = Vec::new();
    let mut seeds = std::collections::HashSet::new();
    for l in lines {
        let f: Vec<&str> = l.split(';').collect();
        if cols.len() != 4 || f.len() != head.len() {
            viol(format!("the detailed report has a broken record: {l:?}"));
            break;
        }
        let (Ok(id), Ok(seed)) = (f[cols[0]].parse::<usize>(), f[cols[1]].parse::<u64>()) else {
            viol(format!("the detailed report has a broken record: {l:?}"));
            break;
        };
        if !seeds.insert(seed) {
            viol(format!("two records have the seed {seed}"));
        }
        let val = f[cols[3]].parse::<f64>().ok().map(f64::to_bits);
        got.push(if ids { (id, seed, f[cols[2]].to_string(), val) } else { (0, 0, f[cols[2]].to_string(), val) });
    }
    want.sort();
    got.sort();
    if want != got {
        let at = want.iter().zip(&got).find(|(a, b)| a != b);
        viol(format!("{} evaluations, {} records; first difference {at:?}", want.len(), got.len()));
    }
    let _ = std::fs::remove_dir_all(&dir);
    let mut c = ctx.borrow_mut();
    c.steps += n as u64;
    c.states.push(hash64(&(&scn.name, n)));
    c.outcome = Some(format!("{}: {} evaluated, {} records", scn.name, want.len(), got.len()));
    Outcome { viols, trace: String::new() }
}

fn long_reports(th: bool) -> Vec<Scn> {
    let mut v = Vec::new();
    let mut ns = vec![255usize, 256, 257, 512, 1000, 1001, 1024, 1025, 2048, 4096, 4097, 5000, 8192, 10_000, 16_385, 32_768, 65_536, 65_537];
    if th {
        ns.extend([2047, 4095, 8191, 8193, 10_001, 16_384, 20_000, 32_767, 50_000, 100_000, 131_073, 300_000]);
    }
    for &n in &ns {
        for m in MODES {
            if m != Mode::AsyncSingle && n > 10_000 && !th {
                continue;
            }
            for (c, ss) in [(1usize, 1usize), (4, 2)] {
                if m == Mode::Blocking && (c > 1 || n > 70_000) || !th && ss == 2 && n % 2 == 1 {
                    continue;
                }
                let mut s = Scn::new(&format!("report of {n} c={c} s={ss}"), m);
                s.n = Some(n);
                s.c = c;
                s.s = ss;
                s.large = true;
                v.push(s);
            }
        }
    }
    v
}

/// Budgets beyond the ranges of narrow counters, through the public entry points.
fn run_large(scn: &Scn, ctx: &Rc<RefCell<Ctx>>) -> Outcome {
    let n = scn.n.expect("budget");
    let spec = spec_util::from_yaml_str("type: bool\ninit: false\n").expect("spec");
    let cfg = AlgoConfigBuilder::new().num_concurrent(scn.c).individual_sample_size(scn.s).build().expect("configuration");
    let crit = vec![TerminationCriterion::NumObjFuncEval(n)];
    let cnt = Arc::new((AtomicUsize::new(0), AtomicUsize::new(0), AtomicUsize::new(0)));
    let f = Instant0(cnt.clone());
    let mode = scn.mode;
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || match mode {
        Mode::Blocking => sync_launch::launch(spec, make_obj_func(move |_: J| f.step()), cfg, crit, None, true, None),
        m => sync_launch::launch_with_async_obj_func(spec, f, cfg, crit, None, m == Mode::AsyncMulti, None),
    }));
    let (started, acc, rej) = (cnt.0.load(Ordering::SeqCst), cnt.1.load(Ordering::SeqCst), cnt.2.load(Ordering::SeqCst));
    let mut viols: Vec<(String, String)> = Vec::new();
    match &res {
        Err(_) => viols.push(("*".into(), "the run panics".into())),
        Ok(Err(e)) => viols.push(("C03".into(), format!("the run ends with {e}"))),
        Ok(Ok(r)) => {
            if r.num_obj_func_eval_completed != acc || r.num_obj_func_eval_rejected != rej {
                for p in ["C03", "C14"] {
                    viols.push((
                        p.into(),
                        format!("reported are {} completed and {} rejected, there were {acc} and {rej}", r.num_obj_func_eval_completed, r.num_obj_func_eval_rejected),
                    ));
                }
            }
        }
    }
    if started != n {
        viols.push(("C03".into(), format!("{started} evaluations were started, the budget is {n}")));
    }
    let mut c = ctx.borrow_mut();
    c.steps += started as u64;
    c.states.push(hash64(&(&scn.name, started)));
    c.outcome = Some(format!("{}: {started} started, {acc} accepted, {rej} rejected", scn.name));
    Outcome { viols, trace: String::new() }
}

fn large(th: bool) -> Vec<Scn> {
    let mut v = Vec::new();
    let top: &[usize] = if th { &[32768, 65535, 65536, 65537, 70_000, 131_073, 262_145, 1_000_003] } else { &[4097, 32769, 65535, 65536, 65537, 70_001] };
    for m in MODES {
        for &n in top {
            for (c, ss) in [(1, 1), (3, 2)] {
                if c != 1 && m == Mode::Blocking || !th && c == 1 && m == Mode::AsyncMulti {
                    continue;
                }
                let mut s = Scn::new(&format!("budget {n} c={c} s={ss}"), m);
                s.n = Some(n);
                s.c = c;
                s.s = ss;
                s.large = true;
                v.push(s);
            }
        }
    }
    v
}

static RUN_NO: AtomicUsize = AtomicUsize::new(0);
/// Long enough for a very busy machine; only waited for when something is wrong.
const PATIENCE: Duration = Duration::from_secs(40);
const GRACE: Duration = Duration::from_millis(1500);

struct Outcome {
    viols: Vec<(String, String)>,
    trace: String,
}

fn same_bits(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits()
}

fn run(scn: &Scn, ctx: &Rc<RefCell<Ctx>>) -> Outcome {
    if scn.large {
        return if scn.name.starts_with("report") { run_large_files(scn, ctx) } else { run_large(scn, ctx) };
    }
    let no = RUN_NO.fetch_add(1, Ordering::SeqCst);
    let dir = std::env::current_dir().unwrap().join(format!("r{no}"));
    std::fs::create_dir_all(&dir).expect("scratch");
    let fi = DetailedReportingFileInfo {
        detailed_report_file_path: dir.join("detailed_report.csv"),
        best_seen_file_path: dir.join("best_seen.json"),
    };
    let spec = spec_util::from_yaml_str(&scn.yaml).expect("spec");
    let rn = refspec::parse_str(&scn.yaml).expect("spec");
    let cfg = AlgoConfigBuilder::new()
        .individual_sample_size(scn.s)
        .num_concurrent(scn.c)
        .build()
        .expect("configuration");
    let mut crit = Vec::new();
    if let Some(n) = scn.n {
        crit.push(TerminationCriterion::NumObjFuncEval(n));
    }
    if let Some(t) = scn.target {
        crit.push(TerminationCriterion::TargetObjFuncVal(t));
    }
    if let Some(l) = scn.limit {
        crit.push(TerminationCriterion::TerminateAfter(l));
    }
    let w = Arc::new(World {
        m: Mutex::new(St::default()),
        cv: Condvar::new(),
        c: scn.c,
        honour: scn.limit.is_none() && scn.target.is_some(),
    });
    let started = Instant::now();
    let th = {
        let w = w.clone();
        let (mode, files, guess) = (scn.mode, scn.files, scn.guess.clone());
        std::thread::spawn(move || {
            let w2 = w.clone();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let fi = if files { Some(&fi) } else { None };
                match mode {
                    Mode::Blocking => {
                        let w3 = w2.clone();
                        sync_launch::launch(
                            spec,
                            make_obj_func(move |v: J| {
                                let i = w3.enter(v, 0, usize::MAX, false, None);
                                w3.wait(Duration::from_secs(120), |s| s.slots[i].out.is_some());
                                match w3.end(i) {
                                    Some(Out::Val(v)) | Some(Out::NonFinite(v)) => Some(v),
                                    _ => None,
                                }
                            }),
                            cfg,
                            crit,
                            guess,
                            true,
                            fi,
                        )
                    }
                    Mode::AsyncMulti => sync_launch::launch_with_async_obj_func(spec, AObj(w2), cfg, crit, guess, true, fi),
                    Mode::AsyncSingle => sync_launch::launch_with_async_obj_func(spec, AObj(w2), cfg, crit, guess, false, fi),
                }
            }));
            let mut g = match w.m.lock() {
                Ok(g) => g,
                Err(p) => p.into_inner(),
            };
            match r {
                Ok(r) => g.result = Some(r),
                Err(_) => g.panicked = true,
            }
            g.finished = true;
            drop(g);
            w.cv.notify_all();
        })
    };
    let mut viols: Vec<(String, String)> = Vec::new();
    macro_rules! viol {
        ($p:expr, $($a:tt)*) => { viols.push(($p.to_string(), format!($($a)*))) };
    }

    // ---- the scheduler
    let mut order: Vec<(usize, Out)> = Vec::new();
    let mut failed: Option<usize> = None;
    let mut hit = false;
    let mut told_phase = false;
    let mut starts_at_told = 0;
    let mut joined = true;
    let mut per_id: BTreeMap<usize, Vec<f64>> = BTreeMap::new();
    loop {
        // what is due?
        let completed = order.len();
        let stopping = failed.is_some() || hit || told_phase;
        let due = if stopping {
            0
        } else {
            scn.n.map_or(scn.c, |n| scn.c.min(n - completed.min(n)))
        };
        if !stopping && due == 0 {
            break;
        }
        if !stopping {
            let ok = w.wait(PATIENCE, |s| s.waiting().len() >= due || s.finished || s.slots.iter().any(|x| x.told));
            let g = w.m.lock().unwrap();
            if !ok {
                let k = g.waiting().len();
                drop(g);
                viol!("C05", "{k} evaluations in progress after {completed} have ended, {due} are due");
                break;
            }
            if g.finished {
                break;
            }
            let told = g.slots.iter().any(|x| x.told);
            drop(g);
            if scn.limit.is_some() && (told || completed >= scn.prefix) {
                // wait until the limit has had its effect
                if scn.mode == Mode::Blocking {
                    let l = scn.limit.unwrap() + GRACE;
                    let e = started.elapsed();
                    if e < l {
                        std::thread::sleep(l - e);
                    }
                } else {
                    let ok = w.wait(PATIENCE, |s| s.finished || s.live().iter().all(|i| s.slots[*i].told));
                    if !ok {
                        viol!("C04", "the time limit has passed but in-flight evaluations are not told to abort");
                        break;
                    }
                }
                told_phase = true;
                starts_at_told = w.m.lock().unwrap().slots.len();
                continue;
            }
        }
        if stopping {
            // what is left may end in any order; honouring evaluations end by themselves
            let left = {
                let g = w.m.lock().unwrap();
                if g.finished {
                    break;
                }
                g.waiting()
            };
            if left.is_empty() {
                break;
            }
            if hit && scn.mode != Mode::Blocking {
                // must not depend on them
                break;
            }
            if failed.is_some() && scn.mode != Mode::Blocking {
                let ok = w.wait(PATIENCE, |s| s.finished || left.iter().all(|i| s.slots[*i].told || s.slots[*i].ended));
                if !ok {
                    viol!("C06", "an evaluation has failed but in-flight evaluations are not told to abort");
                    break;
                }
                let g = w.m.lock().unwrap();
                if g.finished {
                    break;
                }
            }
        }
        let (i, o) = {
            let g = w.m.lock().unwrap();
            let cand = g.waiting();
            if cand.is_empty() {
                break;
            }
            match &scn.script {
                Some((ord, outs)) => (
                    match ord {
                        Order::Fifo => cand[0],
                        Order::Lifo => cand[cand.len() - 1],
                    },
                    outs[completed % outs.len()],
                ),
                None => {
                    // threads arrive in any order: the choice is by what they were given
                    let mut cand = cand;
                    if scn.mode == Mode::Blocking {
                        cand.sort_by_key(|i| g.slots[*i].value.to_string());
                    }
                    let k = ctx.borrow_mut().choose((cand.len() * scn.outs.len()) as u32) as usize;
                    (cand[k / scn.outs.len()], scn.outs[k % scn.outs.len()])
                }
            }
        };
        let before = w.m.lock().unwrap().slots.len();
        w.release(i, o);
        order.push((i, o));
        let ok = w.wait(PATIENCE, |s| s.slots[i].ended || s.slots[i].dropped || s.finished);
        if !ok {
            viol!("*", "an evaluation that is ready is not taken notice of");
            break;
        }
        ctx.borrow_mut().steps += 1;
        let g = w.m.lock().unwrap();
        if told_phase {
            continue;
        }
        match o {
            Out::Val(v) => {
                let id = if scn.mode == Mode::Blocking { usize::MAX - 1 - i } else { g.slots[i].id };
                let l = per_id.entry(id).or_default();
                l.push(v);
                let mean = l.iter().sum::<f64>() / l.len() as f64;
                if l.len() == scn.s && failed.is_none() && scn.target.map_or(false, |t| mean <= t) {
                    hit = true;
                }
            }
            Out::Fail | Out::NonFinite(_) if failed.is_none() && !hit => failed = Some(i),
            _ => (),
        }
        if hit || failed.is_some() {
            drop(g);
            // whatever started in between was due before
            let _ = before;
        }
    }
    // ---- the end
    let blocked_ok = scn.mode == Mode::Blocking;
    if !w.wait(if viols.is_empty() { PATIENCE } else { Duration::from_millis(100) }, |s| {
        if blocked_ok && !s.finished {
            // stragglers: released so that the runtime can be shut down; judged below
            for i in s.waiting() {
                s.slots[i].out = Some(Out::Rej);
            }
        }
        s.finished
    }) && viols.is_empty()
    {
        let p = if failed.is_some() {
            "C06"
        } else if hit || told_phase {
            "C04"
        } else {
            "C03"
        };
        viol!(p, "the run does not end");
        joined = false;
    } else if !viols.is_empty() {
        joined = false;
    }
    if joined {
        th.join().ok();
    } else {
        // let whatever is left go away
        let mut g = w.m.lock().unwrap();
        let l = g.waiting();
        for i in l {
            g.slots[i].out = Some(Out::Rej);
            if let Some(t) = g.slots[i].waker.take() {
                t.send(()).ok();
            }
        }
        drop(g);
        w.cv.notify_all();
    }
    let g = w.m.lock().unwrap();
    viols.extend(g.viols.iter().cloned());
    let mut trace = String::new();
    if joined {
        judge(scn, &rn, &g, &order, failed, hit, told_phase, starts_at_told, &dir, &mut viols, &mut trace);
    }
    let shown = format!("{}: {} => {}", scn.name, order.iter().map(|(i, o)| format!("#{i} {o:?}")).collect::<Vec<_>>().join(", "), trace.lines().last().unwrap_or(""));
    {
        let mut c = ctx.borrow_mut();
        c.states.push(hash64(&shown));
        c.outcome = Some(if shown.len() < 400 { shown } else { format!("{}: {:x}", scn.name, hash64(&shown)) });
        let mut note = vec![format!("{scn:?}")];
        for (i, o) in &order {
            note.push(format!("#{i} ends with {o:?}"));
        }
        for (i, s) in g.slots.iter().enumerate().take(60) {
            note.push(format!("#{i}: individual {} seed {} value {} {:?} ended={} told={} dropped={}", s.id as i64, s.seed, s.value, s.out, s.ended, s.told, s.dropped));
        }
        c.note = note;
    }
    drop(g);
    std::fs::remove_dir_all(&dir).ok();
    Outcome { viols, trace }
}

#[allow(clippy::too_many_arguments)]
fn judge(
    scn: &Scn,
    rn: &RN,
    g: &St,
    order: &[(usize, Out)],
    failed: Option<usize>,
    hit: bool,
    told_phase: bool,
    starts_at_told: usize,
    dir: &std::path::Path,
    viols: &mut Vec<(String, String)>,
    trace: &mut String,
) {
    macro_rules! viol {
        ($p:expr, $($a:tt)*) => { viols.push(($p.to_string(), format!($($a)*))) };
    }
    if g.panicked {
        viol!("*", "the run panics");
        return;
    }
    let res = g.result.as_ref().unwrap();
    let blocking = scn.mode == Mode::Blocking;
    if let Some(n) = scn.n {
        if g.slots.len() > n {
            viol!("C03", "{} evaluations started, the budget is {n}", g.slots.len());
        }
    }
    for i in &g.told_at_start {
        let p = if failed.is_some() { "C06" } else { "C04" };
        viol!(p, "evaluation #{i} started after the abort request had been made");
    }
    if told_phase && g.slots.len() > starts_at_told {
        viol!("C04", "{} evaluations started after the time limit had taken effect", g.slots.len() - starts_at_told);
    }
    for (i, s) in g.slots.iter().enumerate() {
        if let Err(e) = rn.conforms_json(&s.value, false) {
            viol!("C01", "evaluation #{i} got a non-conforming candidate, {e}: {}", s.value);
        }
    }
    let first = scn.guess.clone().unwrap_or_else(|| rn.initial().json());
    if blocking {
        if !g.slots.is_empty() && !g.slots.iter().take(scn.c).any(|s| s.value == first) {
            viol!("C08", "the initial value {first} is not among the first evaluations");
        }
    } else {
        if let Some(s) = g.slots.first() {
            if s.value != first {
                viol!("C08", "the first evaluation got {}, the initial value is {first}", s.value);
            }
        }
        let mut seeds = std::collections::BTreeSet::new();
        for (i, s) in g.slots.iter().enumerate() {
            if !seeds.insert(s.seed) {
                viol!("C08", "evaluation #{i} got seed {}, which another one has got already", s.seed);
            }
        }
    }
    // results that the run must have processed
    let ended: Vec<usize> = if blocking {
        order.iter().map(|x| x.0).collect()
    } else {
        let mut e: Vec<usize> = (0..g.slots.len()).filter(|i| g.slots[*i].ended).collect();
        e.sort_by_key(|i| g.slots[*i].rank);
        e
    };
    let natural = failed.is_none() && !hit && !told_phase;
    if natural {
        if let Some(n) = scn.n {
            if g.slots.len() != n {
                viol!("C03", "{} evaluations started, the budget is {n}", g.slots.len());
            }
        }
    }
    let outs: Vec<(usize, Out)> = ended.iter().map(|i| (*i, g.slots[*i].out.unwrap())).collect();
    let accepted: Vec<(usize, f64)> = outs.iter().filter_map(|(i, o)| if let Out::Val(v) = o { Some((*i, *v)) } else { None }).collect();
    let rejected = outs.iter().filter(|x| x.1 == Out::Rej).count();
    // a blocking evaluation is abandoned by a stop: its result counts as rejected, if at all
    let exact = natural || !blocking;
    let mut samples: BTreeMap<usize, Vec<f64>> = BTreeMap::new();
    for (i, v) in &accepted {
        samples.entry(if blocking { *i } else { g.slots[*i].id }).or_default().push(*v);
    }
    match res {
        Ok(rep) => {
            *trace += &format!(
                "Ok(best {} {}, completed {}, rejected {})",
                rep.best_seen.obj_func_val, rep.best_seen.value, rep.num_obj_func_eval_completed, rep.num_obj_func_eval_rejected
            );
            if failed.is_some() {
                viol!("C06", "evaluation #{} failed but the run reports success", failed.unwrap());
            }
            let (c, r) = (rep.num_obj_func_eval_completed, rep.num_obj_func_eval_rejected);
            if natural && scn.n.map_or(false, |n| c + r != n) {
                viol!("C03", "completed {c} + rejected {r} is not the budget {:?}", scn.n);
            }
            if exact && (c, r) != (accepted.len(), rejected) {
                viol!("C14", "the report counts {c} completed and {r} rejected, there were {} and {rejected}", accepted.len());
            }
            let b = &rep.best_seen;
            if let Err(e) = rn.conforms_json(&b.value, false) {
                viol!("C01", "the reported best-seen value does not conform, {e}: {}", b.value);
            }
            if scn.s == 1 {
                if !accepted.iter().any(|(i, v)| g.slots[*i].value == b.value && same_bits(*v, b.obj_func_val)) {
                    viol!("C02", "best-seen {} with objective value {} was not evaluated like that", b.value, b.obj_func_val);
                }
                if exact {
                    if let Some((i, v)) = accepted.iter().find(|x| x.1 < b.obj_func_val) {
                        viol!("C02", "best-seen objective {} though evaluation #{i} returned {v}", b.obj_func_val);
                        if told_phase {
                            viol!("C04", "best-seen objective {} though evaluation #{i} returned {v}", b.obj_func_val);
                        }
                    }
                }
            } else if !blocking {
                let ok = samples.iter().any(|(id, l)| {
                    let m = l.iter().sum::<f64>() / l.len() as f64;
                    l.len() == scn.s
                        && (m - b.obj_func_val).abs() <= 1e-9 * m.abs()
                        && g.slots.iter().any(|s| s.id == *id && s.value == b.value)
                });
                if !ok {
                    viol!("C02", "best-seen {} with objective value {} is no completed individual", b.value, b.obj_func_val);
                }
            }
            if hit && !(b.obj_func_val <= scn.target.unwrap()) {
                viol!("C04", "the target {:?} was reached but the best-seen objective is {}", scn.target, b.obj_func_val);
            }
        }
        Err(e) => {
            *trace += &format!("Err({e})");
            if let Some(f) = failed {
                let want = match g.slots[f].out.unwrap() {
                    Out::Fail => format!("failure of evaluation {f}"),
                    _ => Error::ObjFuncValMustBeFinite.to_string(),
                };
                if e.to_string() != want {
                    viol!("C06", "the first failure was {want:?}, the run reports {:?}", e.to_string());
                }
            } else {
                let any = if blocking {
                    // those before the stop count for sure
                    order.iter().take(if told_phase { scn.prefix } else { usize::MAX }).any(|x| matches!(x.1, Out::Val(_))) && scn.s == 1
                } else {
                    samples.values().any(|l| l.len() == scn.s)
                };
                if any {
                    let p = if told_phase || hit { "C04" } else { "C02" };
                    viol!(p, "there are accepted evaluations but the run ends with error {e}");
                }
            }
        }
    }
    if scn.twice {
        let mut t = String::new();
        for s in &g.slots {
            t += &format!("{} {} {}\n", s.id, s.seed, s.value);
        }
        *trace = t + trace;
    }
    // ---- files
    if !scn.files {
        return;
    }
    let csv = match std::fs::read_to_string(dir.join("detailed_report.csv")) {
        Ok(s) => s,
        Err(e) => {
            viol!("C14", "no detailed report: {e}");
            return;
        }
    };
    let mut lines = csv.split('\n');
    let head: Vec<&str> = lines.next().unwrap_or("").split(';').collect();
    let col = |n: &str| head.iter().position(|h| *h == n);
    let cols: Option<Vec<usize>> = ["individualId", "seed", "inputVal", "objFuncVal", "crossoverProb", "selectionPressure", "mutationProb", "mutationScale"]
        .iter()
        .map(|n| col(n))
        .collect();
    let cols = match cols {
        Some(c) => c,
        None => {
            viol!("C14", "the detailed report has the header {head:?}");
            return;
        }
    };
    let mut recs: Vec<(usize, u64, String, Option<f64>)> = Vec::new();
    for l in lines {
        if l.is_empty() {
            continue;
        }
        let f: Vec<&str> = l.split(';').collect();
        if f.len() != head.len() {
            viol!("C14", "the detailed report has a broken record: {l:?}");
            return;
        }
        let (id, seed) = match (f[cols[0]].parse(), f[cols[1]].parse()) {
            (Ok(a), Ok(b)) => (a, b),
            _ => {
                viol!("C14", "the detailed report has a broken record: {l:?}");
                return;
            }
        };
        let v = f[cols[3]];
        let val = if v.is_empty() {
            None
        } else {
            match v.parse::<f64>() {
                Ok(x) => Some(x),
                Err(_) => {
                    viol!("C14", "the detailed report has a broken result: {l:?}");
                    return;
                }
            }
        };
        for (k, n) in [(4, "crossover probability"), (5, "selection pressure"), (6, "mutation probability"), (7, "mutation scale")] {
            let t = f[cols[k]];
            if t.is_empty() {
                continue;
            }
            match t.parse::<f64>() {
                Ok(x) if k < 7 && (0.0..=1.0).contains(&x) => (),
                Ok(x) if k == 7 && x > 0.0 && x.is_finite() => (),
                _ => viol!("C14", "{n} {t}"),
            }
        }
        recs.push((id, seed, f[cols[2]].to_string(), val));
    }
    if !csv.ends_with('\n') {
        viol!("C14", "the detailed report ends in the middle of a line");
    }
    // one record per processed evaluation
    let processed: Vec<usize> = outs.iter().filter(|x| matches!(x.1, Out::Val(_) | Out::Rej)).map(|x| x.0).collect();
    if exact {
        if recs.len() != processed.len() {
            viol!("C14", "{} records, {} evaluations were processed", recs.len(), processed.len());
        }
        let mut want: Vec<(usize, u64, String, Option<u64>)> = processed
            .iter()
            .map(|i| {
                let s = &g.slots[*i];
                let v = if let Some(Out::Val(v)) = s.out { Some(v.to_bits()) } else { None };
                if blocking {
                    (0, 0, s.value.to_string(), v)
                } else {
                    (s.id, s.seed, s.value.to_string(), v)
                }
            })
            .collect();
        let mut got: Vec<(usize, u64, String, Option<u64>)> = recs
            .iter()
            .map(|r| {
                if blocking {
                    (0, 0, r.2.clone(), r.3.map(f64::to_bits))
                } else {
                    (r.0, r.1, r.2.clone(), r.3.map(f64::to_bits))
                }
            })
            .collect();
        want.sort();
        got.sort();
        if want != got {
            let d = want.iter().find(|x| !got.contains(x)).map(|x| format!("{x:?}"));
            viol!("C14", "the records differ from what was evaluated: {d:?} is missing");
        }
    }
    let mut ids = std::collections::BTreeSet::new();
    for r in &recs {
        if !ids.insert(r.1) {
            viol!("C14", "two records with seed {}", r.1);
        }
    }
    let best = std::fs::read_to_string(dir.join("best_seen.json"));
    if scn.s == 1 {
        let min = recs.iter().filter_map(|r| r.3).fold(f64::INFINITY, f64::min);
        match (&best, min.is_finite()) {
            (Err(e), true) => viol!("C14", "no best-seen file: {e}"),
            (Ok(b), true) => {
                let bj: Option<J> = serde_json::from_str(b).ok();
                let same = |r: &String| bj.is_some() && serde_json::from_str::<J>(r).ok() == bj;
                if !recs.iter().any(|r| r.3 == Some(min) && same(&r.2)) {
                    viol!("C14", "the best-seen file holds {b:?}, which is not a record with the minimum objective {min}");
                }
                if let Ok(rep) = res {
                    if rep.best_seen.obj_func_val != min {
                        viol!("C14", "the minimum of the records is {min}, the final report says {}", rep.best_seen.obj_func_val);
                    }
                }
            }
            (Ok(b), false) => viol!("C14", "the best-seen file holds {b:?} though nothing was accepted"),
            _ => (),
        }
    }
}

const MODES: [Mode; 3] = [Mode::AsyncSingle, Mode::AsyncMulti, Mode::Blocking];
const LO: Out = Out::Val(-3.5);
const HI: Out = Out::Val(2.25);

fn budget(th: bool) -> Vec<Scn> {
    let mut v = Vec::new();
    for m in MODES {
        for c in 1..=(4 + th as usize) {
            for n in 0..=(4 + th as usize) {
                let mut s = Scn::new(&format!("budget c={c} N={n}"), m);
                s.c = c;
                s.n = Some(n);
                s.outs = vec![LO, HI, Out::Rej];
                if c * n > 9 {
                    s.outs = vec![LO, Out::Rej];
                }
                v.push(s);
            }
        }
    }
    v
}

/// Parameter names and options with characters that are special somewhere (but for ';', which separates the fields).
fn names() -> Vec<Scn> {
    let mut v = Vec::new();
    for (k, name) in [
        "a\nb",
        "a\\nb",
        "tab\tin",
        "\"quoted\"",
        "back\\slash",
        "\\",
        "\"",
        "'",
        " leading",
        "trailing ",
        "a,b",
        "a:b",
        "{}",
        "[]",
        "null",
        "true",
        "1e5",
        "0",
        "-",
        "\u{e9}t\u{e9}",
        "\u{1F600}",
        "\u{7f}",
        "\u{1}",
        "\r",
        "\u{2028}",
        "\u{feff}x",
        "e\u{301}",
        "%s%n",
        "$HOME",
        "<b>&amp</b>",
        "inputVal",
        "\\u0041",
        "\\\"",
    ]
    .into_iter()
    .enumerate()
    {
        let q = serde_json::to_string(name).unwrap();
        for (i, yaml) in [
            format!("{q}: {{type: real, init: 0.5, scale: 1}}\ny: {{type: bool, init: true}}\n"),
            format!("type: enum\ninit: {q}\nvalues: [{q}, other]\n"),
            format!("type: variant\ninit: {q}\n{q}: {{type: int, init: 3, scale: 2}}\nother: {{type: const}}\n"),
        ]
        .into_iter()
        .enumerate()
        {
            if spec_util::from_yaml_str(&yaml).is_err() {
                // names may be refused; what is refused is the parser's business
                continue;
            }
            let mut s = Scn::new(&format!("name {k} at {i}"), MODES[(i + k) % 3]);
            s.yaml = yaml;
            s.n = Some(6);
            s.script = Some((Order::Fifo, vec![HI, Out::Rej, LO, Out::Val(0.5)]));
            v.push(s);
        }
    }
    v
}

fn close_values(th: bool) -> Vec<Scn> {
    let mut v = Vec::new();
    for m in MODES {
        if m != Mode::AsyncSingle && !th {
            continue;
        }
        for (k, menu) in [
            vec![1.0, 0.9999999999999999, 0.9999999999],
            vec![-1.0, -1.0000000000000002, -1.00000001],
            vec![0.0, -0.0, 5e-324],
            vec![1e300, 9.999999999999999e299, -1e300],
            vec![1e-300, 1.0000001e-300, -1e-300],
            vec![1.2345678901234567e17, 1.234567890123456e17, 9.007199254740993e15],
            vec![0.1 + 0.2, 0.3, 1.0 / 3.0],
            vec![-2.3782936742747482, 2.2250738585072011e-308, 4.4e-323],
            vec![1.2345678901234567e200, -9.87654321098765432e-200, 99999999999999990000000.0],
            vec![123456789.0, 123456789.00000001, 123456788.99999999],
        ]
        .into_iter()
        .enumerate()
        {
            let mut s = Scn::new(&format!("close values {k}"), m);
            s.n = Some(4);
            s.outs = menu.into_iter().map(Out::Val).collect();
            s.outs.push(Out::Rej);
            v.push(s);
        }
    }
    v
}

fn targets() -> Vec<Scn> {
    let mut v = Vec::new();
    for m in MODES {
        for c in 1..=3 {
            let mut s = Scn::new(&format!("target c={c}"), m);
            s.c = c;
            s.n = Some(4);
            s.target = Some(0.0);
            s.outs = if c == 3 { vec![LO, HI] } else { vec![LO, HI, Out::Rej] };
            if c > 1 {
                s.n = Some(3);
            }
            v.push(s);
        }
    }
    v
}

fn limits(th: bool) -> Vec<Scn> {
    let mut v = Vec::new();
    for m in MODES {
        for c in 1..=3 {
            for prefix in 0..=2 {
                for n in [None, Some(20)] {
                    if m == Mode::Blocking && (n.is_some() || prefix == 1) && !th {
                        continue;
                    }
                    let mut s = Scn::new(&format!("time limit c={c} prefix={prefix} N={n:?}"), m);
                    s.c = c;
                    s.n = n;
                    s.prefix = prefix;
                    s.limit = Some(Duration::from_millis(60));
                    s.outs = vec![LO, HI];
                    if m == Mode::Blocking {
                        s.script = Some((if c == 2 { Order::Lifo } else { Order::Fifo }, vec![HI, LO, Out::Rej]));
                    }
                    if c == 3 {
                        s.outs = vec![LO, Out::Rej];
                        s.prefix = prefix.min(1);
                        s.script = Some((Order::Lifo, vec![HI, LO]));
                    }
                    v.push(s);
                }
            }
        }
        // at once
        let mut s = Scn::new("time limit zero", m);
        s.n = Some(3);
        s.limit = Some(Duration::ZERO);
        s.outs = vec![LO];
        v.push(s);
    }
    v
}

fn failures(th: bool) -> Vec<Scn> {
    let mut v = Vec::new();
    for m in MODES {
        for k in [Out::Fail, Out::NonFinite(f64::NAN), Out::NonFinite(f64::INFINITY), Out::NonFinite(f64::NEG_INFINITY)] {
            if m == Mode::Blocking && k == Out::Fail {
                continue;
            }
            for c in 1..=3 {
                if c == 3 && !th && k != Out::Fail {
                    continue;
                }
                let mut s = Scn::new(&format!("failure {k:?} c={c}"), m);
                s.c = c;
                s.n = Some(4);
                s.outs = vec![LO, k];
                v.push(s);
            }
        }
    }
    v
}

fn long(th: bool) -> Vec<Scn> {
    let mut v = Vec::new();
    for m in MODES {
        for n in [255usize, 256, 257, 258, 259, 300, 600, 1000] {
            for c in [1usize, 4] {
                if !th && (n + c) % 3 != 0 && n != 600 {
                    continue;
                }
                for (k, outs) in [
                    vec![Out::Val(3.0), Out::Rej, Out::Val(2.0)],
                    (0..n).map(|i| Out::Val(1e6 - i as f64)).collect::<Vec<_>>(),
                    vec![Out::Val(3.0), Out::Val(1.0), Out::Val(1e300)],
                ]
                .into_iter()
                .enumerate()
                {
                    let mut s = Scn::new(&format!("long N={n} c={c} values {k}"), m);
                    s.c = c;
                    s.n = Some(n);
                    s.s = if k == 2 && m != Mode::Blocking { 3 } else { 1 };
                    s.script = Some((if c == 4 { Order::Lifo } else { Order::Fifo }, outs));
                    v.push(s);
                }
            }
        }
    }
    v
}

fn wide(th: bool) -> Vec<Scn> {
    let cores = std::thread::available_parallelism().map_or(8, |n| n.get());
    let mut v = Vec::new();
    let mut cs = vec![cores - 1, cores, cores + 1, cores + 3, 2 * cores + 1, 5 * cores];
    if th {
        cs.extend([cores + 2, 70, 130, 300]);
    }
    for m in MODES {
        for &c in &cs {
            for n in [c, c + 3] {
                for o in [Order::Fifo, Order::Lifo] {
                    let mut s = Scn::new(&format!("wide c={c} N={n} {o:?}"), m);
                    s.c = c;
                    s.n = Some(n);
                    s.script = Some((o, vec![HI, Out::Rej, LO, Out::Val(0.0)]));
                    s.files = n > c;
                    v.push(s);
                }
            }
        }
    }
    v
}

fn repeat(th: bool) -> Vec<Scn> {
    let mut v = Vec::new();
    for m in [Mode::AsyncSingle, Mode::AsyncMulti] {
        for c in 1..=3 {
            let mut s = Scn::new(&format!("again c={c}"), m);
            s.c = c;
            s.n = Some(4);
            s.outs = vec![LO, HI, Out::Rej];
            if c == 3 || !th {
                s.outs = vec![LO, HI];
                s.n = Some(3);
            }
            s.twice = true;
            v.push(s);
        }
        for (ei, e) in vharness::catalog::mixed().into_iter().enumerate() {
            for o in [Order::Fifo, Order::Lifo] {
                let mut s = Scn::new(&format!("again {} {o:?}", e.name), m);
                s.yaml = e.yaml.clone();
                s.c = 1 + ei % 4;
                s.s = 1 + ei % 2;
                s.n = Some(60);
                s.script = Some((o, vec![HI, Out::Rej, LO, Out::Val(7.0), Out::Val(0.0)]));
                s.twice = true;
                s.files = false;
                v.push(s);
            }
        }
    }
    v
}

fn main() {
    let args = Args::parse();
    init_panic_hook();
    let th = args.thorough();
    let mut frag = Fragment::new(&args);
    let parts: Vec<(&str, Vec<Scn>)> = match args.property.as_str() {
        "C02" => vec![("launch: budget", budget(th)), ("launch: close values", close_values(th)), ("launch: limits", limits(false)), ("launch: long", long(false))],
        "C03" => vec![("launch: budget", budget(th)), ("launch: wide", wide(th)), ("launch: large budgets", large(th))],
        "C04" => vec![("launch: limits", limits(th)), ("launch: targets", targets())],
        "C05" => vec![("launch: budget", budget(th)), ("launch: wide", wide(th))],
        "C06" => vec![("launch: failures", failures(th))],
        "C09" => vec![("launch: again", repeat(th))],
        "C14" => vec![
            ("launch: budget", budget(th)),
            ("launch: close values", close_values(th)),
            ("launch: long", long(th)),
            ("launch: names", names()),
            ("launch: long reports", long_reports(th)),
            ("launch: limits", limits(th)),
            ("launch: failures", failures(th)),
            ("launch: targets", targets()),
        ],
        "C15" => vec![("launch: budget", budget(false)), ("launch: limits", limits(th)), ("launch: close values", close_values(th)), ("launch: long", long(false)), ("launch: failures", failures(false))],
        _ => vec![],
    };
    let n = parts.len();
    for (pi, (name, scns)) in parts.iter().enumerate() {
        if args.part.as_ref().map_or(false, |q| q != name) {
            continue;
        }
        let left = args.wall - frag.t0.elapsed().as_secs_f64();
        let wall = (left / (n - pi) as f64 * 1.6).clamp(1.0, left.max(1.0));
        let exec = |ctx: &Rc<RefCell<Ctx>>| -> Vec<(String, String)> {
            let k = ctx.borrow_mut().choose(scns.len() as u32) as usize;
            let scn = &scns[k];
            let mut r = run(scn, ctx);
            if scn.twice && r.viols.is_empty() {
                // once more, and on the other runtime
                let choices = ctx.borrow().choices();
                for mode in [scn.mode, if scn.mode == Mode::AsyncSingle { Mode::AsyncMulti } else { Mode::AsyncSingle }] {
                    let again = Rc::new(RefCell::new(Ctx::with_prefix(choices.clone())));
                    again.borrow_mut().choose(scns.len() as u32);
                    let mut s2 = scn.clone();
                    s2.mode = mode;
                    let r2 = run(&s2, &again);
                    if r2.trace != r.trace {
                        let d = r
                            .trace
                            .lines()
                            .zip(r2.trace.lines())
                            .find(|(a, b)| a != b)
                            .map(|(a, b)| format!("{a:?} versus {b:?}"))
                            .unwrap_or_else(|| "one run is longer".into());
                        r.viols.push(("C09".into(), format!("the same schedule gives different runs: {d}")));
                    }
                }
            }
            r.viols
                .into_iter()
                .filter(|v| v.0 == args.property || v.0 == "*")
                .map(|v| (args.property.clone(), v.1))
                .collect()
        };
        if let Some(ch) = &args.replay {
            let ctx = Rc::new(RefCell::new(Ctx::with_prefix(ch.clone())));
            let v = exec(&ctx);
            for n in &ctx.borrow().note {
                println!("{n}");
            }
            for x in &v {
                println!("VIOLATED {}: {}", x.0, x.1);
            }
            std::process::exit(!v.is_empty() as i32);
        }
        let st = explore(
            (0..scns.len() as u32).map(|i| vec![i]).collect(),
            &Limits {
                deviations: None,
                wall: Duration::from_secs_f64(wall),
                threads: args.threads.max(2) * 2,
            },
            Duration::from_secs(120),
            |choices| Fragment::hang(&args, name, choices),
            exec,
        );
        frag.add(name, st);
        if frag.failed() {
            break;
        }
    }
    frag.finish();
    if frag.failed() {
        for (n, st) in &frag.parts {
            for v in st.violations.iter().take(8) {
                eprintln!("{n}: {}: {} {:?}", v.property, v.message, v.choices);
            }
        }
        std::process::exit(1);
    }
}

//! Drives `async_launch::launch` under a controlled executor and judges what it does.
use crate::common::guarded;
use crate::explore::{hash64, Ctx};
use crate::refspec::RN;
use crate::rngctl::{self, Policy};
use async_trait::async_trait;
use cambrian::error::Error;
use cambrian::message::Command;
use cambrian::meta::{AlgoConfigBuilder, AsyncObjectiveFunction};
use cambrian::result::FinalReport;
use cambrian::verif::DetailedReportItem;
use cambrian::{async_launch, spec_util};
use futures::channel::mpsc;
use futures::Stream;
use serde_json::Value as J;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Out {
    Val(f64),
    Rej,
    Fail,
    NonFinite(f64),
}
impl Out {
    fn failing(self) -> bool {
        matches!(self, Out::Fail | Out::NonFinite(_))
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Abort {
    /// ends as rejected as soon as the abort request is seen, like the built-in functions
    Honour,
    /// never looks at the request
    Ignore,
    /// sees the request, ends (with any outcome) when the schedule says so
    Late,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Order {
    Fifo,
    Lifo,
    /// always the slot at this index of the in-flight list (modulo its length)
    Rot(usize),
}

/// Outcome of the k-th completion of a scripted run.
#[derive(Clone, Debug, PartialEq)]
pub enum Vals {
    /// `base(k)`, the p-th completion being the minimum
    MinAt { p: usize, shape: u8 },
    /// as the former, all completions with k % m == r rejected (never the p-th)
    MinAtRej { p: usize, shape: u8, m: usize, r: usize },
    /// cyclic list
    Cycle(Vec<Out>),
    /// a deterministic function of the candidate
    OfValue,
    /// value p of individual id, by table over (id, sample index)
    PerId { first: f64, later: f64, except: usize },
}

#[derive(Clone, Debug)]
pub enum Driver {
    Explore,
    Script { order: Order, vals: Vals },
    /// scripted for that many completions, then explored (schedule and random choices)
    Prefix { n: usize, vals: Vals },
}

#[derive(Clone, Debug)]
pub struct Scn {
    pub name: String,
    pub yaml: String,
    pub c: usize,
    pub n: Option<usize>,
    pub target: Option<f64>,
    pub s: usize,
    pub guess: Option<J>,
    pub outs: Vec<Out>,
    /// evaluations may complete within their first poll
    pub imm: bool,
    pub abort: Abort,
    /// Terminate commands that may be delivered, and whether the sender then hangs up
    pub term: u8,
    pub hangup: bool,
    /// up to this many events between two polls
    pub batch: usize,
    /// report channel: `None` is drained after every poll, `Some(buffer)` by explicit events
    pub chan: Option<usize>,
    pub policy: Policy,
    pub horizon: u32,
    pub menu: usize,
    pub max_events: usize,
    pub driver: Driver,
    /// random choices of `select!` are explored
    pub own_select: bool,
    /// parts of the trace to keep in the outcome
    pub verbose_outcome: bool,
    /// scripted run of very many evaluations, judged as it goes
    pub light: bool,
    /// light runs: what happens after that many completions
    pub light_stop: Option<(usize, LightStop)>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum LightStop {
    Terminate,
    Fail,
    NaN,
}

pub const SPEC1: &str = "x:\n  type: real\n  init: 0.5\n  scale: 1.0\n  min: -10.0\n  max: 10.0\n";

impl Scn {
    pub fn new(name: &str) -> Scn {
        Scn {
            name: name.into(),
            yaml: SPEC1.into(),
            c: 1,
            n: Some(2),
            target: None,
            s: 1,
            guess: None,
            outs: vec![Out::Val(1.0), Out::Val(2.0), Out::Rej],
            imm: false,
            abort: Abort::Honour,
            term: 0,
            hangup: false,
            batch: 1,
            chan: None,
            policy: Policy::Real,
            horizon: u32::MAX,
            menu: 9,
            max_events: 64,
            driver: Driver::Explore,
            own_select: true,
            verbose_outcome: true,
            light: false,
            light_stop: None,
        }
    }
}

#[derive(Clone, Debug)]
enum Ev {
    Start(usize),
    Ready(usize),
    Dropped(usize),
    Avail(usize, Out),
    Term,
    Hangup,
    Drain(usize),
    PollEnd(bool),
}

struct Slot {
    seed: u64,
    id: usize,
    value: J,
    avail: Option<Out>,
    out: Option<Out>,
    ended: bool,
    dropped: bool,
    aborted: bool,
    told: bool,
    rx: Option<async_broadcast::Receiver<()>>,
    waker: Option<Waker>,
    told_at_start: bool,
    ready_in_poll: usize,
}

struct Sh {
    slots: Vec<Slot>,
    log: Vec<Ev>,
    poll_no: usize,
    imm: Option<Vec<Out>>,
    abort: Abort,
    ctx: Rc<RefCell<Ctx>>,
    term_sent: bool,
    max_in_flight: usize,
    conc_viol: Vec<String>,
    c: usize,
    script: Option<Vals>,
    completions: usize,
}

#[derive(Clone)]
struct Shared(Arc<Mutex<Sh>>);
// Everything runs on one thread; the bounds of `AsyncObjectiveFunction` demand these.
unsafe impl Send for Shared {}
unsafe impl Sync for Shared {}

struct EvalFut {
    sh: Shared,
    slot: usize,
}

struct Obj {
    sh: Shared,
}

impl Sh {
    fn in_flight(&self) -> Vec<usize> {
        (0..self.slots.len())
            .filter(|i| !self.slots[*i].ended && !self.slots[*i].dropped)
            .collect()
    }
    fn told(&self, i: usize) -> bool {
        let s = &self.slots[i];
        s.told
            || s.rx
                .as_ref()
                .map_or(false, |r| r.clone().try_recv().is_ok())
    }
}

fn outcome_result(o: Out, slot: usize) -> Result<Option<f64>, Error> {
    match o {
        Out::Val(v) => Ok(Some(v)),
        Out::NonFinite(v) => Ok(Some(v)),
        Out::Rej => Ok(None),
        Out::Fail => Err(Error::Io(std::io::Error::new(
            std::io::ErrorKind::Other,
            format!("failure of evaluation {slot}"),
        ))),
    }
}

impl Future for EvalFut {
    type Output = Result<Option<f64>, Error>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut g = self.sh.0.lock().unwrap();
        let slot = self.slot;
        let poll_no = g.poll_no;
        let mode = g.abort;
        let s = &mut g.slots[slot];
        if mode != Abort::Ignore && !s.told {
            if let Some(rx) = s.rx.as_mut() {
                if let Poll::Ready(x) = Pin::new(rx).poll_next(cx) {
                    // the request, or nobody left to make one
                    s.told = x.is_some();
                }
            }
        }
        let out = if mode == Abort::Honour && s.told && s.avail.is_none() {
            s.aborted = true;
            Some(Out::Rej)
        } else {
            s.avail
        };
        match out {
            Some(o) => {
                s.out = Some(o);
                s.ended = true;
                s.ready_in_poll = poll_no;
                s.rx = None;
                g.log.push(Ev::Ready(slot));
                Poll::Ready(outcome_result(o, slot))
            }
            None => {
                s.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}

impl Drop for EvalFut {
    fn drop(&mut self) {
        if let Ok(mut g) = self.sh.0.lock() {
            let slot = self.slot;
            if !g.slots[slot].ended {
                g.slots[slot].dropped = true;
                g.slots[slot].rx = None;
                g.log.push(Ev::Dropped(slot));
            }
        }
    }
}

#[async_trait]
impl AsyncObjectiveFunction for Obj {
    async fn evaluate(
        &self,
        value: J,
        rx: async_broadcast::Receiver<()>,
        seed: u64,
        id: usize,
    ) -> Result<Option<f64>, Error> {
        let fut = {
            let mut g = self.sh.0.lock().unwrap();
            let slot = g.slots.len();
            let told_at_start = rx.clone().try_recv().is_ok();
            for i in g.in_flight() {
                if g.slots[i].id == id {
                    let other = g.slots[i].seed;
                    g.conc_viol.push(format!(
                        "individual {id} is being evaluated twice at the same time (seeds {other} and {seed})"
                    ));
                }
            }
            g.slots.push(Slot {
                seed,
                id,
                value,
                avail: None,
                out: None,
                ended: false,
                dropped: false,
                aborted: false,
                told: false,
                rx: Some(rx),
                waker: None,
                told_at_start,
                ready_in_poll: 0,
            });
            g.log.push(Ev::Start(slot));
            let n = g.in_flight().len();
            g.max_in_flight = g.max_in_flight.max(n);
            if n > g.c {
                let c = g.c;
                g.conc_viol
                    .push(format!("{n} evaluations in progress, num_concurrent is {c}"));
            }
            if let Some(outs) = g.imm.clone() {
                let k = g.ctx.clone().borrow_mut().choose(outs.len() as u32 + 1);
                if k > 0 {
                    g.slots[slot].avail = Some(outs[k as usize - 1]);
                    g.log.push(Ev::Avail(slot, outs[k as usize - 1]));
                }
            }
            EvalFut {
                sh: self.sh.clone(),
                slot,
            }
        };
        fut.await
    }
}

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

pub fn of_value(v: &J) -> f64 {
    // a smooth-ish deterministic function of any candidate
    fn walk(v: &J, k: &mut f64, acc: &mut f64) {
        match v {
            J::Number(n) => {
                *k += 1.0;
                let x = n.as_f64().unwrap_or(0.0).clamp(-1e6, 1e6);
                *acc += (x - 0.3 * *k) * (x - 0.3 * *k);
            }
            J::Bool(b) => {
                *k += 1.0;
                *acc += if *b { 0.0 } else { 1.0 };
            }
            J::String(s) => *acc += (s.len() as f64) + s.bytes().map(|b| b as f64).sum::<f64>() * 0.01,
            J::Null => *acc += 0.5,
            J::Array(a) => a.iter().for_each(|e| walk(e, k, acc)),
            J::Object(m) => {
                *acc += (m.len() as f64 - 3.0).abs() * 0.1;
                m.iter().for_each(|(_, e)| walk(e, k, acc))
            }
        }
    }
    let (mut k, mut acc) = (0.0, 0.0);
    walk(v, &mut k, &mut acc);
    acc
}

fn shape_val(shape: u8, k: usize, _n: usize) -> f64 {
    match shape {
        0 => 10.0 + k as f64,                    // increasing
        1 => 10000.0 - k as f64,                 // decreasing
        2 => 10.0,                               // ties
        3 => 10.0 + ((k * 7919) % 101) as f64,   // scattered
        4 => if k % 2 == 0 { 10.0 + k as f64 } else { 5000.0 - k as f64 },
        6 => f64::from_bits(10f64.to_bits() + 1 + (k as u64 * 7919) % 101), // next to each other
        7 => f64::from_bits(1 + (k as u64 * 7919) % 101), // the least there are
        8 => f64::from_bits(1e300f64.to_bits() - 101 + (k as u64 * 7919) % 101),
        9 => 10.0 + 1e-9 * ((k * 7919) % 101) as f64,
        _ => 10.0 + (k % 5) as f64,
    }
}

/// Less than all of the shape.
fn least_val(shape: u8) -> f64 {
    match shape {
        6 => 10.0,
        7 => 0.0,
        8 => f64::from_bits(1e300f64.to_bits() - 102),
        9 => 10.0 - 1e-9,
        _ => -1.0,
    }
}

fn scripted(vals: &Vals, k: usize, sh: &Sh, slot: usize) -> Out {
    match vals {
        Vals::MinAt { p, shape } => {
            if k == *p {
                Out::Val(least_val(*shape))
            } else {
                Out::Val(shape_val(*shape, k, 0))
            }
        }
        Vals::MinAtRej { p, shape, m, r } => {
            if k == *p {
                Out::Val(least_val(*shape))
            } else if k % m == *r {
                Out::Rej
            } else {
                Out::Val(shape_val(*shape, k, 0))
            }
        }
        Vals::Cycle(v) => v[k % v.len()],
        Vals::OfValue => Out::Val(of_value(&sh.slots[slot].value)),
        Vals::PerId {
            first,
            later,
            except,
        } => {
            let id = sh.slots[slot].id;
            let before = sh
                .slots
                .iter()
                .enumerate()
                .filter(|(i, s)| *i != slot && s.id == id && s.ended)
                .count();
            if id == *except {
                Out::Val(-5.0)
            } else if before == 0 {
                Out::Val(first + id as f64 * 0.001)
            } else {
                Out::Val(later + id as f64 * 0.001)
            }
        }
    }
}

pub struct RunOut {
    pub viols: Vec<(String, String)>,
    pub trace: String,
    pub starts: Vec<(usize, u64, String)>,
    pub best: Option<(u64, String)>,
    pub cut: bool,
}

fn classify(r: &Result<FinalReport, Error>) -> String {
    match r {
        Ok(rep) => format!(
            "Ok(best {} {}, completed {}, rejected {})",
            rep.best_seen.obj_func_val,
            rep.best_seen.value,
            rep.num_obj_func_eval_completed,
            rep.num_obj_func_eval_rejected
        ),
        Err(e) => format!("Err({e})"),
    }
}

/// One execution. Every property's violations are reported, the caller filters.
pub fn run(scn: &Scn, ctx: &Rc<RefCell<Ctx>>) -> RunOut {
    let mut out = RunOut {
        viols: Vec::new(),
        trace: String::new(),
        starts: Vec::new(),
        best: None,
        cut: false,
    };
    let sh = Shared(Arc::new(Mutex::new(Sh {
        slots: Vec::new(),
        log: Vec::new(),
        poll_no: 0,
        imm: if scn.imm { Some(scn.outs.clone()) } else { None },
        abort: scn.abort,
        ctx: ctx.clone(),
        term_sent: false,
        max_in_flight: 0,
        conc_viol: Vec::new(),
        c: scn.c,
        script: match &scn.driver {
            Driver::Script { vals, .. } | Driver::Prefix { vals, .. } => Some(vals.clone()),
            _ => None,
        },
        completions: 0,
    })));
    if scn.light {
        if let Err(p) = guarded(|| run_light(scn, ctx, &mut out)) {
            out.viols.push(("*".into(), format!("panic: {p}")));
        }
        ctx.borrow_mut().note = vec![format!("scenario: {scn:?}")];
        return out;
    }
    let rng_guard = rngctl::install(ctx, scn.policy, scn.menu, scn.horizon);
    if scn.own_select {
        let ctx2 = ctx.clone();
        tokio::verif::set_select_hook(Some(Box::new(move |n| {
            Some(ctx2.borrow_mut().deviate(n, 0))
        })));
    }
    let sh2 = sh.clone();
    if let Driver::Prefix { n, .. } = scn.driver {
        rng_guard.active.set(n == 0);
    }
    let res = guarded(|| run_inner(scn, ctx, &sh2, &mut out, &rng_guard.active));
    tokio::verif::set_select_hook(None);
    drop(rng_guard);
    if let Err(p) = res {
        // whatever the property, the run did not do what it demands
        out.viols.push(("*".into(), format!("panic: {p}")));
    }
    // the log survives a panic
    let g = match sh.0.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    };
    let mut note = vec![format!("scenario: {:?}", scn)];
    for e in &g.log {
        note.push(match e {
            Ev::Start(i) => {
                let s = &g.slots[*i];
                format!("start #{i}: individual {} seed {} value {}", s.id, s.seed, s.value)
            }
            e => format!("{e:?}"),
        });
    }
    ctx.borrow_mut().note = note;
    out
}

/// What a light run keeps of an evaluation in progress.
struct LSlot {
    rx: async_broadcast::Receiver<()>,
    told: bool,
    no: usize,
    id: usize,
    seed: u64,
    value: J,
    out: Option<Out>,
    waker: Option<Waker>,
}

#[derive(Default)]
struct LSh {
    live: Vec<LSlot>,
    started: usize,
    seeds: std::collections::HashSet<u64>,
    /// id -> (hash of the value, evaluations, accepted values)
    ids: std::collections::HashMap<usize, (u64, usize, Vec<f64>)>,
    first: Option<(usize, J)>,
    accepted: usize,
    rejected: usize,
    viols: Vec<(String, String)>,
    finals: Vec<(f64, String)>,
    min: f64,
    done: std::collections::HashMap<u64, (usize, String, Option<u64>)>,
}

#[derive(Clone)]
struct LShared(Arc<Mutex<LSh>>);
unsafe impl Send for LShared {}
unsafe impl Sync for LShared {}

struct LObj {
    sh: LShared,
    c: usize,
    s: usize,
    rn: Arc<RN>,
}
struct LFut {
    sh: LShared,
    no: usize,
    s: usize,
}
impl Future for LFut {
    type Output = Result<Option<f64>, Error>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut g = self.sh.0.lock().unwrap();
        let i = g.live.iter().position(|l| l.no == self.no).expect("polled after its end");
        match g.live[i].out {
            None => {
                g.live[i].waker = Some(cx.waker().clone());
                Poll::Pending
            }
            Some(o) => {
                let l = g.live.remove(i);
                if o.failing() {
                    return Poll::Ready(outcome_result(o, l.no));
                }
                let val = if let Out::Val(v) = o { Some(v) } else { None };
                if let Some(v) = val {
                    g.accepted += 1;
                    g.min = g.min.min(v);
                    let e = g.ids.get_mut(&l.id).unwrap();
                    e.2.push(v);
                    if e.2.len() == self.s {
                        let m = e.2.iter().sum::<f64>() / self.s as f64;
                        g.finals.push((m, l.value.to_string()));
                    }
                } else {
                    g.rejected += 1;
                }
                g.done.insert(l.seed, (l.id, l.value.to_string(), val.map(f64::to_bits)));
                Poll::Ready(Ok(val))
            }
        }
    }
}
#[async_trait]
impl AsyncObjectiveFunction for LObj {
    async fn evaluate(
        &self,
        value: J,
        rx: async_broadcast::Receiver<()>,
        seed: u64,
        id: usize,
    ) -> Result<Option<f64>, Error> {
        let no = {
            let mut g = self.sh.0.lock().unwrap();
            let no = g.started;
            g.started += 1;
            if !g.seeds.insert(seed) {
                g.viols.push(("C08".into(), format!("evaluation #{no} got seed {seed}, which another one has got already")));
            }
            if g.live.iter().any(|l| l.id == id) {
                g.viols.push(("C05".into(), format!("individual {id} is being evaluated twice at the same time")));
            }
            if g.live.len() + 1 > self.c {
                let n = g.live.len() + 1;
                g.viols.push(("C05".into(), format!("{n} evaluations in progress, num_concurrent is {}", self.c)));
            }
            if let Err(e) = self.rn.conforms_json(&value, false) {
                g.viols.push(("C01".into(), format!("evaluation #{no} got a non-conforming candidate, {e}: {value}")));
            }
            if g.first.is_none() {
                g.first = Some((id, value.clone()));
            }
            let h = hash64(&value.to_string());
            let e = g.ids.entry(id).or_insert((h, 0, Vec::new()));
            e.1 += 1;
            let (h0, cnt) = (e.0, e.1);
            if h0 != h {
                g.viols.push(("C08".into(), format!("individual {id} was evaluated with another value before: {value}")));
            }
            if cnt > self.s {
                g.viols.push(("C08".into(), format!("individual {id} evaluated {cnt} times, the sample size is {}", self.s)));
            }
            g.live.push(LSlot {
                rx,
                told: false,
                no,
                id,
                seed,
                value,
                out: None,
                waker: None,
            });
            no
        };
        LFut {
            sh: self.sh.clone(),
            no,
            s: self.s,
        }
        .await
    }
}

/// A scripted run of any length.
fn run_light(scn: &Scn, ctx: &Rc<RefCell<Ctx>>, out: &mut RunOut) {
    let spec = spec_util::from_yaml_str(&scn.yaml).expect("spec");
    let rn = Arc::new(crate::refspec::parse_str(&scn.yaml).expect("catalogue spec"));
    let cfg = AlgoConfigBuilder::new()
        .individual_sample_size(scn.s)
        .num_concurrent(scn.c)
        .build()
        .expect("configuration");
    let sh = LShared(Arc::new(Mutex::new(LSh {
        min: f64::INFINITY,
        ..Default::default()
    })));
    let (mut cmd_tx, cmd_rx) = mpsc::channel::<Command>(16);
    let (rep_tx, mut rep_rx) = mpsc::channel::<DetailedReportItem>(4096);
    let want_first = scn.guess.clone().unwrap_or_else(|| rn.initial().json());
    let mut fut = Box::pin(async_launch::launch(
        spec,
        LObj {
            sh: sh.clone(),
            c: scn.c,
            s: scn.s,
            rn: rn.clone(),
        },
        cfg,
        cmd_rx,
        rep_tx,
        scn.n,
        scn.target,
        scn.guess.clone(),
    ));
    let flag = Arc::new(Flag(AtomicBool::new(true)));
    let waker: Waker = flag.clone().into();
    let n = scn.n.unwrap_or(usize::MAX);
    // evaluations started when the stop took effect, and the error that is due
    let mut stopped: Option<(usize, Option<String>)> = None;
    let (order, vals) = match &scn.driver {
        Driver::Script { order, vals } => (*order, vals.clone()),
        _ => panic!("light runs are scripted"),
    };
    let mut records = 0usize;
    let mut k = 0usize;
    let res = loop {
        let mut ready = None;
        let mut polls = 0u64;
        while flag.0.swap(false, Ordering::SeqCst) {
            polls += 1;
            if polls > 200_000 {
                out.viols.push(("*".into(), "the run spins without making progress".into()));
                return;
            }
            let mut cx = Context::from_waker(&waker);
            crate::explore::beat();
            if let Poll::Ready(r) = fut.as_mut().poll(&mut cx) {
                ready = Some(r);
                break;
            }
            if out.viols.len() > 5 {
                return;
            }
        }
        let mut g = sh.0.lock().unwrap();
        while let Ok(it) = rep_rx.try_recv() {
            records += 1;
            match g.done.remove(&it.seed) {
                None => out.viols.push((
                    "C14".into(),
                    format!("record of individual {} seed {} belongs to no finished evaluation", it.individual_id, it.seed),
                )),
                Some((id, v, o)) => {
                    if id != it.individual_id || v != it.input_val.to_string() || o != it.obj_func_val.map(f64::to_bits) {
                        out.viols.push(("C14".into(), format!("the record with seed {} does not describe its evaluation", it.seed)));
                    }
                }
            }
        }
        out.viols.append(&mut g.viols);
        let completed = g.accepted + g.rejected;
        if g.started > n {
            out.viols.push(("C03".into(), format!("{} evaluations started, the budget is {n}", g.started)));
        }
        if let Some(r) = ready {
            break r;
        }
        if out.viols.len() > 5 {
            return;
        }
        let due = scn.c.min(n - completed.min(n));
        if let Some((at, error)) = &stopped {
            let p = if error.is_some() { "C06" } else { "C04" };
            if g.started != *at {
                out.viols.push((p.into(), format!("{} evaluations were started after the stop", g.started - at)));
            }
            for l in &mut g.live {
                l.told |= l.rx.try_recv().is_ok();
            }
            if let Some(l) = g.live.iter().find(|l| !l.told) {
                out.viols.push((p.into(), format!("evaluation #{} is in progress and is not told to abort", l.no)));
            }
        } else if g.live.len() != due {
            out.viols.push((
                "C05".into(),
                format!("{} evaluations in progress after {completed}, {due} are due", g.live.len()),
            ));
        }
        if g.live.is_empty() {
            out.viols.push(("*".into(), "nothing is in progress and the run does not end: it hangs".into()));
            return;
        }
        let i = match order {
            Order::Fifo => 0,
            Order::Lifo => g.live.len() - 1,
            Order::Rot(r) => r % g.live.len(),
        };
        let o = match &vals {
            Vals::OfValue => Out::Val(of_value(&g.live[i].value)),
            Vals::Cycle(v) => v[k % v.len()],
            Vals::MinAt { p, shape } if k != *p => Out::Val(shape_val(*shape, k, 0)),
            Vals::MinAt { shape, .. } => Out::Val(least_val(*shape)),
            _ => Out::Val(-1.0),
        };
        k += 1;
        let mut o = o;
        let mut wake = true;
        match scn.light_stop {
            Some((at, LightStop::Terminate)) if at == k => {
                stopped = Some((g.started, None));
                cmd_tx.try_send(Command::Terminate).expect("command");
                wake = false;
            }
            Some((at, how)) if at == k => {
                o = if how == LightStop::Fail { Out::Fail } else { Out::NonFinite(f64::NAN) };
                let e = if how == LightStop::Fail {
                    format!("failure of evaluation {}", g.live[i].no)
                } else {
                    Error::ObjFuncValMustBeFinite.to_string()
                };
                stopped = Some((g.started, Some(e)));
            }
            _ => (),
        }
        if wake {
            g.live[i].out = Some(o);
            if let Some(w) = g.live[i].waker.take() {
                drop(g);
                w.wake();
            }
        }
        if k % 64 == 0 {
            let mut c = ctx.borrow_mut();
            c.steps += 64;
            c.states.push(hash64(&(&scn.name, k)));
        }
    };
    let g = sh.0.lock().unwrap();
    let mut viol = |p: &str, m: String| out.viols.push((p.into(), m));
    let hit = scn.target.map_or(false, |t| g.finals.iter().any(|f| f.0 <= t));
    let completed = g.accepted + g.rejected;
    if stopped.is_none() && !hit && (g.started != n || completed != n) {
        viol("C03", format!("{} evaluations started and {completed} completed, the budget is {n}", g.started));
    }
    if records != completed {
        viol("C14", format!("{records} records, {completed} evaluations were processed"));
    }
    if let Some((id, v)) = &g.first {
        if *v != want_first {
            viol("C08", format!("the first individual ({id}) is {v}, the initial value is {want_first}"));
        }
    }
    if let Some((_, error)) = &stopped {
        if !g.live.is_empty() {
            viol(if error.is_some() { "C06" } else { "C04" }, format!("the run returned with {} evaluations in progress", g.live.len()));
        }
    }
    let want_error = stopped.as_ref().and_then(|s| s.1.clone());
    match &res {
        Err(e) if want_error.is_some() => {
            if Some(e.to_string()) != want_error {
                viol("C06", format!("the first failure was {want_error:?}, the run reports {:?}", e.to_string()));
            }
        }
        Ok(_) if want_error.is_some() => viol("C06", "an evaluation failed but the run reports success".into()),
        Err(e) => {
            if !g.finals.is_empty() {
                if stopped.is_some() {
                    viol("C04", format!("{} completed individuals but the stopped run ends with error {e}", g.finals.len()));
                }
                viol("C02", format!("{} completed individuals but the run ends with error {e}", g.finals.len()));
            }
        }
        Ok(rep) => {
            if (rep.num_obj_func_eval_completed, rep.num_obj_func_eval_rejected) != (g.accepted, g.rejected) {
                viol(
                    "C14",
                    format!(
                        "the report counts {} completed and {} rejected, there were {} and {}",
                        rep.num_obj_func_eval_completed, rep.num_obj_func_eval_rejected, g.accepted, g.rejected
                    ),
                );
            }
            let shown = rep.to_string();
            for k in [g.accepted, g.rejected] {
                if !shown.split(|c: char| !c.is_ascii_digit()).any(|t| t == k.to_string()) {
                    viol("C14", format!("the report does not show the count {k}: {shown:?}"));
                }
            }
            if rep.num_obj_func_eval_completed + rep.num_obj_func_eval_rejected != n && !hit && stopped.is_none() {
                viol("C03", format!("the reported counts do not sum to the budget {n}"));
            }
            let b = &rep.best_seen;
            if let Err(e) = rn.conforms_json(&b.value, false) {
                viol("C01", format!("the reported best-seen value does not conform, {e}: {}", b.value));
            }
            let bs = b.value.to_string();
            if !g.finals.iter().any(|f| {
                f.1 == bs && (f.0 == b.obj_func_val || (scn.s > 1 && (f.0 - b.obj_func_val).abs() <= 1e-9 * f.0.abs()))
            }) {
                viol("C02", format!("best-seen {bs} with objective value {} is no completed individual of the run", b.obj_func_val));
            }
            if scn.s == 1 && b.obj_func_val > g.min {
                viol("C02", format!("best-seen objective {} though {} was returned", b.obj_func_val, g.min));
                if stopped.is_some() {
                    viol("C04", format!("best-seen objective {} though {} was returned", b.obj_func_val, g.min));
                }
            }
        }
    }
    out.trace = format!("{} {} {} {}", g.started, g.accepted, g.rejected, classify(&res));
    ctx.borrow_mut().outcome = Some(format!("{}: {:x}", scn.name, hash64(&out.trace)));
}

fn run_inner(
    scn: &Scn,
    ctx: &Rc<RefCell<Ctx>>,
    sh: &Shared,
    out: &mut RunOut,
    rng_active: &std::cell::Cell<bool>,
) {
    let spec = match spec_util::from_yaml_str(&scn.yaml) {
        Ok(s) => s,
        Err(e) => {
            out.viols.push(("C10".into(), format!("valid spec of scenario {} rejected: {e}", scn.name)));
            out.viols.push(("*".into(), format!("valid spec of scenario {} rejected: {e}", scn.name)));
            return;
        }
    };
    let rn = crate::refspec::parse_str(&scn.yaml).expect("catalogue spec");
    let cfg = match AlgoConfigBuilder::new()
        .individual_sample_size(scn.s)
        .num_concurrent(scn.c)
        .build()
    {
        Ok(c) => c,
        Err(e) => {
            out.viols.push(("*".into(), format!("valid configuration rejected: {e}")));
            return;
        }
    };
    let (mut cmd_tx, cmd_rx) = {
        let (a, b) = mpsc::channel::<Command>(16);
        (Some(a), b)
    };
    let (rep_tx, mut rep_rx) = mpsc::channel::<DetailedReportItem>(scn.chan.unwrap_or(1 << 16));
    let mut fut = Some(Box::pin(async_launch::launch(
        spec,
        Obj { sh: sh.clone() },
        cfg,
        cmd_rx,
        rep_tx,
        scn.n,
        scn.target,
        scn.guess.clone(),
    )));
    let flag = Arc::new(Flag(AtomicBool::new(true)));
    let waker: Waker = flag.clone().into();
    let mut items: Vec<DetailedReportItem> = Vec::new();
    let mut result: Option<Result<FinalReport, Error>> = None;
    let mut events = 0usize;
    let mut viols: Vec<(String, String)> = Vec::new();
    let mut term_left = scn.term;
    let mut term_batch_avail: Vec<usize> = Vec::new(); // available but not seen by the run when the first Terminate was sent
    let mut first_term_poll: Option<usize> = None;
    let mut told_checked = false;
    let mut hung_up = false;
    let mut late_end_reported = false;

    macro_rules! viol {
        ($p:expr, $($a:tt)*) => { viols.push(($p.to_string(), format!($($a)*))) };
    }

    loop {
        // poll to quiescence
        {
            let mut g = sh.0.lock().unwrap();
            g.poll_no += 1;
        }
        let mut polls = 0u64;
        while flag.0.swap(false, Ordering::SeqCst) {
            let mut cx = Context::from_waker(&waker);
            if let Some(f) = fut.as_mut() {
                crate::explore::beat();
                if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
                    result = Some(r);
                    fut = None;
                    break;
                }
            }
            if scn.chan.is_none() {
                while let Ok(item) = rep_rx.try_recv() {
                    items.push(item);
                }
            }
            polls += 1;
            if polls > 200_000 {
                viol!("*", "the run spins without making progress");
                break;
            }
        }
        if scn.chan.is_none() || result.is_some() {
            while let Ok(item) = rep_rx.try_recv() {
                items.push(item);
            }
        }
        let done = result.is_some();
        {
            let mut g = sh.0.lock().unwrap();
            g.log.push(Ev::PollEnd(done));
            // state of the exploration
            let st: Vec<(usize, u64, u8, bool)> = g
                .slots
                .iter()
                .map(|s| {
                    (
                        s.id,
                        match s.out {
                            Some(Out::Val(v)) => v.to_bits(),
                            Some(Out::Rej) => 1,
                            Some(Out::Fail) => 2,
                            Some(Out::NonFinite(_)) => 3,
                            None => 0,
                        },
                        s.ended as u8 | (s.dropped as u8) << 1,
                        s.told,
                    )
                })
                .collect();
            let h = hash64(&(&scn.name, st, g.term_sent, done, items.len()));
            let mut c = ctx.borrow_mut();
            c.states.push(h);
            c.steps += 1;
        }
        if viols.iter().any(|v| v.0 == "*") {
            break;
        }
        // ---- judgement at this quiescent point
        let g = sh.0.lock().unwrap();
        let m = Model::of(&g, scn, first_term_poll, &term_batch_avail);
        let inflight = g.in_flight();
        let clear = scn.chan.is_none() || items.len() >= m.completed;
        if let Some(n) = scn.n {
            if g.slots.len() > n {
                viol!("C03", "{} evaluations started, the budget is {}", g.slots.len(), n);
            }
        }
        for v in &g.conc_viol {
            viol!("C05", "{}", v);
        }
        for (p, v) in &m.viols {
            viol!(p, "{}", v);
        }
        if !done && clear {
            let remaining = scn.n.map_or(usize::MAX, |n| n - m.completed.min(n));
            if m.budget_used {
                viol!("C03", "the budget is used up but the run does not end");
            } else if m.target_hit && (inflight.is_empty() || scn.abort == Abort::Honour) {
                viol!("C04", "the target has been reached but the run does not end");
            } else if !m.target_hit && m.stopping() && inflight.is_empty() {
                let p = if m.failure.is_some() { "C06" } else { "C04" };
                viol!(p, "all in-flight evaluations have ended but the stopping run does not return");
            } else if !m.target_hit && !m.stopping() {
                let want = scn.c.min(remaining);
                if inflight.len() != want {
                    viol!(
                        "C05",
                        "{} evaluations in progress, {} are due (num_concurrent {}, remaining budget {})",
                        inflight.len(), want, scn.c, remaining as i64
                    );
                }
            }
            if inflight.is_empty() {
                viol!("*", "nothing is in progress and the run does not end: it hangs");
            }
            if m.stopping() && !m.target_hit && !m.budget_used {
                told_checked = true;
                for i in &inflight {
                    if !g.told(*i) {
                        let p = if m.failure.is_some() { "C06" } else { "C04" };
                        viol!(p, "in-flight evaluation #{i} is not told to abort");
                    }
                }
            }
        }
        if done && !late_end_reported {
            late_end_reported = true;
            let had_in_flight = m.ended_with_in_flight;
            if !m.target_hit && !m.budget_used {
                if m.stopping() {
                    if had_in_flight {
                        let p = if m.failure.is_some() { "C06" } else { "C04" };
                        viol!(p, "the run returned before its in-flight evaluations had ended");
                    }
                } else if !hung_up {
                    viol!(
                        "C03",
                        "the run ended ({}) though budget, target, failure and termination gave no reason to",
                        classify(result.as_ref().unwrap())
                    );
                    viol!(
                        "C05",
                        "the run ended ({}) though budget, target, failure and termination gave no reason to",
                        classify(result.as_ref().unwrap())
                    );
                }
            }
        }
        drop(g);
        if done || !viols.is_empty() {
            break;
        }
        if events >= scn.max_events {
            out.cut = true;
            break;
        }
        // ---- next events
        let mut any = false;
        for b in 0..scn.batch.max(1) {
            let g = sh.0.lock().unwrap();
            let cand: Vec<usize> = g
                .in_flight()
                .into_iter()
                .filter(|i| g.slots[*i].avail.is_none())
                .collect();
            drop(g);
            let in_prefix = match scn.driver {
                Driver::Prefix { n, .. } => {
                    let k = sh.0.lock().unwrap().completions;
                    if k + 1 >= n {
                        // what the last scripted completion brings about is explored
                        rng_active.set(true);
                    }
                    k < n
                }
                _ => false,
            };
            if in_prefix && b > 0 {
                break;
            }
            let driver = match &scn.driver {
                Driver::Prefix { vals, .. } if in_prefix => Driver::Script {
                    order: Order::Fifo,
                    vals: vals.clone(),
                },
                Driver::Prefix { .. } => Driver::Explore,
                d => d.clone(),
            };
            match &driver {
                Driver::Prefix { .. } => unreachable!(),
                Driver::Script { order, .. } => {
                    if cand.is_empty() {
                        break;
                    }
                    let slot = match order {
                        Order::Fifo => cand[0],
                        Order::Lifo => cand[cand.len() - 1],
                        Order::Rot(k) => cand[k % cand.len()],
                    };
                    let mut g = sh.0.lock().unwrap();
                    let vals = g.script.clone().unwrap();
                    let k = g.completions;
                    let o = scripted(&vals, k, &g, slot);
                    g.completions += 1;
                    deliver(&mut g, slot, o);
                    any = true;
                }
                Driver::Explore => {
                    let no = scn.outs.len();
                    let can_term = term_left > 0;
                    let can_drain = scn.chan.is_some() && {
                        let g = sh.0.lock().unwrap();
                        let done_n = g.slots.iter().filter(|s| s.ended && !s.out.unwrap().failing()).count();
                        done_n > items.len()
                    };
                    let total = cand.len() * no + can_term as usize + can_drain as usize;
                    if total == 0 {
                        break;
                    }
                    let k = if b == 0 {
                        ctx.borrow_mut().choose(total as u32) as usize
                    } else {
                        let k = ctx.borrow_mut().choose(total as u32 + 1) as usize;
                        if k == 0 {
                            break;
                        }
                        k - 1
                    };
                    any = true;
                    if k < cand.len() * no {
                        let mut g = sh.0.lock().unwrap();
                        let slot = cand[k / no];
                        deliver(&mut g, slot, scn.outs[k % no]);
                    } else if can_term && k == cand.len() * no {
                        term_left -= 1;
                        let mut g = sh.0.lock().unwrap();
                        if first_term_poll.is_none() {
                            first_term_poll = Some(g.poll_no + 1);
                            term_batch_avail = (0..g.slots.len())
                                .filter(|i| g.slots[*i].avail.is_some() && !g.slots[*i].ended)
                                .collect();
                        }
                        g.log.push(Ev::Term);
                        g.term_sent = true;
                        drop(g);
                        if let Some(tx) = cmd_tx.as_mut() {
                            if tx.try_send(Command::Terminate).is_err() {
                                viol!("*", "the command channel is closed while the run goes on");
                            }
                        }
                        if scn.hangup && term_left == 0 {
                            cmd_tx = None;
                            hung_up = true;
                            sh.0.lock().unwrap().log.push(Ev::Hangup);
                        }
                    } else {
                        let mut got = 0;
                        while let Ok(item) = rep_rx.try_recv() {
                            items.push(item);
                            got += 1;
                        }
                        sh.0.lock().unwrap().log.push(Ev::Drain(got));
                    }
                }
            }
        }
        if !any {
            // blocked for good?
            viol!("*", "no event is left and the run has not ended: it hangs");
            break;
        }
        events += 1;
    }
    let _ = told_checked;

    // ---- judgement of the whole run
    let log_polls;
    {
        let g = sh.0.lock().unwrap();
        let m = Model::of(&g, scn, first_term_poll, &term_batch_avail);
        m.judge_starts(&g, scn, &rn, &mut viols);
        if let Some(res) = &result {
            m.judge_result(&g, scn, &rn, res, &items, &mut viols);
        } else if out.cut {
            m.judge_items(&g, &items, &mut viols, false);
        }
        let mut t = String::new();
        for s in &g.slots {
            t += &format!(
                "{} {} {} {} {} {}\n",
                s.id, s.seed, s.value, s.told_at_start, s.ended, s.dropped
            );
        }
        for i in &items {
            t += &format!(
                "item {} {} {} {:?} {:?}\n",
                i.individual_id, i.seed, i.input_val, i.obj_func_val, i.meta_params_used
            );
        }
        let r = match &result {
            Some(r) => classify(r),
            None => "cut".into(),
        };
        t += &r;
        out.starts = g
            .slots
            .iter()
            .map(|s| (s.id, s.seed, s.value.to_string()))
            .collect();
        if let Some(Ok(rep)) = &result {
            out.best = Some((rep.best_seen.obj_func_val.to_bits(), rep.best_seen.value.to_string()));
        }
        let outcome = format!(
            "{}: {} started, {} told, {}",
            scn.name,
            g.slots.len(),
            g.slots.iter().filter(|s| s.told).count(),
            r
        );
        ctx.borrow_mut().outcome = Some(if scn.verbose_outcome {
            outcome
        } else {
            format!("{:x}", hash64(&outcome))
        });
        out.trace = t;
        log_polls = g.poll_no;
    }
    let _ = log_polls;
    drop(fut);
    out.viols.append(&mut viols);
}

fn deliver(g: &mut Sh, slot: usize, o: Out) {
    g.slots[slot].avail = Some(o);
    g.log.push(Ev::Avail(slot, o));
    if let Some(w) = g.slots[slot].waker.take() {
        w.wake();
    }
}

/// What the log so far means.
struct Model {
    completed: usize,
    accepted: usize,
    rejected: usize,
    /// (slot, position in the log) of the first failure that counts
    failure: Option<usize>,
    failure_candidates: Vec<usize>,
    ambiguous: bool,
    term: bool,
    target_hit: bool,
    target_before_failure: bool,
    budget_used: bool,
    ended_with_in_flight: bool,
    finals: Vec<(usize, f64, J)>,
    viols: Vec<(String, String)>,
}

impl Model {
    fn stopping(&self) -> bool {
        self.term || self.failure.is_some() || self.ambiguous
    }

    fn of(g: &Sh, scn: &Scn, first_term_poll: Option<usize>, before_term: &[usize]) -> Model {
        let mut m = Model {
            completed: 0,
            accepted: 0,
            rejected: 0,
            failure: None,
            failure_candidates: Vec::new(),
            ambiguous: false,
            term: false,
            target_hit: false,
            target_before_failure: false,
            budget_used: false,
            ended_with_in_flight: false,
            finals: Vec::new(),
            viols: Vec::new(),
        };
        let mut samples: BTreeMap<usize, Vec<f64>> = BTreeMap::new();
        let mut live: BTreeSet<usize> = BTreeSet::new();
        let mut last_not_dropped_live = 0;
        let mut poll_no = 1;
        for e in &g.log {
            match e {
                Ev::Start(i) => {
                    live.insert(*i);
                    if m.term {
                        m.viols.push((
                            "C04".into(),
                            format!("evaluation #{i} started after the termination request was delivered"),
                        ));
                    } else if m.target_hit {
                        m.viols.push((
                            "C04".into(),
                            format!("evaluation #{i} started after the target had been reached"),
                        ));
                    } else if m.failure.is_some() {
                        m.viols.push((
                            "C06".into(),
                            format!("evaluation #{i} started after a failure had been observed"),
                        ));
                    }
                }
                Ev::Ready(i) => {
                    let s = &g.slots[*i];
                    live.remove(i);
                    match s.out.unwrap() {
                        Out::Val(v) => {
                            m.completed += 1;
                            m.accepted += 1;
                            let l = samples.entry(s.id).or_default();
                            l.push(v);
                            if l.len() == scn.s {
                                let mean = l.iter().sum::<f64>() / l.len() as f64;
                                m.finals.push((s.id, if scn.s == 1 { v } else { mean }, s.value.clone()));
                                if scn.target.map_or(false, |t| mean <= t) && m.failure.is_none() {
                                    m.target_hit = true;
                                    m.target_before_failure = true;
                                }
                            }
                        }
                        Out::Rej => {
                            m.completed += 1;
                            m.rejected += 1;
                        }
                        Out::Fail | Out::NonFinite(_) => {
                            if m.target_hit {
                                // the run is over, or ought to be
                            } else if !m.term {
                                if m.failure.is_none() {
                                    m.failure = Some(*i);
                                    m.failure_candidates.push(*i);
                                } else if g.slots[m.failure.unwrap()].ready_in_poll == poll_no {
                                    m.failure_candidates.push(*i);
                                }
                            } else if m.failure.is_none()
                                && first_term_poll.is_some()
                                && before_term.contains(i)
                            {
                                // the failure was there first, the run saw both at once
                                m.ambiguous = true;
                                m.failure_candidates.push(*i);
                            }
                        }
                    }
                    if scn.n.map_or(false, |n| m.completed >= n) {
                        m.budget_used = true;
                    }
                }
                Ev::Dropped(i) => {
                    live.remove(i);
                    last_not_dropped_live += 1;
                }
                Ev::Term => m.term = true,
                Ev::PollEnd(_) => poll_no += 1,
                _ => (),
            }
        }
        if scn.n == Some(0) {
            m.budget_used = true;
        }
        m.ended_with_in_flight = last_not_dropped_live > 0 || !live.is_empty();
        m
    }

    fn judge_starts(&self, g: &Sh, scn: &Scn, rn: &RN, viols: &mut Vec<(String, String)>) {
        let mut viol = |p: &str, m: String| viols.push((p.into(), m));
        let mut seeds = BTreeMap::new();
        let mut by_id: BTreeMap<usize, (&J, usize)> = BTreeMap::new();
        for (i, s) in g.slots.iter().enumerate() {
            if let Err(e) = rn.conforms_json(&s.value, false) {
                viol(
                    "C01",
                    format!("evaluation #{i} got a non-conforming candidate, {e}: {}", s.value),
                );
            }
            if let Some(j) = seeds.insert(s.seed, i) {
                viol("C08", format!("evaluations #{j} and #{i} both got seed {}", s.seed));
            }
            let e = by_id.entry(s.id).or_insert((&s.value, 0));
            e.1 += 1;
            if *e.0 != s.value || e.0.to_string() != s.value.to_string() {
                viol(
                    "C08",
                    format!("individual {} was evaluated with {} and with {}", s.id, e.0, s.value),
                );
            }
            if e.1 > scn.s {
                viol(
                    "C08",
                    format!("individual {} evaluated {} times, the sample size is {}", s.id, e.1, scn.s),
                );
            }
            if s.told_at_start {
                viol("C04", format!("evaluation #{i} started after the abort request had been made"));
            }
        }
        if let Some((id, (v, _))) = by_id.iter().next() {
            let want = scn.guess.clone().unwrap_or_else(|| rn.initial().json());
            if **v != want {
                viol(
                    "C08",
                    format!("the first individual ({id}) is {v}, the initial value is {want}"),
                );
            }
            if let Some(s) = g.slots.first() {
                if s.value != want {
                    viol("C08", format!("the first evaluation got {}, the initial value is {want}", s.value));
                }
            }
        }
    }

    fn judge_items(
        &self,
        g: &Sh,
        items: &[DetailedReportItem],
        viols: &mut Vec<(String, String)>,
        complete: bool,
    ) {
        let mut viol = |m: String| viols.push(("C14".into(), m));
        let mut seen = BTreeSet::new();
        for it in items {
            let found = g.slots.iter().position(|s| s.seed == it.seed && s.id == it.individual_id && s.ended);
            match found {
                None => viol(format!(
                    "record of individual {} seed {} belongs to no finished evaluation",
                    it.individual_id, it.seed
                )),
                Some(i) => {
                    let s = &g.slots[i];
                    if !seen.insert(i) {
                        viol(format!("two records of evaluation #{i}"));
                    }
                    let want = match s.out.unwrap() {
                        Out::Val(v) => Some(v),
                        Out::Rej => None,
                        o => {
                            viol(format!("record of the failed evaluation #{i} ({o:?})"));
                            None
                        }
                    };
                    if want.map(f64::to_bits) != it.obj_func_val.map(f64::to_bits) {
                        viol(format!(
                            "record of evaluation #{i} has result {:?}, it returned {want:?}",
                            it.obj_func_val
                        ));
                    }
                    if it.input_val.to_string() != s.value.to_string() {
                        viol(format!(
                            "record of evaluation #{i} has value {}, it was given {}",
                            it.input_val, s.value
                        ));
                    }
                }
            }
            if let Some(mp) = &it.meta_params_used {
                for (n, p) in [
                    ("crossover probability", mp.crossover_params.crossover_prob),
                    ("selection pressure", mp.crossover_params.selection_pressure),
                    ("mutation probability", mp.mutation_params.mutation_prob),
                ] {
                    if !(0.0..=1.0).contains(&p) {
                        viol(format!("{n} {p} is outside [0,1]"));
                    }
                }
                let sc = mp.mutation_params.mutation_scale;
                if !(sc > 0.0 && sc.is_finite()) {
                    viol(format!("mutation scale {sc} is not positive and finite"));
                }
            }
        }
        if complete && items.len() != self.completed {
            viol(format!(
                "{} records, {} evaluations were processed",
                items.len(),
                self.completed
            ));
        }
    }

    fn judge_result(
        &self,
        g: &Sh,
        scn: &Scn,
        rn: &RN,
        res: &Result<FinalReport, Error>,
        items: &[DetailedReportItem],
        viols: &mut Vec<(String, String)>,
    ) {
        self.judge_items(g, items, viols, true);
        let mut viol = |p: &str, m: String| viols.push((p.into(), m));
        let natural_end = !self.target_hit && !self.stopping();
        if natural_end {
            if let Some(n) = scn.n {
                if g.slots.len() != n {
                    viol("C03", format!("{} evaluations started, the budget is {n}", g.slots.len()));
                }
            }
        }
        if let Ok(rep) = res {
            let (c, r) = (rep.num_obj_func_eval_completed, rep.num_obj_func_eval_rejected);
            if natural_end && scn.n.map_or(false, |n| c + r != n) {
                viol("C03", format!("completed {c} + rejected {r} is not the budget {:?}", scn.n));
            }
            if (c, r) != (self.accepted, self.rejected) {
                viol(
                    "C14",
                    format!(
                        "the report counts {c} completed and {r} rejected, there were {} and {}",
                        self.accepted, self.rejected
                    ),
                );
            }
            let b = &rep.best_seen;
            if let Err(e) = rn.conforms_json(&b.value, false) {
                viol("C01", format!("the reported best-seen value does not conform, {e}: {}", b.value));
            }
            let same = |a: f64, x: f64| {
                if scn.s == 1 {
                    a.to_bits() == x.to_bits()
                } else {
                    (a - x).abs() <= 1e-9 * x.abs().max(a.abs()) + 1e-300
                }
            };
            if !self
                .finals
                .iter()
                .any(|f| f.2 == b.value && same(b.obj_func_val, f.1))
            {
                viol(
                    "C02",
                    format!(
                        "best-seen {} with objective value {} is no completed individual of the run",
                        b.value, b.obj_func_val
                    ),
                );
            }
            if scn.s == 1 {
                if let Some(f) = self.finals.iter().find(|f| f.1 < b.obj_func_val) {
                    viol(
                        "C02",
                        format!("best-seen objective {} though individual {} returned {}", b.obj_func_val, f.0, f.1),
                    );
                    if self.term {
                        viol(
                            "C04",
                            format!("best-seen objective {} though individual {} returned {}", b.obj_func_val, f.0, f.1),
                        );
                    }
                }
            }
            if self.target_hit && self.failure.is_none() && scn.target.map_or(false, |t| !(b.obj_func_val <= t)) {
                viol(
                    "C04",
                    format!("the target {:?} was reached but the best-seen objective is {}", scn.target, b.obj_func_val),
                );
            }
        }
        // success or error?
        if let Some(f) = self.failure {
            let names: Vec<String> = self
                .failure_candidates
                .iter()
                .map(|i| match g.slots[*i].out.unwrap() {
                    Out::Fail => format!("failure of evaluation {i}"),
                    _ => Error::ObjFuncValMustBeFinite.to_string(),
                })
                .collect();
            match res {
                Ok(_) => viol("C06", format!("evaluation #{f} failed but the run reports success")),
                Err(e) => {
                    let s = e.to_string();
                    if !names.contains(&s) {
                        viol("C06", format!("the first failure was {names:?}, the run reports {s:?}"));
                    }
                }
            }
        } else if self.ambiguous || (self.target_hit && self.any_failing(g)) {
            // both endings are right
        } else {
            match (res, self.finals.is_empty()) {
                (Err(e), false) => {
                    let p = if self.term || self.target_hit { "C04" } else { "C02" };
                    viol(p, format!("{} completed individuals but the run ends with error {e}", self.finals.len()));
                    if p == "C04" && scn.s == 1 && matches!(e, Error::NoIndividuals) {
                        viol("C02", format!("{} completed individuals but the run ends with error {e}", self.finals.len()));
                    }
                }
                (Ok(_), true) => viol("C02", "a success report without any completed individual".into()),
                _ => (),
            }
        }
    }

    fn any_failing(&self, g: &Sh) -> bool {
        g.slots.iter().any(|s| s.out.map_or(false, |o| o.failing()))
    }
}

//! Engine B: whole runs on problems with a known optimum, over concurrency levels, completion orders,
//! rejections, order-preserving transforms of the objective and starting points.
use async_trait::async_trait;
use cambrian::async_launch;
use cambrian::error::Error;
use cambrian::message::Command;
use cambrian::meta::{AlgoConfigBuilder, AsyncObjectiveFunction};
use cambrian::spec_util;
use cambrian::verif::DetailedReportItem;
use futures::channel::mpsc;
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;
use vharness::common::{guarded, init_panic_hook, Args, Fragment};
use vharness::explore::{explore, hash64, Ctx, Limits};

type Obj = fn(&J) -> f64;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Goal {
    /// the distance from the optimum falls to this fraction of the initial one
    Factor(f64),
    /// the optimum itself
    Optimum,
}

#[derive(Clone)]
struct Problem {
    name: String,
    yaml: String,
    /// distance from the optimum, 0 there
    f: Obj,
    goal: Goal,
    budget: usize,
    guesses: Vec<J>,
    sample: usize,
}

fn nums(v: &J, out: &mut Vec<f64>) {
    match v {
        J::Number(n) => out.push(n.as_f64().unwrap()),
        J::Array(a) => a.iter().for_each(|x| nums(x, out)),
        J::Object(o) => o.values().for_each(|x| nums(x, out)),
        J::Bool(b) => out.push(*b as u8 as f64),
        _ => {}
    }
}
fn flat(v: &J) -> Vec<f64> {
    let mut o = Vec::new();
    nums(v, &mut o);
    o
}
fn keys(v: &J, k: &str) -> usize {
    v[k].as_object().map_or(0, |o| o.len())
}

fn sphere(v: &J) -> f64 {
    flat(v).iter().map(|x| x * x).sum()
}
fn taxi(v: &J) -> f64 {
    flat(v).iter().map(|x| x.abs()).sum()
}
fn maxabs(v: &J) -> f64 {
    flat(v).iter().fold(0.0, |a, x| a.max(x.abs()))
}
fn ellipse(v: &J) -> f64 {
    flat(v).iter().enumerate().map(|(i, x)| 100f64.powi(i as i32 % 2) * x * x).sum()
}
/// convex, not separable
fn coupled(v: &J) -> f64 {
    let x = flat(v);
    let s: f64 = x.iter().sum();
    x.iter().map(|x| x * x).sum::<f64>() + s * s
}
fn off_centre(v: &J) -> f64 {
    flat(v).iter().enumerate().map(|(i, x)| (x - 3.0 - i as f64).powi(2)).sum()
}
/// every number is M * 10^E
fn at<const M: i64, const E: i32>(v: &J) -> f64 {
    flat(v).iter().map(|x| (x - M as f64 * 10f64.powi(E)).powi(2)).sum()
}
fn low(v: &J) -> f64 {
    flat(v).iter().map(|x| x + 2.0).sum()
}
fn high(v: &J) -> f64 {
    flat(v).iter().map(|x| 7.0 - x).sum()
}
fn low_then_high(v: &J) -> f64 {
    flat(v).iter().enumerate().map(|(i, x)| if i % 2 == 0 { x + 2.0 } else { 7.0 - x }).sum()
}
fn grid(v: &J) -> f64 {
    flat(v).iter().enumerate().map(|(i, x)| (x - if i % 2 == 0 { 37.0 } else { -12.0 }).powi(2)).sum()
}
fn one_max(v: &J) -> f64 {
    let x = flat(v);
    x.len() as f64 - x.iter().sum::<f64>()
}
fn alternate(v: &J) -> f64 {
    flat(v).iter().enumerate().map(|(i, x)| if (i % 2) as f64 == *x { 0.0 } else { 1.0 }).sum()
}
fn size9(v: &J) -> f64 {
    (keys(v, "m") as f64 - 9.0).abs()
}
fn size1(v: &J) -> f64 {
    (keys(v, "m") as f64 - 1.0).abs()
}
/// five elements, each 10
fn five_tens(v: &J) -> f64 {
    let x = flat(v);
    (x.len() as f64 - 5.0).abs() * 50.0 + x.iter().map(|x| (x - 10.0).abs()).sum::<f64>()
}
fn pick(v: &J) -> f64 {
    // c best, then d, b, a; inside c the number matters
    let o = v["x"].as_object().unwrap();
    let (k, w) = o.iter().next().unwrap();
    match k.as_str() {
        "a" => 300.0,
        "b" => 200.0,
        "d" => 150.0,
        _ => (w["n"].as_f64().unwrap() - 12.0).abs(),
    }
}
fn plain_pick(v: &J) -> f64 {
    match v["x"].as_object().unwrap().keys().next().unwrap().as_str() {
        "a" => 2.0,
        "b" => 0.0,
        _ => 1.0,
    }
}
fn word(v: &J) -> f64 {
    // every letter at its place
    let want = ["d", "a", "c", "b", "d", "d"];
    v["w"].as_array().unwrap().iter().zip(want).map(|(a, b)| if a == b { 0.0 } else { 1.0 }).sum()
}
fn one_word(v: &J) -> f64 {
    ["e", "c", "a", "b", "d", "f"].iter().position(|w| v["w"] == *w).unwrap() as f64
}
fn presence(v: &J) -> f64 {
    // a present with 20, b absent
    let a = match &v["a"] {
        J::Null => 100.0,
        x => (x.as_f64().unwrap() - 20.0).abs(),
    };
    a + if v["b"].is_null() { 0.0 } else { 50.0 }
}
fn presences(v: &J) -> f64 {
    let a = v["o"].as_array().unwrap();
    a.iter().enumerate().map(|(i, x)| if x.is_null() == (i % 2 == 0) { 0.0 } else { 1.0 }).sum()
}
fn mixed(v: &J) -> f64 {
    let mut d = sphere(&v["r"]).sqrt() + (v["i"].as_f64().unwrap() + 40.0).abs();
    d += if v["b"] == true { 0.0 } else { 10.0 };
    d += if v["e"] == "z" { 0.0 } else { 10.0 };
    d += (keys(v, "m") as f64 - 4.0).abs() * 3.0;
    d
}

fn reals(n: usize, attrs: &str) -> String {
    (0..n).map(|i| format!("x{i}: {{type: real, {attrs}}}\n")).collect()
}
fn ints(n: usize, attrs: &str) -> String {
    (0..n).map(|i| format!("x{i}: {{type: int, {attrs}}}\n")).collect()
}
fn obj(n: usize, f: impl Fn(usize) -> f64) -> J {
    J::Object((0..n).map(|i| (format!("x{i}"), json!(f(i)))).collect())
}
fn obji(n: usize, f: impl Fn(usize) -> i64) -> J {
    J::Object((0..n).map(|i| (format!("x{i}"), json!(f(i)))).collect())
}

fn problems() -> Vec<Problem> {
    let mut l = Vec::new();
    let mut add = |name: &str, yaml: String, f: Obj, goal: Goal, budget: usize, guesses: Vec<J>| {
        l.push(Problem {
            name: name.into(),
            yaml,
            f,
            goal,
            budget,
            guesses,
            sample: 1,
        })
    };
    use Goal::*;
    for n in [1, 2, 3, 5, 10] {
        let b = 1500 * (n + 1);
        add(&format!("sphere, {n} reals"), reals(n, "init: 10, scale: 1"), sphere, Factor(1e-2), b, vec![obj(n, |i| -7.0 + i as f64 * 1.5)]);
        add(&format!("taxicab, {n} reals"), reals(n, "init: -3, scale: 2"), taxi, Factor(1e-1), b, vec![obj(n, |i| 4.0 - i as f64)]);
        add(&format!("off centre, {n} reals"), reals(n, "init: -20, scale: 5, min: -100, max: 100"), off_centre, Factor(1e-2), b, vec![obj(n, |_| 100.0)]);
    }
    add("largest coordinate, 3 reals", reals(3, "init: 10, scale: 1"), maxabs, Factor(1e-1), 6000, vec![obj(3, |i| i as f64 * 9.0 - 7.0)]);
    add("ellipse, 2 reals", reals(2, "init: 10, scale: 1"), ellipse, Factor(1e-2), 6000, vec![obj(2, |i| i as f64 * 9.0 - 7.0)]);
    add("ellipse, 4 reals", reals(4, "init: 10, scale: 1"), ellipse, Factor(1e-2), 10000, vec![obj(4, |i| i as f64 * 9.0 - 7.0)]);
    add("coupled, 3 reals", reals(3, "init: 10, scale: 1"), coupled, Factor(1e-2), 10000, vec![obj(3, |i| i as f64 * 9.0 - 7.0)]);
    for (n, e) in [(1, 2), (1, 4), (2, 3), (1, 6)] {
        add(&format!("far away, {n} reals, 1e{e}"), reals(n, &format!("init: 1.0e{e}, scale: 1")), sphere, Factor(1e-2), [6000, 15000, 30000, 60000][e as usize / 2], vec![obj(n, |_| -10f64.powi(e))]);
        add(&format!("tiny, {n} reals, 1e-{e}"), reals(n, &format!("init: 1.0e-{e}, scale: 1")), sphere, Factor(1e-2), 60000, vec![obj(n, |_| -(10f64.powi(-e)))]);
        add(&format!("small scale, {n} reals, 1e-{e}"), reals(n, &format!("init: 1.0e-{e}, scale: 1.0e-{e}")), sphere, Factor(1e-2), 6000, vec![]);
        add(&format!("large scale, {n} reals, 1e{e}"), reals(n, &format!("init: 1.0e{e}, scale: 1.0e{e}")), sphere, Factor(1e-2), 6000, vec![]);
    }
    for n in [1, 2, 4] {
        let b = 1500 * (n + 1);
        let g = vec![obj(n, |_| -1.5), obj(n, |_| 6.5)];
        add(&format!("lower bound, {n} reals"), reals(n, "init: 3, scale: 1, min: -2, max: 7"), low, Factor(1e-2), b, g.clone());
        add(&format!("upper bound, {n} reals"), reals(n, "init: 3, scale: 1, min: -2, max: 7"), high, Factor(1e-2), b, g.clone());
        add(&format!("both bounds, {n} reals"), reals(n, "init: 3, scale: 1, min: -2, max: 7"), low_then_high, Factor(1e-2), b, g);
        let gi = vec![obji(n, |_| -1), obji(n, |_| 6)];
        add(&format!("lower bound, {n} ints"), ints(n, "init: 3, scale: 1, min: -2, max: 7"), low, Optimum, b, gi.clone());
        add(&format!("upper bound, {n} ints"), ints(n, "init: 3, scale: 1, min: -2, max: 7"), high, Optimum, b, gi.clone());
        add(&format!("both bounds, {n} ints"), ints(n, "init: 3, scale: 1, min: -2, max: 7"), low_then_high, Optimum, b, gi);
        add(&format!("grid, {n} ints"), ints(n, "init: 0, scale: 10, min: -50, max: 50"), grid, Optimum, [b, 2 * b, 8 * b][n / 2], vec![obji(n, |i| if i % 2 == 0 { -50 } else { 50 })]);
        add(&format!("unbounded grid, {n} ints"), ints(n, "init: 500, scale: 1"), grid, Optimum, 3 * b, vec![obji(n, |_| -300)]);
    }
    for n in [4, 8, 16, 32] {
        let y = |init: &str| format!("type: array\nsize: {n}\nvalueType: {{type: bool, init: {init}}}\n");
        let alt = J::Array((0..n).map(|i| json!(i % 2 == 0)).collect());
        add(&format!("one-max, {n}"), y("false"), one_max, Optimum, 1000 * n, vec![]);
        add(&format!("alternating, {n}"), y("true"), alternate, Optimum, 1000 * n, vec![alt]);
    }
    add("map of 9, from 1", "m: {type: anon map, initSize: 1, valueType: {type: const}}\n".into(), size9, Optimum, 2000, vec![]);
    add("map of 9, from 0", "m: {type: anon map, initSize: 0, valueType: {type: bool, init: true}}\n".into(), size9, Optimum, 2000, vec![]);
    add("map of 9, from 25", "m: {type: anon map, initSize: 25, valueType: {type: int, init: 1, scale: 1}}\n".into(), size9, Optimum, 4000, vec![]);
    add("map of 9, the maximum", "m: {type: anon map, initSize: 3, maxSize: 9, valueType: {type: real, init: 1, scale: 1}}\n".into(), size9, Optimum, 2000, vec![]);
    add("map of 1, the minimum", "m: {type: anon map, initSize: 6, minSize: 1, valueType: {y: {type: const}}}\n".into(), size1, Optimum, 2000, vec![json!({"m": {"3": {"y": null}}})]);
    // further away from 0 than where the run starts
    for n in [1, 2] {
        for (name, f, e) in [("3e3", at::<3, 3> as Obj, 3), ("-3e3", at::<-3, 3>, 3), ("3e7", at::<3, 7>, 7), ("-3e7", at::<-3, 7>, 7), ("3e15", at::<3, 15>, 15), ("-3e15", at::<-3, 15>, 15)] {
            for sign in ["", "-"] {
                add(&format!("outwards to {name} from {sign}1e{e}, {n} reals"), reals(n, &format!("init: {sign}1.0e{e}, scale: 1.0e{e}")), f, Factor(1e-2), 6000, vec![]);
                add(&format!("outwards to {name} from {sign}1e{e}, {n} ints"), ints(n, &format!("init: {sign}1{}, scale: 1.0e{e}", "0".repeat(e))), f, Factor(1e-2), 6000, vec![]);
            }
        }
    }
    add("five tens", "type: anon map\ninitSize: 1\nvalueType: {type: int, init: 0, scale: 3}\n".into(), five_tens, Factor(0.05), 12000, vec![]);
    add("variant of four", "x:\n  type: variant\n  init: a\n  a: {type: const}\n  b: {type: bool, init: true}\n  c: {n: {type: int, init: 0, scale: 2}}\n  d: {type: real, init: 1, scale: 1}\n".into(), pick, Optimum, 6000, vec![json!({"x": {"d": 2.0}}), json!({"x": {"c": {"n": -30}}})]);
    add("variant of three", "x:\n  type: variant\n  init: a\n  a: {type: const}\n  b: {type: const}\n  c: {type: const}\n".into(), plain_pick, Optimum, 600, vec![json!({"x": {"c": null}})]);
    add("one enum", "w: {type: enum, values: [a, b, c, d, e, f], init: f}\n".into(), one_word, Optimum, 1000, vec![json!({"w": "a"})]);
    add("six enums", "w:\n  type: array\n  size: 6\n  valueType: {type: enum, values: [a, b, c, d], init: a}\n".into(), word, Optimum, 10000, vec![json!({"w": ["b", "b", "b", "b", "b", "b"]})]);
    add("optionals", "a: {type: optional, initPresent: false, valueType: {type: int, init: 0, scale: 3}}\nb: {type: optional, initPresent: true, valueType: {type: bool, init: true}}\n".into(), presence, Optimum, 8000, vec![json!({"a": 50, "b": false})]);
    add("eight optionals", "o:\n  type: array\n  size: 8\n  valueType: {type: optional, initPresent: true, valueType: {type: real, init: 1, scale: 1}}\n".into(), presences, Optimum, 5000, vec![]);
    add("mixed", "r: [x]\n".replace("[x]", "{a: {type: real, init: 9, scale: 1}, b: {type: real, init: -9, scale: 1}}") + "i: {type: int, init: 0, scale: 4}\nb: {type: bool, init: false}\ne: {type: enum, values: [x, y, z], init: x}\nm: {type: anon map, initSize: 0, valueType: {type: const}}\n", mixed, Factor(0.05), 12000, vec![]);
    let more: Vec<Problem> = l
        .iter()
        .filter(|p| ["sphere, 2 reals", "one-max, 8", "lower bound, 2 ints", "variant of three", "one enum", "map of 9, from 1"].contains(&p.name.as_str()))
        .map(|p| Problem {
            name: format!("{}, sample size 3", p.name),
            sample: 3,
            budget: p.budget * 4,
            ..p.clone()
        })
        .collect();
    l.extend(more);
    l
}

const CONC: &[usize] = &[1, 4, 2, 9];
const ORDERS: &[&str] = &["first started", "last started", "rotating", "first and last in turn"];
const TRANSFORMS: &[&str] = &["plain", "times 1e-9", "times 1e9", "-1/(1+x)", "minus 1e6"];
const REJECT: &[usize] = &[0, 4];

fn transform(k: usize, d: f64) -> f64 {
    match k {
        0 => d,
        1 => d * 1e-9,
        2 => d * 1e9,
        3 => -1.0 / (1.0 + d),
        _ => d - 1e6,
    }
}

struct Slot {
    no: usize,
    dist: f64,
    out: Option<Option<f64>>,
    waker: Option<Waker>,
}
#[derive(Default)]
struct Sh {
    live: Vec<Slot>,
    started: usize,
}
struct Fun {
    sh: Arc<Mutex<Sh>>,
    f: Obj,
}
struct Fut {
    sh: Arc<Mutex<Sh>>,
    no: usize,
}
impl Future for Fut {
    type Output = Result<Option<f64>, Error>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut g = self.sh.lock().unwrap();
        let i = g.live.iter().position(|l| l.no == self.no).expect("polled after its end");
        match g.live[i].out {
            None => {
                g.live[i].waker = Some(cx.waker().clone());
                Poll::Pending
            }
            Some(o) => {
                g.live.remove(i);
                Poll::Ready(Ok(o))
            }
        }
    }
}
#[async_trait]
impl AsyncObjectiveFunction for Fun {
    async fn evaluate(&self, value: J, _: async_broadcast::Receiver<()>, _: u64, _: usize) -> Result<Option<f64>, Error> {
        let no = {
            let mut g = self.sh.lock().unwrap();
            let no = g.started;
            g.started += 1;
            let dist = (self.f)(&value);
            g.live.push(Slot {
                no,
                dist,
                out: None,
                waker: None,
            });
            no
        };
        Fut {
            sh: self.sh.clone(),
            no,
        }
        .await
    }
}

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

struct Outcome {
    start: f64,
    best: f64,
    /// evaluations until the goal was reached
    needed: Option<usize>,
    result: Option<Result<f64, String>>,
}

#[derive(Clone, Copy, Debug)]
struct How {
    c: usize,
    order: usize,
    tr: usize,
    rej: usize,
    /// do not stop at the goal
    whole: bool,
}

fn run(p: &Problem, guess: Option<J>, h: How) -> Outcome {
    let spec = spec_util::from_yaml_str(&p.yaml).expect("spec");
    let cfg = AlgoConfigBuilder::new().individual_sample_size(p.sample).num_concurrent(h.c).build().expect("configuration");
    let sh = Arc::new(Mutex::new(Sh::default()));
    let (_cmd_tx, cmd_rx) = mpsc::channel::<Command>(16);
    let (rep_tx, mut rep_rx) = mpsc::channel::<DetailedReportItem>(4096);
    let mut fut = Box::pin(async_launch::launch(
        spec,
        Fun {
            sh: sh.clone(),
            f: p.f,
        },
        cfg,
        cmd_rx,
        rep_tx,
        Some(p.budget),
        None,
        guess,
    ));
    let flag = Arc::new(Flag(AtomicBool::new(true)));
    let waker: Waker = flag.clone().into();
    let mut o = Outcome {
        start: f64::NAN,
        best: f64::INFINITY,
        needed: None,
        result: None,
    };
    let mut k = 0;
    loop {
        while flag.0.swap(false, Ordering::SeqCst) {
            let mut cx = Context::from_waker(&waker);
            if let Poll::Ready(r) = fut.as_mut().poll(&mut cx) {
                o.result = Some(r.map(|r| (p.f)(&r.best_seen.value)).map_err(|e| e.to_string()));
                return o;
            }
        }
        while rep_rx.try_recv().is_ok() {}
        let mut g = sh.lock().unwrap();
        if g.live.is_empty() {
            return o;
        }
        if o.start.is_nan() {
            o.start = g.live[0].dist;
        }
        let n = g.live.len();
        
        let i = match h.order {
            0 => 0,
            1 => n - 1,
            2 => k % n,
            _ => [0, n - 1][k % 2],
        };
        let d = g.live[i].dist;
        // the first individual is never rejected
        let out = if h.rej > 0 && k > 0 && k % h.rej == 0 { None } else { Some(transform(h.tr, d)) };
        k += 1;
        if out.is_some() && d < o.best {
            o.best = d;
            let reached = match p.goal {
                Goal::Factor(f) => d <= o.start * f,
                Goal::Optimum => d == 0.0,
            };
            if reached && o.needed.is_none() {
                o.needed = Some(k);
                if !h.whole {
                    return o;
                }
            }
        }
        g.live[i].out = Some(out);
        if let Some(w) = g.live[i].waker.take() {
            drop(g);
            w.wake();
        }
    }
}

fn main() {
    let args = Args::parse();
    init_panic_hook();
    let th = args.thorough();
    let mut frag = Fragment::new(&args);
    if args.property != "C17" {
        frag.finish();
        return;
    }
    let probs = problems();
    let worst: Mutex<Vec<usize>> = Mutex::new(vec![0; probs.len()]);
    let exec = |ctx: &Rc<RefCell<Ctx>>| -> Vec<(String, String)> {
        let choose = |n: usize| ctx.borrow_mut().choose(n as u32) as usize;
        let pi = choose(probs.len());
        let p = &probs[pi];
        let gi = choose(p.guesses.len() + 1);
        let c = CONC[choose(if th { CONC.len() } else { 2 })];
        let order = if c == 1 { 0 } else { choose(if th { ORDERS.len() } else { 3 }) };
        // tiny distances would drown in the constant of the last two
        let fine = p.name.starts_with("tiny") || p.name.starts_with("small scale");
        let tr = choose(if fine { 3 } else if th { TRANSFORMS.len() } else { 4 });
        let rej = REJECT[choose(REJECT.len())];
        let h = How {
            c,
            order,
            tr,
            rej,
            whole: tr == 0 && rej == 0 && order == 0,
        };
        let guess = if gi == 0 { None } else { Some(p.guesses[gi - 1].clone()) };
        let what = format!("{}, guess {guess:?}, {} concurrent, {} ends first, objective {}, {}", p.name, c, ORDERS[order], TRANSFORMS[tr], if rej == 0 { "no rejections".into() } else { format!("every {rej}th rejected") });
        let r = guarded(|| run(p, guess, h));
        let mut v = Vec::new();
        let mut viol = |m: String| v.push(("C17".to_string(), format!("{what}: {m}")));
        match r {
            Err(m) => viol(format!("panic: {m}")),
            Ok(o) => {
                ctx.borrow_mut().note = vec![what.clone(), format!("start {} best {} needed {:?} of {} result {:?}", o.start, o.best, o.needed, p.budget, o.result)];
                let mut cx = ctx.borrow_mut();
                cx.steps += o.needed.unwrap_or(p.budget) as u64;
                cx.states.push(hash64(&(&what, o.needed)));
                drop(cx);
                match o.needed {
                    None => viol(format!("the best of {} evaluations is {} from the optimum, the initial value was {}, the goal is {:?}", p.budget, o.best, o.start, p.goal)),
                    Some(k) => {
                        let mut w = worst.lock().unwrap();
                        w[pi] = w[pi].max(k);
                    }
                }
                // an individual of which not every sample was taken does not count
                let ok = |d: f64| match p.goal {
                    Goal::Factor(f) => d <= o.start * f,
                    Goal::Optimum => d == 0.0,
                };
                match &o.result {
                    Some(Err(e)) => viol(format!("the run ends with error {e}")),
                    Some(Ok(d)) if o.needed.is_some() && !ok(*d) => viol(format!("the reported value is {d} from the optimum, {} was seen", o.best)),
                    _ => {}
                }
            }
        }
        v
    };
    if let Some(ch) = &args.replay {
        let ctx = Rc::new(RefCell::new(Ctx::with_prefix(ch.clone())));
        let v = exec(&ctx);
        for n in &ctx.borrow().note {
            println!("{n}");
        }
        for x in &v {
            println!("VIOLATED {}: {}", x.0, x.1);
        }
        std::process::exit(!v.is_empty() as i32);
    }
    let st = explore(
        (0..probs.len() as u32).map(|i| vec![i]).collect(),
        &Limits {
            deviations: None,
            wall: Duration::from_secs_f64(args.wall),
            threads: args.threads,
        },
        Duration::from_secs(120),
        |choices| Fragment::hang(&args, "battery", choices),
        exec,
    );
    let w = worst.lock().unwrap().clone();
    frag.note(
        "most evaluations needed, of the budget",
        J::Object(probs.iter().zip(&w).map(|(p, w)| (p.name.clone(), json!([w, p.budget]))).collect()),
    );
    if std::env::var("VHARNESS_SHOW").is_ok() {
        for (p, w) in probs.iter().zip(&w) {
            eprintln!("{:40} {w:6} of {:6} {:.3}", p.name, p.budget, *w as f64 / p.budget as f64);
        }
    }
    frag.add("battery", st);
    frag.finish();
    if frag.failed() {
        for (n, st) in &frag.parts {
            for v in st.violations.iter().take(8) {
                eprintln!("{n}: {}: {} {:?}", v.property, v.message, v.choices);
            }
        }
        std::process::exit(1);
    }
}

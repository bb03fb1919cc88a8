//! Engine R: schedules of whole runs.
use serde_json::json;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::Mutex;
use std::time::Duration;
use vharness::catalog;
use vharness::common::{init_panic_hook, Args, Fragment};
use vharness::explore::{explore, hash64, Ctx, Limits, Stats};
use vharness::rngctl::{Base, Policy};
use vharness::runner::{run, Abort, Driver, LightStop, Order, Out, Scn, Vals, SPEC1};

const LO: Out = Out::Val(-3.5);
const MID: Out = Out::Val(1.0);
const HI: Out = Out::Val(2.25);

struct Part {
    name: &'static str,
    scns: Vec<Scn>,
    deviations: Option<u32>,
    /// every execution twice
    twice: bool,
    /// every execution again with logging enabled
    logged: bool,
}

fn part(name: &'static str, scns: Vec<Scn>) -> Part {
    Part {
        name,
        scns,
        deviations: Some(2),
        twice: false,
        logged: false,
    }
}

/// Everything up to the horizon: budgets, outcomes, completion orders.
fn budget(th: bool) -> Vec<Scn> {
    let mut v = Vec::new();
    for c in 1..=(if th { 4 } else { 3 }) {
        for n in 0..=(if th { 5 } else { 4 }) {
            let mut s = Scn::new(&format!("budget c={c} N={n}"));
            s.c = c;
            s.n = Some(n);
            s.outs = vec![LO, HI, Out::Rej];
            if c * n >= 12 {
                s.outs = vec![LO, Out::Rej];
            }
            s.batch = if c > 1 && n <= 4 { 2 } else { 1 };
            v.push(s.clone());
            if n > 0 {
                s.name += " immediate";
                s.imm = true;
                s.batch = 1;
                if c * n > 6 {
                    s.outs = vec![LO, Out::Rej];
                }
                v.push(s);
            }
        }
    }
    v
}

fn ties() -> Vec<Scn> {
    let mut v = Vec::new();
    for c in 1..=2 {
        let mut s = Scn::new(&format!("ties c={c}"));
        s.c = c;
        s.n = Some(4);
        s.outs = vec![Out::Val(0.0), Out::Val(-0.0), Out::Val(1e300), Out::Val(-1e300)];
        if c == 2 {
            s.outs.truncate(3);
        }
        v.push(s);
    }
    v
}

/// Terminate at every point, alone or together with completions; all ways to answer the abort request.
fn terminate(level: u8) -> Vec<Scn> {
    let th = level == 2;
    let mut v = Vec::new();
    for c in 1..=3 {
        for (ab, abn) in [(Abort::Honour, "honour"), (Abort::Ignore, "ignore"), (Abort::Late, "late")] {
            for n in [None, Some(3)] {
                for hangup in [false, true] {
                    let mut s = Scn::new(&format!("terminate c={c} N={n:?} {abn} hangup={hangup}"));
                    s.c = c;
                    s.n = n;
                    s.abort = ab;
                    s.hangup = hangup;
                    s.term = 1;
                    s.outs = vec![LO, HI, Out::Rej];
                    if c == 3 {
                        s.outs = vec![LO, HI];
                    }
                    if n.is_none() && !(c == 1) {
                        s.outs = vec![LO, Out::Rej];
                    }
                    s.batch = if hangup || (n.is_none() && c == 3) { 1 } else { 2 };
                    if th {
                        s.batch = if c < 3 { 3 } else { 2 };
                    }
                    if level == 0 && (c == 3 || n.is_none()) {
                        s.batch = 1;
                    }
                    s.max_events = if n.is_some() { 12 } else { 3 + c + th as usize };
                    v.push(s);
                }
            }
        }
        let mut s = Scn::new(&format!("terminate twice c={c}"));
        s.c = c;
        s.n = Some(4);
        s.term = 2;
        s.abort = Abort::Late;
        s.outs = vec![LO, Out::Rej];
        s.batch = if level == 0 { 1 } else { 2 };
        s.max_events = 8;
        v.push(s);
        // evaluations that complete at once
        let mut s = Scn::new(&format!("terminate immediate c={c}"));
        s.c = c;
        s.n = Some(4);
        s.term = 1;
        s.imm = true;
        s.outs = vec![LO, Out::Rej];
        s.max_events = 8;
        v.push(s);
        // failures after the request
        let mut s = Scn::new(&format!("terminate then fail c={c}"));
        s.c = c;
        s.n = Some(3);
        s.term = 1;
        s.abort = Abort::Late;
        s.outs = vec![LO, Out::Fail];
        s.batch = 2;
        s.max_events = 8;
        v.push(s);
        // a writer that is slow to take the records
        let mut s = Scn::new(&format!("terminate slow writer c={c}"));
        s.c = c;
        s.n = Some(3);
        s.term = 1;
        s.chan = Some(0);
        s.outs = vec![LO, HI];
        s.batch = 1;
        s.max_events = 10;
        v.push(s);
    }
    v
}

fn target(th: bool) -> Vec<Scn> {
    let mut v = Vec::new();
    for c in 1..=3 {
        for (ab, abn) in [(Abort::Honour, "honour"), (Abort::Ignore, "ignore")] {
            for t in [1.0, -3.5, 0.0] {
                let mut s = Scn::new(&format!("target {t} c={c} {abn}"));
                s.c = c;
                s.n = Some(4);
                s.target = Some(t);
                s.abort = ab;
                s.outs = vec![LO, HI, Out::Rej];
                if c == 3 {
                    s.outs = vec![LO, HI];
                }
                s.batch = 2;
                v.push(s.clone());
                if t == 1.0 {
                    let mut s2 = s.clone();
                    s2.name += " immediate";
                    s2.imm = true;
                    s2.batch = 1;
                    s2.outs = vec![MID, HI];
                    v.push(s2);
                    let mut s3 = s.clone();
                    s3.name += " no budget";
                    s3.n = None;
                    s3.outs = vec![MID, Out::Rej];
                    s3.max_events = 4 + th as usize;
                    s3.term = 1;
                    v.push(s3);
                    let mut s4 = s.clone();
                    s4.name += " with failures";
                    s4.outs = vec![MID, HI, Out::Fail];
                    s4.batch = 2;
                    s4.n = Some(3);
                    v.push(s4);
                    let mut s5 = s;
                    s5.name += " slow writer";
                    s5.chan = Some(0);
                    s5.outs = vec![MID, HI];
                    s5.n = Some(3);
                    s5.batch = 1;
                    s5.max_events = 10;
                    v.push(s5);
                }
            }
        }
    }
    // zero-signed targets
    let mut s = Scn::new("target -0 c=1");
    s.n = Some(3);
    s.target = Some(-0.0);
    s.outs = vec![Out::Val(0.0), HI];
    v.push(s);
    v
}

fn failures(th: bool) -> Vec<Scn> {
    let mut v = Vec::new();
    let kinds = [
        Out::Fail,
        Out::NonFinite(f64::NAN),
        Out::NonFinite(f64::INFINITY),
        Out::NonFinite(f64::NEG_INFINITY),
    ];
    for c in 1..=3 {
        for (ab, abn) in [(Abort::Honour, "honour"), (Abort::Ignore, "ignore"), (Abort::Late, "late")] {
            for (ki, k) in kinds.iter().enumerate() {
                if ki >= 2 && ab != Abort::Honour {
                    continue;
                }
                let mut s = Scn::new(&format!("failure {k:?} c={c} {abn}"));
                s.c = c;
                s.n = if ki == 0 { Some(4) } else { Some(3) };
                s.abort = ab;
                s.outs = if ki == 0 { vec![LO, Out::Rej, *k] } else { vec![LO, *k] };
                if c == 3 {
                    s.outs = vec![LO, *k];
                }
                s.batch = if ki == 0 || th { 2 } else { 1 };
                v.push(s);
            }
            let mut s = Scn::new(&format!("failures of two kinds c={c} {abn}"));
            s.c = c;
            s.n = Some(3);
            s.abort = ab;
            s.outs = vec![LO, Out::Fail, Out::NonFinite(f64::NAN)];
            s.batch = 2;
            v.push(s);
        }
        let mut s = Scn::new(&format!("failure immediate c={c}"));
        s.c = c;
        s.n = Some(3);
        s.imm = true;
        s.outs = vec![LO, Out::Fail];
        v.push(s);
        let mut s = Scn::new(&format!("failure and terminate c={c}"));
        s.c = c;
        s.n = Some(4);
        s.term = 1;
        s.abort = Abort::Late;
        s.outs = vec![LO, Out::Fail];
        s.batch = 2;
        s.max_events = 9;
        v.push(s);
        let mut s = Scn::new(&format!("failure without budget c={c}"));
        s.c = c;
        s.n = None;
        s.outs = vec![LO, Out::Fail];
        s.abort = Abort::Late;
        s.max_events = 4 + c;
        v.push(s);
        let mut s = Scn::new(&format!("failure slow writer c={c}"));
        s.c = c;
        s.n = Some(3);
        s.chan = Some(0);
        s.outs = vec![LO, Out::Fail];
        s.max_events = 10;
        v.push(s);
        let mut s = Scn::new(&format!("failure target c={c}"));
        s.c = c;
        s.n = Some(4);
        s.target = Some(0.0);
        s.abort = Abort::Late;
        s.outs = vec![LO, HI, Out::Fail];
        if c == 3 {
            s.outs = vec![LO, Out::Fail];
        }
        s.batch = 2;
        v.push(s);
    }
    v
}

/// Sample size > 1: a scripted prefix fills the population, then schedules and the choices
/// "re-evaluate or create" are explored.
fn sampling(th: bool) -> Vec<Scn> {
    let mut v = Vec::new();
    for s_size in [2, 3] {
        for c in 1..=3usize {
            // without re-evaluation
            let mut s = Scn::new(&format!("sampling s={s_size} c={c} short"));
            s.s = s_size;
            s.c = c;
            s.n = Some(3);
            s.outs = vec![LO, HI, Out::Rej];
            v.push(s);
            for (vi, vals) in [
                Vals::MinAt { p: 5, shape: 0 },
                Vals::MinAt { p: 19, shape: 3 },
                Vals::MinAt { p: 2, shape: 2 },
            ]
            .into_iter()
            .enumerate()
            {
                if vi == 2 && !th {
                    continue;
                }
                for term in [0u8, 1] {
                    let mut s = Scn::new(&format!("sampling s={s_size} c={c} prefix {vals:?} term={term}"));
                    s.s = s_size;
                    s.c = c;
                    let extra = if c == 1 { 4 } else { 3 } + (th && c < 3) as usize;
                    s.n = Some(20 + c + extra - 1);
                    s.driver = Driver::Prefix {
                        n: 20 + c - 1,
                        vals: vals.clone(),
                    };
                    s.outs = vec![LO, Out::Val(500.0), Out::Rej];
                    if c >= 2 {
                        s.outs = vec![LO, Out::Val(500.0)];
                    }
                    s.term = term;
                    s.abort = if term == 1 { Abort::Late } else { Abort::Honour };
                    s.policy = Policy::RealDev;
                    s.menu = 1;
                    s.horizon = 12;
                    s.max_events = 20 + c + extra + 6;
                    v.push(s);
                }
            }
            let mut s = Scn::new(&format!("sampling s={s_size} c={c} target"));
            s.s = s_size;
            s.c = c;
            s.n = Some(20 + c + 3);
            s.target = Some(0.0);
            s.driver = Driver::Prefix {
                n: 20 + c - 1,
                vals: Vals::MinAt { p: 5, shape: 0 },
            };
            s.outs = vec![LO, Out::Val(500.0)];
            s.policy = Policy::RealDev;
            s.menu = 1;
            s.horizon = 12;
            s.max_events = 40;
            v.push(s);
        }
    }
    v
}

/// Runs longer than the population cap; the minimum at every position.
fn long_min(th: bool) -> Vec<Scn> {
    let mut v = Vec::new();
    let n = if th { 260 } else { 130 };
    for p in 0..n {
        for shape in if th { (0..=9).collect::<Vec<u8>>() } else { vec![0, 1, 2, 3, 6, 7, 8, 9] } {
            for (c, order) in [(1, Order::Fifo), (3, Order::Lifo), (4, Order::Rot(2))] {
                if !th && (p + shape as usize) % 3 != [1, 3, 4].iter().position(|x| *x == c).unwrap() {
                    continue;
                }
                let mut s = Scn::new(&format!("long min at {p} of {n} shape {shape} c={c} {order:?}"));
                s.c = c;
                s.n = Some(n);
                s.max_events = usize::MAX;
                s.verbose_outcome = false;
                s.driver = Driver::Script {
                    order,
                    vals: if p % 2 == 0 {
                        Vals::MinAt { p, shape }
                    } else {
                        Vals::MinAtRej {
                            p,
                            shape,
                            m: 5,
                            r: p % 5,
                        }
                    },
                };
                v.push(s);
            }
        }
    }
    // the same far past the population's limit: few places for the least value, all shapes
    let n = if th { 2500 } else { 700 };
    for (i, p) in [0, 1, 37, n / 2, n - 1].into_iter().enumerate() {
        for shape in 0..=9u8 {
            for (c, order) in [(1, Order::Fifo), (4, Order::Rot(2))] {
                if !th && i != 0 && (i + shape as usize + c) % 2 == 0 {
                    continue;
                }
                let mut s = Scn::new(&format!("long min at {p} of {n} shape {shape} c={c} {order:?}"));
                s.c = c;
                s.n = Some(n);
                s.max_events = usize::MAX;
                s.verbose_outcome = false;
                s.driver = Driver::Script {
                    order,
                    vals: Vals::MinAt { p, shape },
                };
                v.push(s);
            }
        }
    }
    v
}

/// Long runs with samples: completed individuals against many incomplete better ones.
fn long_sampling(th: bool) -> Vec<Scn> {
    let mut v = Vec::new();
    let n = if th { 600 } else { 320 };
    let sizes: &[usize] = if th { &[2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 33, 64, 65, 101, 257] } else { &[2, 3, 5, 8, 17, 33, 101] };
    for &s_size in sizes {
        for c in [1, 2, 4] {
            if !th && s_size > 7 && c == 2 {
                continue;
            }
            for vals in [
                Vals::OfValue,
                Vals::PerId { first: 1.0, later: 100.0, except: 100000 },
                Vals::PerId { first: 1.0, later: -100.0, except: 100000 },
                Vals::PerId { first: 100.0, later: 1.0, except: 7 },
                Vals::PerId { first: 1.0, later: 100.0, except: 30 },
                Vals::MinAt { p: 40, shape: 1 },
                Vals::MinAt { p: 40, shape: 3 },
                Vals::Cycle(vec![Out::Val(3.0), Out::Rej, Out::Val(1e300), Out::Val(-1e300), Out::Val(3.0)]),
                Vals::Cycle(vec![Out::Rej]),
            ] {
                for order in [Order::Fifo, Order::Lifo] {
                    if c == 1 && order == Order::Lifo {
                        continue;
                    }
                    let mut s = Scn::new(&format!("long sampling s={s_size} c={c} {order:?} {vals:?}"));
                    s.c = c;
                    s.s = s_size;
                    s.n = Some(n.max(5 * s_size));
                    s.max_events = usize::MAX;
                    s.verbose_outcome = false;
                    s.driver = Driver::Script {
                        order,
                        vals: vals.clone(),
                    };
                    v.push(s);
                }
            }
        }
    }
    v
}

fn all_orders() -> Vec<(usize, Order)> {
    vec![
        (1, Order::Fifo),
        (2, Order::Fifo),
        (2, Order::Lifo),
        (3, Order::Rot(1)),
        (5, Order::Lifo),
    ]
}

/// Whole runs on every spec of the catalogue.
fn specs(th: bool, n: usize) -> Vec<Scn> {
    let mut v = Vec::new();
    for (ei, e) in catalog::all().into_iter().enumerate() {
        for (oi, (c, order)) in all_orders().into_iter().enumerate() {
            for (vi, vals) in [
                Vals::OfValue,
                Vals::Cycle(vec![Out::Val(1.0), Out::Rej, Out::Val(-1e300), Out::Val(1e300), Out::Val(1.0)]),
                Vals::MinAt { p: 3, shape: 1 },
            ]
            .into_iter()
            .enumerate()
            {
                if !th && (ei + oi + vi) % 5 != 0 && !(oi == 1 && vi == 0) {
                    continue;
                }
                let mut s = Scn::new(&format!("spec {} c={c} {order:?} {vals:?}", e.name));
                s.yaml = e.yaml.clone();
                s.c = c;
                s.n = Some(n);
                s.s = if (oi + vi) % 4 == 3 { 2 } else { 1 };
                s.max_events = usize::MAX;
                s.verbose_outcome = false;
                s.driver = Driver::Script {
                    order,
                    vals: vals.clone(),
                };
                v.push(s);
            }
        }
    }
    v
}

/// One or two random choices forced away from what the generator gives, at any place in a run.
fn rng_dev(th: bool) -> Vec<Scn> {
    let mut v = Vec::new();
    for e in catalog::mixed().into_iter().chain(catalog::depth1()) {
        for base in [
            Policy::RealDev,
            Policy::Dev(Base::False),
            Policy::Dev(Base::TrueFirst),
            Policy::Dev(Base::TrueLast),
            Policy::Dev(Base::Alternate),
        ] {
            let mut s = Scn::new(&format!("random choices of {} {base:?}", e.name));
            s.yaml = e.yaml.clone();
            s.c = 2;
            s.n = Some(if th { 8 } else { 6 });
            s.max_events = usize::MAX;
            s.verbose_outcome = false;
            s.policy = base;
            s.horizon = if th { 600 } else { 250 };
            s.driver = Driver::Script {
                order: Order::Fifo,
                vals: Vals::OfValue,
            };
            v.push(s);
        }
    }
    v
}

/// Every raw random number is the same extreme representative: adaptation drifts as far as it can.
fn drift(th: bool) -> Vec<Scn> {
    let mut v = Vec::new();
    let mut entries = catalog::mixed();
    entries.extend(catalog::depth1());
    entries.extend(catalog::depth2().into_iter().filter(|e| e.name.contains("(real)") || e.name.contains("(int)")));
    for e in entries {
        let better = Vals::MinAt { p: usize::MAX, shape: 1 };
        for k in 0..9 {
            for (vi, vals) in [Vals::OfValue, Vals::MinAt { p: 0, shape: 1 }, better.clone()].into_iter().enumerate() {
                let plain = e.name == "bool" || e.name == "real";
                if vi == 2 && !plain && !th {
                    continue;
                }
                let mut s = Scn::new(&format!("drift {k} of {} {vals:?}", e.name));
                s.yaml = e.yaml.clone();
                s.c = 1 + (vi % 2);
                s.n = Some(if th || vi == 2 { 400 } else { 80 });
                s.max_events = usize::MAX;
                s.verbose_outcome = false;
                s.policy = Policy::Drift(k);
                s.driver = Driver::Script {
                    order: Order::Fifo,
                    vals,
                };
                v.push(s);
            }
            // every step taken, none forgotten
            for c in [1, 3] {
                let mut s = Scn::new(&format!("steep {k} of {} c={c}", e.name));
                s.yaml = e.yaml.clone();
                s.c = c;
                s.n = Some(if th { 600 } else { 160 });
                s.max_events = usize::MAX;
                s.verbose_outcome = false;
                s.policy = Policy::Steep(k);
                s.driver = Driver::Script {
                    order: Order::Fifo,
                    vals: better.clone(),
                };
                v.push(s);
            }
        }
    }
    v
}

/// Extreme but finite objective values in every order.
fn extremes(th: bool) -> Vec<Scn> {
    let vals = vec![
        Out::Val(1e300),
        Out::Val(-1e300),
        Out::Val(5e-324),
        Out::Val(-0.0),
        Out::Val(0.0),
        Out::Rej,
    ];
    let mut v = Vec::new();
    for c in 1..=2 {
        let mut s = Scn::new(&format!("extremes c={c}"));
        s.c = c;
        s.n = Some(if c == 1 { 5 } else { 3 } + th as usize);
        s.outs = vals.clone();
        v.push(s);
        for ss in [2, 3, 7] {
            let mut s = Scn::new(&format!("extreme samples s={ss} c={c}"));
            s.c = c;
            s.s = ss;
            s.n = Some(20 + c + 3);
            s.driver = Driver::Prefix {
                n: 20 + c - 1,
                vals: Vals::Cycle(vec![Out::Val(1e300), Out::Val(-1e300), Out::Val(1e300), Out::Val(0.0)]),
            };
            s.outs = vec![Out::Val(1e300), Out::Val(-1e300), Out::Val(-0.0)];
            s.policy = Policy::RealDev;
            s.menu = 1;
            s.horizon = 6;
            s.max_events = 60;
            v.push(s);
        }
    }
    v.extend(pairs(th));
    // all permutations of magnitudes over a longer run
    for rot in 0..8 {
        for c in [1, 3] {
            for ss in [1, 2, 4] {
                let mut l = vec![
                    Out::Val(1e300),
                    Out::Val(1e300),
                    Out::Val(-1e300),
                    Out::Rej,
                    Out::Val(1e-300),
                    Out::Val(-0.0),
                    Out::Val(0.0),
                    Out::Val(1.7),
                ];
                l.rotate_left(rot);
                let mut s = Scn::new(&format!("extreme cycle {rot} c={c} s={ss}"));
                s.c = c;
                s.s = ss;
                s.n = Some(if th { 400 } else { 150 });
                s.max_events = usize::MAX;
                s.verbose_outcome = false;
                s.driver = Driver::Script {
                    order: Order::Lifo,
                    vals: Vals::Cycle(l),
                };
                v.push(s);
            }
        }
    }
    v
}

/// Every ordered pair of a catalogue of values, one after the other or at the same time.
fn magnitudes(th: bool) -> Vec<f64> {
    let mut m = vec![
        5e-324,
        1e-300,
        1e-16,
        f64::EPSILON,
        1e-9,
        0.001,
        0.1,
        0.30000000000000004,
        0.5,
        1.0,
        1.0 + f64::EPSILON,
        1.00000001,
        3.0,
        10.0,
        255.0,
        65_536.0,
        16_777_217.0,
        4_294_967_296.0,
        1e12,
        2e13,
        9_007_199_254_740_993.0,
        3e16,
        1.8446744073709552e19,
        1e20,
        3.5e38,
        1e100,
        1e300,
        f64::MAX,
    ];
    if !th {
        m = m.into_iter().enumerate().filter(|(i, _)| ![1, 6, 11, 14, 23].contains(i)).map(|(_, x)| x).collect();
    }
    let mut a: Vec<f64> = m.iter().map(|x| -x).collect();
    a.reverse();
    a.push(-0.0);
    a.push(0.0);
    a.extend(m);
    a
}

fn pairs(th: bool) -> Vec<Scn> {
    let m = magnitudes(th);
    let mut v = Vec::new();
    for (i, &a) in m.iter().enumerate() {
        for (j, &b) in m.iter().enumerate() {
            for c in 1..=2 {
                if !th && c == 1 + (i + j) % 2 && i.abs_diff(j) > 1 {
                    continue;
                }
                let mut s = Scn::new(&format!("values {a:e} and {b:e} c={c}"));
                s.c = c;
                s.n = Some(2);
                s.verbose_outcome = false;
                s.driver = Driver::Script {
                    order: if (i + j) % 3 == 0 { Order::Lifo } else { Order::Fifo },
                    vals: Vals::Cycle(vec![Out::Val(a), Out::Val(b)]),
                };
                v.push(s);
            }
        }
    }
    v
}

/// Every value of the catalogue against every target of it.
fn target_pairs(th: bool) -> Vec<Scn> {
    let m = magnitudes(th);
    let mut v = Vec::new();
    for (i, &a) in m.iter().enumerate() {
        for (j, &t) in m.iter().enumerate() {
            let c = 1 + (i + j) % 3;
            let mut s = Scn::new(&format!("value {a:e} target {t:e} c={c}"));
            s.c = c;
            s.n = Some(4);
            s.verbose_outcome = false;
            s.target = Some(t);
            s.driver = Driver::Script {
                order: Order::Fifo,
                vals: Vals::Cycle(vec![Out::Val(f64::MAX), Out::Val(a), Out::Rej, Out::Val(f64::MAX)]),
            };
            v.push(s);
        }
    }
    v
}

fn guesses() -> Vec<Scn> {
    let mut v = Vec::new();
    let base = |name: &str, yaml: &str, g: serde_json::Value, c: usize| {
        let mut s = Scn::new(&format!("guess {name} c={c}"));
        s.yaml = yaml.into();
        s.guess = Some(g);
        s.c = c;
        s.n = Some(3);
        s.outs = vec![LO, Out::Rej];
        s
    };
    for c in 1..=3 {
        v.push(base("real", SPEC1, json!({"x": -7.25}), c));
        let m = &catalog::mixed()[0];
        v.push(base(
            "mixed",
            &m.yaml,
            json!({"r": 2.0, "i": 0, "b": true, "e": "c", "c": null, "o": 9,
                   "v": {"varB": {"p": -1.5, "q": false}}, "a": [true, false], "m": {"7": -20, "3": 20, "40": 0}}),
            c,
        ));
        v.push(base(
            "map",
            "type: anon map\ninitSize: 1\nmaxSize: 3\nvalueType: {type: bool, init: true}\n",
            json!({"5": false, "2": true}),
            c,
        ));
        // big ones: many leaves, long names, deep
        let name = "n".repeat(600);
        let deep = |leaf: serde_json::Value| (0..40).fold(leaf, |x, _| json!({"d": x}));
        v.push(base(
            "of an array of 300",
            "type: array\nsize: 300\nvalueType: {type: int, init: 3, scale: 1}\n",
            json!((0..300).map(|i| i * 7919 - 1_000_000).collect::<Vec<i64>>()),
            c,
        ));
        v.push(base(
            "of a map of 200",
            "type: anon map\ninitSize: 2\nvalueType: {type: real, init: 0.5, scale: 1}\n",
            serde_json::Value::Object((0..200).map(|i| ((i * 31 + 5).to_string(), json!(i as f64 * 0.125 - 3.0))).collect()),
            c,
        ));
        v.push(base(
            "with long names",
            &format!("{name}: {{type: enum, init: a, values: [a, {name}]}}\nx: {{type: variant, init: b, b: {{type: const}}, {name}: {{type: int, init: 1, scale: 1}}}}\n"),
            json!({name.as_str(): name.as_str(), "x": {name.as_str(): 17}}),
            c,
        ));
        v.push(base(
            "deep",
            &format!("{}{{type: real, init: 0, scale: 1}}{}\n", "{d: ".repeat(40), "}".repeat(40)),
            deep(json!(4.75)),
            c,
        ));
        let from = v.len() - 7;
        for ss in [2, 3, 6] {
            for k in from..from + 7 {
                let mut s = v[k].clone();
                s.name = format!("{} s={ss}", s.name);
                s.s = ss;
                s.n = Some(4);
                v.push(s);
            }
        }
    }
    v
}

/// Concurrency levels beyond any number of cores or any plausible internal limit.
fn wide(th: bool) -> Vec<Scn> {
    let mut v = Vec::new();
    let cs: &[usize] = if th {
        &[8, 9, 16, 17, 31, 32, 33, 63, 64, 65, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 511, 513, 1000, 1025, 2049, 5000, 9000]
    } else {
        &[9, 17, 33, 65, 100, 101, 129, 257, 300, 513, 1025, 5000]
    };
    for &c in cs {
        for n in [c - 1, c, c + 1, c + 45] {
            for (oi, order) in [Order::Fifo, Order::Lifo, Order::Rot(c / 2)].into_iter().enumerate() {
                for ss in [1usize, 3] {
                    if !th && c > 300 && (oi != 1 || ss != 1) {
                        continue;
                    }
                    let mut s = Scn::new(&format!("wide c={c} N={n} s={ss} {order:?}"));
                    s.c = c;
                    s.n = Some(n);
                    s.s = ss;
                    s.max_events = usize::MAX;
                    s.verbose_outcome = false;
                    s.light = c > 2000;
                    s.driver = Driver::Script {
                        order,
                        vals: if oi == 1 {
                            Vals::Cycle(vec![Out::Val(3.0), Out::Rej, Out::Val(1.0), Out::Val(2.0), Out::Val(-1.0)])
                        } else {
                            Vals::OfValue
                        },
                    };
                    v.push(s);
                }
            }
        }
    }
    // budgets far below the concurrency level
    let mut few: Vec<(usize, usize)> = Vec::new();
    for c in [2usize, 3, 5, 8, 16, 33, 64, 65, 128, 130, 256, 500, 1000, 1024, 4096, 10_000, 65_536, 65_537, 1 << 20, (1 << 20) + 1] {
        for n in [0usize, 1, 2, 3, 7, 15, 60] {
            if n < c {
                few.push((c, n));
            }
        }
    }
    for (c, n) in few {
        for ss in [1usize, 2] {
            if !th && (ss == 2) != ((c + n) % 3 == 0) {
                continue;
            }
            let mut s = Scn::new(&format!("wide few c={c} N={n} s={ss}"));
            s.c = c;
            s.n = Some(n);
            s.s = ss;
            s.max_events = usize::MAX;
            s.verbose_outcome = false;
            s.driver = Driver::Script {
                order: Order::Lifo,
                vals: Vals::Cycle(vec![Out::Val(3.0), Out::Val(1.0), Out::Rej, Out::Val(2.0)]),
            };
            v.push(s);
        }
    }
    // stopping with many in flight
    for c in [20usize, 70, 130] {
        for (ab, abn) in [(Abort::Honour, "honour"), (Abort::Late, "late")] {
            for kind in 0..3 {
                if c > 70 && !th {
                    continue;
                }
                let mut s = Scn::new(&format!("wide stop {kind} c={c} {abn}"));
                s.c = c;
                s.n = Some(c + 30);
                s.abort = ab;
                s.outs = match kind {
                    0 => vec![LO],
                    1 => vec![Out::Fail],
                    _ => vec![LO],
                };
                s.term = (kind == 0) as u8;
                s.target = if kind == 2 { Some(0.0) } else { None };
                s.driver = Driver::Prefix {
                    n: 3,
                    vals: Vals::Cycle(vec![HI]),
                };
                s.max_events = 5;
                s.verbose_outcome = false;
                v.push(s);
            }
        }
    }
    v
}

/// Runs past the ranges of narrow counters.
fn endless(th: bool) -> Vec<Scn> {
    let mut v = Vec::new();
    let n = if th { 1_100_000 } else { 140_000 };
    let map = "type: anon map\ninitSize: 1\nminSize: 1\nmaxSize: 3\nvalueType: {type: bool, init: true}\n";
    for (c, order, ss, yaml, vals) in [
        (1, Order::Fifo, 1, SPEC1, Vals::OfValue),
        (3, Order::Lifo, 1, SPEC1, Vals::Cycle(vec![Out::Val(3.0), Out::Rej, Out::Val(2.0)])),
        (4, Order::Rot(2), 3, SPEC1, Vals::Cycle(vec![Out::Val(3.0), Out::Val(1.0), Out::Val(7.0), Out::Rej, Out::Val(5.0)])),
        (2, Order::Fifo, 1, map, Vals::MinAt { p: 65_600, shape: 3 }),
        (2, Order::Fifo, 1, map, Vals::MinAt { p: 5, shape: 1 }),
        (5, Order::Fifo, 2, map, Vals::MinAt { p: 300, shape: 3 }),
        (2, Order::Lifo, 1, SPEC1, Vals::Cycle(vec![Out::Rej])),
    ] {
        let mut s = Scn::new(&format!("endless c={c} {order:?} s={ss} {vals:?}"));
        s.yaml = yaml.into();
        s.light = true;
        s.c = c;
        s.s = ss;
        // one past 2^20
        s.n = Some(if c == 1 { n.max(1_060_000) } else { n });
        s.driver = Driver::Script { order, vals };
        v.push(s);
    }
    v
}

/// Long runs that are stopped: by a request, a failure or the target.
fn endless_stops(th: bool) -> Vec<Scn> {
    let mut v = Vec::new();
    let long = if th { 140_000 } else { 66_300 };
    let mut points = vec![(0, 1), (0, 3), (1, 2), (120, 4), (600, 3), (1100, 2), (2200, 1), (5200, 4), (10_500, 3), (long, 2), (long, 5)];
    // wide ones
    points.extend([(7, 33), (0, 65), (40, 101), (3, 130), (300, 257), (2, 513), (5, 1025), (4, 5000)]);
    if th {
        points.extend([(1300, 1025), (70, 2049), (5100, 5000), (3, 9000), (2, 20_000)]);
    }
    for (at, c) in points {
        for stop in [Some(LightStop::Terminate), Some(LightStop::Fail), Some(LightStop::NaN), None] {
            if c > 2000 && stop == Some(LightStop::NaN) {
                continue;
            }
            for (n, s) in [(None, 1), (Some(1 << 40), 3), (Some((1 << 32) + 1), 1), (Some(usize::MAX), 1)] {
                // the long ones once each
                if at == long && (c == 2) != (stop == Some(LightStop::Terminate) || stop.is_none()) || at == long && (n.is_some() != (c == 5)) {
                    continue;
                }
                let mut x = Scn::new(&format!("endless until {at} {stop:?} c={c} N={n:?} s={s}"));
                x.light = true;
                x.c = c;
                x.s = s;
                x.n = n;
                x.light_stop = stop.map(|h| (at + 1, h));
                if stop.is_none() {
                    if s > 1 {
                        continue;
                    }
                    x.target = Some(-0.5);
                }
                x.driver = Driver::Script {
                    order: if c % 2 == 0 { Order::Lifo } else { Order::Fifo },
                    vals: if stop.is_none() { Vals::MinAt { p: at, shape: 3 } } else { Vals::Cycle(vec![Out::Val(3.0), Out::Rej, Out::Val(2.0), Out::Val(4.0)]) },
                };
                v.push(x);
            }
        }
    }
    v
}

fn parts(property: &str, th: bool) -> Vec<Part> {
    let endl = || part("endless runs", endless(th));
    let ends = || part("stops of endless runs", endless_stops(th));
    let widep = || part("wide runs", wide(th));
    let longs = || part("population cap", long_min(th));
    let samp = || Part {
        deviations: Some(if th { 3 } else { 2 }),
        ..part("sampling", sampling(th))
    };
    match property {
        "C01" => vec![
            part("schedules", budget(false)),
            part("guesses", guesses()),
            endl(),
            part("catalogue runs", specs(th, 60)),
            part("drift", drift(th)),
            Part {
                deviations: Some(1),
                ..part("random choices", rng_dev(th))
            },
        ],
        "C02" => {
            let mut a = budget(th);
            a.extend(ties());
            vec![
                part("schedules", a),
                part("target", target(th)),
                part("values and targets", target_pairs(th)),
                part("terminate", terminate(1 + th as u8)),
                part("population cap", long_min(th)),
                part("long sampling", long_sampling(th)),
                endl(),
                widep(),
                ends(),
                part("extremes", extremes(false)),
                samp(),
            ]
        }
        "C03" => vec![
            part("schedules", budget(th)),
            part("target", target(false)),
            part("terminate", terminate(0)),
            part("failures", failures(false)),
            part("long sampling", long_sampling(th)),
            widep(),
            endl(),
            ends(),
            samp(),
        ],
        "C04" => vec![
            ends(),
            part("terminate", terminate(1 + th as u8)),
            part("target", target(th)),
            part("values and targets", target_pairs(th)),
            widep(),
            samp(),
        ],
        "C05" => vec![
            part("schedules", budget(th)),
            part("terminate", terminate(0)),
            part("target", target(false)),
            part("failures", failures(false)),
 part("long sampling", long_sampling(th)),
            widep(),
            endl(),
            ends(),
            samp(),
        ],
        "C06" => vec![part("failures", failures(th)), ends(), widep(), part("terminate", terminate(1 + th as u8))],
        "C08" => vec![
            part("schedules", budget(th)),
            part("guesses", guesses()),
            part("terminate", terminate(0)),
            part("long sampling", long_sampling(th)),
            endl(),
            ends(),
            widep(),
            part("catalogue runs", specs(false, 60)),
            samp(),
        ],
        "C09" => {
            let mut a = budget(false);
            for s in &mut a {
                s.own_select = false;
            }
            let mut b = specs(th, 60);
            b.extend(long_sampling(false));
            for s in &mut b {
                s.own_select = false;
            }
            let mut t = terminate(0);
            t.retain(|s| s.batch == 1);
            for s in &mut t {
                s.own_select = false;
            }
            vec![
                Part { twice: true, ..part("schedules", a) },
                Part { twice: true, ..part("terminate", t) },
                Part { twice: true, ..part("catalogue runs", b) },
                Part { twice: true, ..part("guesses", { let mut g = guesses(); g.iter_mut().for_each(|s| s.own_select = false); g }) },
            ]
        }
        "C14" => vec![
            part("schedules", budget(th)),
            part("terminate", terminate(0)),
            part("failures", failures(false)),
            part("target", target(false)),
            part("long sampling", long_sampling(th)),
            endl(),
            ends(),
            widep(),
            part("population cap", {
                let mut l = long_min(false);
                l.truncate(40);
                l
            }),
            part("drift", drift(th)),
            Part {
                deviations: Some(1),
                ..part("random choices", rng_dev(false))
            },
            samp(),
        ],
        "C15" => vec![
            Part { logged: true, ..part("extremes", extremes(th)) },
            Part { logged: true, ..part("schedules", budget(false)) },
            part("drift", drift(th)),
            endl(),
            ends(),
            widep(),
            Part { logged: true, ..part("catalogue runs", specs(false, 40)) },
            part("terminate", terminate(0)),
            part("failures", failures(false)),
            Part {
                deviations: Some(1),
                ..part("random choices", rng_dev(th))
            },
            longs(),
        ],
        _ => vec![],
    }
}

struct Sink;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        // format everything that would be printed
        std::hint::black_box(r.args().to_string());
    }
    fn flush(&self) {}
}

fn main() {
    let args = Args::parse();
    init_panic_hook();
    log::set_logger(&Sink).ok();
    log::set_max_level(log::LevelFilter::Off);
    let mut frag = Fragment::new(&args);
    let th = args.thorough();
    let all = parts(&args.property, th);
    let digests: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
    let total_w: usize = all.len();
    let count_scns = std::env::var("VHARNESS_COUNT").is_ok();
    let per_scn: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
    let replaying = args.replay.is_some();
    let second_pass = std::sync::atomic::AtomicBool::new(false);
    for (pi, p) in all.iter().enumerate() {
        if args.part.as_ref().map_or(false, |q| q.trim_end_matches(" with logging") != p.name) {
            continue;
        }
        let left = args.wall - frag.t0.elapsed().as_secs_f64();
        let wall = (left / (total_w - pi) as f64 * 1.6).clamp(1.0, left.max(1.0));
        let exec = |ctx: &Rc<RefCell<Ctx>>| -> Vec<(String, String)> {
            let k = if p.scns.len() == 1 {
                0
            } else {
                ctx.borrow_mut().choose(p.scns.len() as u32)
            };
            let scn = &p.scns[k as usize];
            if count_scns {
                *per_scn.lock().unwrap().entry(scn.name.clone()).or_insert(0u64) += 1;
            }
            let r = run(scn, ctx);
            let mut v: Vec<(String, String)> = r
                .viols
                .iter()
                .filter(|v| v.0 == args.property || v.0 == "*")
                .map(|v| (args.property.clone(), v.1.clone()))
                .collect();
            let key = |ch: &[u32]| format!("{:016x}", hash64(&format!("{}|{:?}", p.name, ch)));
            if p.logged && v.is_empty() && !replaying {
                let mut d = digests.lock().unwrap();
                let k = key(&ctx.borrow().choices());
                if !second_pass.load(std::sync::atomic::Ordering::Relaxed) {
                    d.insert(k, hash64(&r.trace));
                } else if d.get(&k).map_or(false, |h| *h != hash64(&r.trace)) {
                    v.push((args.property.clone(), "turning on logging changes the run".into()));
                }
            }
            if p.twice && v.is_empty() {
                let choices = ctx.borrow().choices();
                let again = Rc::new(RefCell::new(Ctx::with_prefix(choices.clone())));
                if p.scns.len() > 1 {
                    again.borrow_mut().choose(p.scns.len() as u32);
                }
                let r2 = run(scn, &again);
                if r2.trace != r.trace {
                    let d = r
                        .trace
                        .lines()
                        .zip(r2.trace.lines())
                        .find(|(a, b)| a != b)
                        .map(|(a, b)| format!("{a:?} versus {b:?}"))
                        .unwrap_or_else(|| "one run is longer".into());
                    v.push((args.property.clone(), format!("the same schedule gives different runs: {d}")));
                }
                digests.lock().unwrap().insert(key(&choices), hash64(&r.trace));
            }
            v
        };
        if let Some(ch) = &args.replay {
            if std::env::var("VHARNESS_LOG").is_ok() {
                log::set_max_level(log::LevelFilter::Trace);
            }
            let ctx = Rc::new(RefCell::new(Ctx::with_prefix(ch.clone())));
            let v = exec(&ctx);
            for n in &ctx.borrow().note {
                println!("{n}");
            }
            println!("outcome: {:?}", ctx.borrow().outcome);
            for x in &v {
                println!("VIOLATED {}: {}", x.0, x.1);
            }
            std::process::exit(!v.is_empty() as i32);
        }
        let roots: Vec<Vec<u32>> = if p.scns.len() == 1 {
            vec![vec![]]
        } else {
            (0..p.scns.len() as u32).map(|i| vec![i]).collect()
        };
        second_pass.store(false, std::sync::atomic::Ordering::Relaxed);
        let st: Stats = explore(
            roots.clone(),
            &Limits {
                deviations: p.deviations,
                wall: Duration::from_secs_f64(wall),
                threads: args.threads,
            },
            Duration::from_secs(30),
            |choices| Fragment::hang(&args, p.name, choices),
            exec,
        );
        frag.add(p.name, st);
        if p.logged && !frag.failed() {
            second_pass.store(true, std::sync::atomic::Ordering::Relaxed);
            log::set_max_level(log::LevelFilter::Trace);
            let st = explore(
                roots,
                &Limits {
                    deviations: p.deviations,
                    wall: Duration::from_secs_f64(wall),
                    threads: args.threads,
                },
                Duration::from_secs(30),
                |choices| Fragment::hang(&args, p.name, choices),
                exec,
            );
            log::set_max_level(log::LevelFilter::Off);
            frag.add(&format!("{} with logging", p.name), st);
        }
        if frag.failed() {
            break;
        }
    }
    for (k, n) in per_scn.into_inner().unwrap() {
        eprintln!("{n:>9} {k}");
    }
    if let Some(aux) = &args.aux {
        let d = digests.into_inner().unwrap();
        std::fs::write(aux, json!(d).to_string()).expect("writing digests");
    }
    frag.finish();
    if frag.failed() {
        for (n, st) in &frag.parts {
            for v in &st.violations {
                eprintln!("{n}: {}: {} {:?}", v.property, v.message, v.choices);
            }
        }
        std::process::exit(1);
    }
}

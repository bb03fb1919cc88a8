//! Stateless exhaustive exploration of a choice tree, optionally bounded by the number of deviations.
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug)]
pub struct Choice {
    pub pick: u32,
    pub n: u32,
    pub default: u32,
    pub cost: u32,
}

#[derive(Default)]
pub struct Ctx {
    prefix: Vec<u32>,
    pub trace: Vec<Choice>,
    pub diverged: bool,
    pub states: Vec<u64>,
    pub steps: u64,
    pub note: Vec<String>,
    pub outcome: Option<String>,
}

impl Ctx {
    pub fn with_prefix(prefix: Vec<u32>) -> Self {
        Ctx {
            prefix,
            ..Default::default()
        }
    }
    fn pick(&mut self, n: u32, default: u32, cost: u32) -> u32 {
        assert!(n > 0);
        let i = self.trace.len();
        let pick = if i < self.prefix.len() {
            let p = self.prefix[i];
            if p >= n {
                self.diverged = true;
                default
            } else {
                p
            }
        } else {
            default
        };
        self.trace.push(Choice {
            pick,
            n,
            default,
            cost,
        });
        pick
    }
    /// A choice all of whose options are explored.
    pub fn choose(&mut self, n: u32) -> u32 {
        if n == 1 {
            return 0;
        }
        self.pick(n, 0, 0)
    }
    /// A choice whose non-default options count as one deviation each.
    pub fn deviate(&mut self, n: u32, default: u32) -> u32 {
        if n == 1 {
            return 0;
        }
        self.pick(n, default, 1)
    }
    pub fn deviations(&self) -> u32 {
        self.trace
            .iter()
            .map(|c| if c.pick != c.default { c.cost } else { 0 })
            .sum()
    }
    pub fn choices(&self) -> Vec<u32> {
        self.trace.iter().map(|c| c.pick).collect()
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub property: String,
    pub message: String,
    pub choices: Vec<u32>,
    pub detail: Vec<String>,
}

#[derive(Default, Debug, Clone)]
pub struct Stats {
    pub executions: u64,
    pub transitions: u64,
    pub states: u64,
    pub outcomes: u64,
    pub max_depth: usize,
    pub max_deviations: u32,
    pub diverged: u64,
    pub truncated: bool,
    pub skipped_by_bound: u64,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
}

impl Stats {
    pub fn merge(&mut self, o: Stats) {
        self.executions += o.executions;
        self.transitions += o.transitions;
        self.states += o.states;
        self.outcomes += o.outcomes;
        self.max_depth = self.max_depth.max(o.max_depth);
        self.max_deviations = self.max_deviations.max(o.max_deviations);
        self.diverged += o.diverged;
        self.truncated |= o.truncated;
        self.skipped_by_bound += o.skipped_by_bound;
        for s in o.samples {
            if self.samples.len() < 24 {
                self.samples.push(s);
            }
        }
        for v in o.violations {
            if self.violations.len() < 20 {
                self.violations.push(v);
            }
        }
    }
}

pub struct Limits {
    pub deviations: Option<u32>,
    pub wall: Duration,
    pub threads: usize,
}

/// What each worker is doing, for the watchdog.
pub struct Progress {
    /// Changes with every sign of life, 0 when idle.
    pub beat: AtomicU64,
    pub current: Mutex<Vec<u32>>,
    /// the file with the processor time of the worker
    stat: Mutex<String>,
}

thread_local! {
    static BEAT: std::cell::Cell<Option<&'static AtomicU64>> = const { std::cell::Cell::new(None) };
}

/// A sign of life: the execution takes steps.
pub fn beat() {
    if let Some(b) = BEAT.with(|b| b.get()) {
        b.fetch_add(1, Ordering::Relaxed);
    }
}

/// Milliseconds of processor time of a thread.
fn cpu_ms(stat: &str) -> Option<u64> {
    let s = std::fs::read_to_string(stat).ok()?;
    let f: Vec<&str> = s[s.rfind(')')? + 1..].split_whitespace().collect();
    // in ticks of 10 ms
    Some((f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?) * 10)
}

pub fn hash64<T: std::hash::Hash + ?Sized>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Runs `f` once per path of the choice tree below `roots`. `f` returns the violations it saw.
/// `on_hang` is called with the choices taken so far when one execution takes no step for longer than `hang_after` of processor
/// time, or four times that on the clock (a busy machine must not look like a hang).
pub fn explore<F, H>(
    roots: Vec<Vec<u32>>,
    limits: &Limits,
    hang_after: Duration,
    on_hang: H,
    f: F,
) -> Stats
where
    F: Fn(&std::rc::Rc<std::cell::RefCell<Ctx>>) -> Vec<(String, String)> + Sync,
    H: Fn(Vec<u32>) + Sync,
{
    let t0 = Instant::now();
    let stack = Mutex::new((
        {
            let mut r = roots;
            r.reverse();
            r
        },
        0usize,
    ));
    let cv = Condvar::new();
    let stop = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let nviol = AtomicUsize::new(0);
    let total = Mutex::new(Stats::default());
    let seen: Vec<Mutex<HashSet<u64>>> = (0..64).map(|_| Mutex::new(HashSet::new())).collect();
    let outcomes = Mutex::new(HashSet::<u64>::new());
    let progress: Vec<Progress> = (0..limits.threads)
        .map(|_| Progress {
            beat: AtomicU64::new(0),
            current: Mutex::new(Vec::new()),
            stat: Mutex::new(String::new()),
        })
        .collect();

    std::thread::scope(|s| {
        let workers: Vec<_> = (0..limits.threads)
            .map(|wi| {
                let (stack, cv, stop, nviol, total, seen, outcomes, progress, f) = (
                    &stack, &cv, &stop, &nviol, &total, &seen, &outcomes, &progress, &f,
                );
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        // outlives the worker: the scope ends first
                        BEAT.with(|b| b.set(Some(unsafe { &*(&progress[wi].beat as *const AtomicU64) })));
                        if let Ok(t) = std::fs::read_link("/proc/thread-self") {
                            *progress[wi].stat.lock().unwrap() = format!("/proc/{}/stat", t.display());
                        }
                        let mut st = Stats::default();
                        let mut local: Vec<Vec<u32>> = Vec::new();
                        let mut executions = 0u64;
                        loop {
                            let prefix = match local.pop() {
                                Some(p) => p,
                                None => {
                                    let mut g = stack.lock().unwrap();
                                    g.1 += 1; // idle
                                    loop {
                                        if stop.load(Ordering::Relaxed) {
                                            g.1 = limits.threads;
                                            cv.notify_all();
                                            break;
                                        }
                                        if let Some(p) = g.0.pop() {
                                            g.1 -= 1;
                                            local.push(p);
                                            break;
                                        }
                                        if g.1 >= limits.threads {
                                            cv.notify_all();
                                            break;
                                        }
                                        let (g2, _) =
                                            cv.wait_timeout(g, Duration::from_millis(50)).unwrap();
                                        g = g2;
                                    }
                                    drop(g);
                                    match local.pop() {
                                        Some(p) => p,
                                        None => break,
                                    }
                                }
                            };
                            if t0.elapsed() > limits.wall {
                                st.truncated = true;
                                stop.store(true, Ordering::Relaxed);
                                cv.notify_all();
                                break;
                            }
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            *progress[wi].current.lock().unwrap() = prefix.clone();
                            executions += 1;
                            progress[wi].beat.store(executions << 32 | 1, Ordering::Relaxed);
                            let plen = prefix.len();
                            let ctx = std::rc::Rc::new(std::cell::RefCell::new(Ctx {
                                prefix,
                                ..Default::default()
                            }));
                            let viols = f(&ctx);
                            progress[wi].beat.store(0, Ordering::Relaxed);
                            let ctx = ctx.borrow();
                            st.executions += 1;
                            st.transitions += ctx.steps;
                            st.max_depth = st.max_depth.max(ctx.trace.len());
                            let devs = ctx.deviations();
                            st.max_deviations = st.max_deviations.max(devs);
                            if ctx.diverged {
                                st.diverged += 1;
                            }
                            for h in &ctx.states {
                                if seen[(*h % 64) as usize].lock().unwrap().insert(*h) {
                                    st.states += 1;
                                }
                            }
                            if let Some(o) = &ctx.outcome {
                                let mut g = outcomes.lock().unwrap();
                                if g.insert(hash64(o)) && g.len() <= 24 {
                                    st.samples.push(format!("{:?} => {}", ctx.choices(), o));
                                }
                            }
                            for (p, m) in viols {
                                if st.violations.len() < 10 {
                                    st.violations.push(Violation {
                                        property: p,
                                        message: m,
                                        choices: ctx.choices(),
                                        detail: ctx.note.clone(),
                                    });
                                }
                                if nviol.fetch_add(1, Ordering::Relaxed) > 20 {
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                            // children
                            let mut spent: u32 = 0;
                            let mut before: Vec<u32> = Vec::with_capacity(ctx.trace.len());
                            for c in &ctx.trace {
                                before.push(spent);
                                if c.pick != c.default {
                                    spent += c.cost;
                                }
                            }
                            for i in (plen..ctx.trace.len()).rev() {
                                let c = ctx.trace[i];
                                for alt in (0..c.n).rev() {
                                    if alt == c.pick {
                                        continue;
                                    }
                                    if let Some(b) = limits.deviations {
                                        let cost = if alt != c.default { c.cost } else { 0 };
                                        if before[i] + cost > b {
                                            st.skipped_by_bound += 1;
                                            continue;
                                        }
                                    }
                                    let mut p: Vec<u32> =
                                        ctx.trace[..i].iter().map(|c| c.pick).collect();
                                    p.push(alt);
                                    local.push(p);
                                }
                            }
                            if local.len() > 1 {
                                let mut g = stack.lock().unwrap();
                                if g.1 > 0 && g.0.len() < limits.threads * 2 {
                                    let k = local.len() / 2;
                                    g.0.extend(local.drain(..k));
                                    cv.notify_all();
                                }
                            }
                        }
                        total.lock().unwrap().merge(st);
                    })
                    .unwrap()
            })
            .collect();
        let (done, progress, on_hang) = (&done, &progress, &on_hang);
        s.spawn(move || {
            // last beat, when it was seen first, processor time then
            let mut last: Vec<(u64, Instant, Option<u64>)> = progress.iter().map(|_| (0, Instant::now(), None)).collect();
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(20));
                for (p, l) in progress.iter().zip(&mut last) {
                    let b = p.beat.load(Ordering::Relaxed);
                    if b != l.0 {
                        *l = (b, Instant::now(), None);
                    }
                    if b == 0 || l.1.elapsed() < Duration::from_secs(1) {
                        continue;
                    }
                    let cpu = cpu_ms(&p.stat.lock().unwrap());
                    let start = *l.2.get_or_insert(cpu.unwrap_or(0));
                    let used = Duration::from_millis(cpu.unwrap_or(0).saturating_sub(start));
                    if used > hang_after || l.1.elapsed() > hang_after * 4 {
                        on_hang(p.current.lock().unwrap().clone());
                    }
                }
            }
        });
        for w in workers {
            w.join().expect("explorer worker");
        }
        done.store(true, Ordering::Relaxed);
    });
    let mut st = total.into_inner().unwrap();
    st.outcomes = outcomes.into_inner().unwrap().len() as u64;
    st
}

//! Engine P: one or two evaluations by real processes under a clock that only the checker moves.
//! Every order of what can happen to them is explored: ending in each way, the clock standing just before or just behind
//! the next limit, the run asking for an end, the evaluation being dropped.
use cambrian::async_launch;
use cambrian::error::Error;
use cambrian::message::Command;
use cambrian::meta::{AlgoConfigBuilder, AsyncObjectiveFunction};
use cambrian::process::ObjFuncProcessDef;
use cambrian::spec_util;
use cambrian::verif::DetailedReportItem;
use futures::channel::mpsc;
use serde_json::json;
use std::cell::RefCell;
use std::ffi::OsString;
use std::fs::File;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};
use vharness::common::{init_panic_hook, Args, Fragment};
use vharness::explore::{beat, explore, hash64, Ctx, Limits};
use vharness::runner::SPEC1;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Shape {
    Alone,
    /// another process in its group
    Pair,
    /// two more, one of them deaf to the polite signals
    Deaf,
}

enum Any {
    Eval(Scn),
    Run(RunScn),
}

#[derive(Clone, Debug)]
struct Scn {
    name: String,
    limit: Option<Duration>,
    /// seed and id of the evaluations; the second starts when a third of the first one's time is over
    evals: Vec<(u64, usize)>,
    shape: Shape,
    depth: usize,
    /// ways to end
    ends: Vec<End>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    Val,
    Rej,
    Code,
    Kill,
    Junk,
}

impl End {
    fn line(self) -> &'static str {
        match self {
            End::Val => "echo '{\"objFuncVal\": 2.5}'\n",
            End::Rej => "echo '{\"objFuncVal\": null}'\n",
            End::Code => "exit 3\n",
            End::Kill => "kill -9 $$\n",
            End::Junk => "echo junk\n",
        }
    }
    fn expected(self) -> &'static str {
        match self {
            End::Val => "value 2.5",
            End::Rej => "rejected",
            _ => "failure",
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ev {
    End(usize, End),
    /// two milliseconds before the next limit
    Before,
    /// two milliseconds behind it
    Behind,
    Abort,
    Drop(usize),
}

const MARGIN: Duration = Duration::from_millis(2);
const PATIENCE: Duration = Duration::from_secs(25);
static DIRS: AtomicU64 = AtomicU64::new(0);

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

struct Eval {
    dir: PathBuf,
    _hold: Vec<File>,
    pids: Vec<i32>,
    handle: tokio::task::JoinHandle<Result<Option<f64>, String>>,
    deadline: Option<tokio::time::Instant>,
    /// what it must come to, once that is settled
    want: Option<&'static str>,
    dropped: bool,
}

fn script(shape: Shape) -> String {
    let more = match shape {
        Shape::Alone => "echo $$ >\"$0/p.tmp\"",
        Shape::Pair => "(read -r x <\"$0/g\") >/dev/null 2>&1 </dev/null & echo $$ $! >\"$0/p.tmp\"",
        Shape::Deaf => {
            "(trap '' TERM INT HUP; read -r x <\"$0/g\") >/dev/null 2>&1 </dev/null & a=$!; (read -r x <\"$0/g\") >/dev/null 2>&1 </dev/null & echo $$ $a $! >\"$0/p.tmp\""
        }
    };
    format!("{more}; mv \"$0/p.tmp\" \"$0/p\"; read -r l <\"$0/f\"; eval \"$l\"")
}

/// Neither gone nor a zombie.
fn alive(pid: i32) -> bool {
    match std::fs::read_to_string(format!("/proc/{pid}/stat")) {
        Ok(s) => s.rfind(')').map_or(false, |i| !matches!(s[i + 1..].trim_start().chars().next(), Some('Z') | Some('X') | None)),
        Err(_) => false,
    }
}

fn fifo(p: &Path) -> File {
    let st = std::process::Command::new("mkfifo").arg(p).status().expect("mkfifo");
    assert!(st.success());
    std::fs::OpenOptions::new().read(true).write(true).open(p).expect("fifo")
}

/// Lets everything else run until `cond` holds.
async fn until(mut cond: impl FnMut() -> bool) -> bool {
    let t0 = Instant::now();
    let mut i = 0u32;
    loop {
        if cond() {
            return true;
        }
        if t0.elapsed() > PATIENCE {
            return false;
        }
        tokio::task::yield_now().await;
        i += 1;
        if i > 20 {
            std::thread::sleep(Duration::from_micros(if i < 400 { 50 } else { 1000 }));
        }
        beat();
    }
}

async fn execute(scn: &Scn, ctx: &Rc<RefCell<Ctx>>, top: &Path) -> Vec<String> {
    let mut bads: Vec<String> = Vec::new();
    let (tx, rx) = async_broadcast::broadcast::<()>(1);
    let mut evals: Vec<Eval> = Vec::new();
    let mut aborted = false;
    for (k, (seed, id)) in scn.evals.iter().enumerate() {
        let dir = top.join(k.to_string());
        std::fs::create_dir(&dir).unwrap();
        let hold = vec![fifo(&dir.join("f")), fifo(&dir.join("g"))];
        let def = ObjFuncProcessDef::new(
            OsString::from("/bin/sh"),
            vec![OsString::from("-c"), OsString::from(script(scn.shape)), dir.clone().into_os_string()],
            scn.limit,
        );
        let (seed, id, rx) = (*seed, *id, rx.clone());
        let deadline = scn.limit.map(|l| tokio::time::Instant::now() + l);
        let handle = tokio::spawn(async move { def.evaluate(json!({ "x": 1.5 }), rx, seed, id).await.map_err(|e| e.to_string()) });
        let p = dir.join("p");
        if !until(|| p.exists()).await {
            bads.push(format!("evaluation {k} does not start its process"));
            return bads;
        }
        let pids: Vec<i32> = std::fs::read_to_string(&p).unwrap().split_whitespace().map(|x| x.parse().unwrap()).collect();
        evals.push(Eval { dir, _hold: hold, pids, handle, deadline, want: None, dropped: false });
        if k + 1 < scn.evals.len() {
            if let Some(l) = scn.limit {
                tokio::time::advance(l / 3).await;
            }
        }
    }
    let mut log: Vec<String> = Vec::new();
    let mut near = false;
    for _ in 0..scn.depth {
        let open: Vec<usize> = (0..evals.len()).filter(|k| evals[*k].want.is_none() && !evals[*k].dropped).collect();
        if open.is_empty() {
            break;
        }
        let next = open.iter().filter_map(|k| evals[*k].deadline).min();
        let mut menu: Vec<Ev> = Vec::new();
        for &k in &open {
            menu.extend(scn.ends.iter().map(|e| Ev::End(k, *e)));
        }
        if next.is_some() {
            if !near {
                menu.push(Ev::Before);
            }
            menu.push(Ev::Behind);
        } else if !near {
            // no limit: an age passes
            menu.push(Ev::Before);
        }
        if !aborted {
            menu.push(Ev::Abort);
        }
        menu.extend(open.iter().map(|k| Ev::Drop(*k)));
        let ev = menu[ctx.borrow_mut().choose(menu.len() as u32) as usize];
        log.push(format!("{ev:?}"));
        let now = tokio::time::Instant::now();
        match ev {
            Ev::End(k, e) => {
                // opened for reading and writing, like the one that is held: the writer never blocks
                let mut f = std::fs::OpenOptions::new().read(true).write(true).open(evals[k].dir.join("f")).unwrap();
                f.write_all(e.line().as_bytes()).unwrap();
                evals[k].want = Some(e.expected());
                if !until(|| evals[k].handle.is_finished()).await {
                    bads.push(format!("evaluation {k} has ended, which is not noticed"));
                }
            }
            Ev::Before => {
                near = true;
                match next {
                    Some(d) => {
                        let to = d - MARGIN;
                        if to > now {
                            tokio::time::advance(to - now).await;
                        }
                    }
                    None => tokio::time::advance(Duration::from_secs(86_400 * 3000)).await,
                }
            }
            Ev::Behind => {
                near = false;
                let to = next.unwrap() + MARGIN;
                tokio::time::advance(to - now).await;
                for k in open.iter().copied() {
                    if evals[k].deadline.unwrap() <= to {
                        evals[k].want = Some("rejected");
                        if !until(|| evals[k].handle.is_finished()).await {
                            bads.push(format!("evaluation {k} goes on after its time limit of {:?}", scn.limit.unwrap()));
                        }
                    }
                }
            }
            Ev::Abort => {
                aborted = true;
                tx.broadcast(()).await.ok();
                for k in open.iter().copied() {
                    evals[k].want = Some("rejected");
                    if !until(|| evals[k].handle.is_finished()).await {
                        bads.push(format!("evaluation {k} does not heed the request to end"));
                    }
                }
            }
            Ev::Drop(k) => {
                evals[k].dropped = true;
                evals[k].handle.abort();
                if !until(|| evals[k].handle.is_finished()).await {
                    bads.push(format!("evaluation {k} cannot be dropped"));
                }
            }
        }
        // everything that is due has its chance
        for _ in 0..200 {
            tokio::task::yield_now().await;
        }
        for (k, e) in evals.iter().enumerate() {
            let open = e.want.is_none() && !e.dropped;
            if open && e.handle.is_finished() {
                bads.push(format!("evaluation {k} is ended although nothing happened to it ({})", log.join(", ")));
            }
            if open && !e.pids.iter().all(|p| alive(*p)) {
                bads.push(format!("a process of evaluation {k} is killed although nothing happened to it ({})", log.join(", ")));
            }
        }
        let mut c = ctx.borrow_mut();
        c.steps += 1;
        c.states.push(hash64(&(scn.name.as_str(), log.as_slice())));
        drop(c);
        if !bads.is_empty() {
            break;
        }
    }
    let mut outcome = String::new();
    for (k, e) in evals.into_iter().enumerate() {
        if bads.is_empty() {
            if e.want.is_none() && !e.dropped {
                // untouched to the end: it still can answer
                let mut f = std::fs::OpenOptions::new().read(true).write(true).open(e.dir.join("f")).unwrap();
                f.write_all(End::Val.line().as_bytes()).unwrap();
                if !until(|| e.handle.is_finished()).await {
                    bads.push(format!("evaluation {k} has ended, which is not noticed"));
                    break;
                }
            }
            if !e.dropped {
                let want = e.want.unwrap_or(End::Val.expected());
                let got = match e.handle.await {
                    Ok(Ok(Some(v))) => format!("value {v}"),
                    Ok(Ok(None)) => "rejected".to_string(),
                    Ok(Err(_)) => "failure".to_string(),
                    Err(_) => "panic".to_string(),
                };
                if got != want {
                    bads.push(format!("evaluation {k} (seed {}, individual {}, limit {:?}) comes to '{got}', not '{want}' ({})", scn.evals[k].0, scn.evals[k].1, scn.limit, log.join(", ")));
                }
                outcome.push_str(&got);
            }
            let t0 = Instant::now();
            while e.pids.iter().any(|p| alive(*p)) {
                // killed, but perhaps not yet dead
                if t0.elapsed() > PATIENCE {
                    bads.push(format!("processes of evaluation {k} outlive it ({})", log.join(", ")));
                    break;
                }
                std::thread::sleep(Duration::from_micros(200));
            }
        }
    }
    let mut c = ctx.borrow_mut();
    c.outcome = Some(format!("{log:?} {outcome}"));
    c.note.push(format!("{}: {} -> {outcome}", scn.name, log.join(", ")));
    bads
}

/// A whole run with such evaluations.
#[derive(Clone, Debug)]
struct RunScn {
    name: String,
    limit: Option<Duration>,
    c: usize,
    n: usize,
    s: usize,
    target: Option<f64>,
    shape: Shape,
    fails: bool,
    quits: bool,
    events: usize,
}

/// Ends evaluation number k (counted by starts).
fn answer(k: usize) -> f64 {
    [4.0, 2.0, 3.0, 1.0, 5.0][k % 5]
}

struct Proc {
    hold: Option<File>,
    pids: Vec<i32>,
    started: tokio::time::Instant,
    over: bool,
}

async fn execute_run(scn: &RunScn, ctx: &Rc<RefCell<Ctx>>, top: &Path) -> Vec<String> {
    let more = match scn.shape {
        Shape::Alone => "m=",
        _ => "(trap '' TERM INT HUP; read -r x <\"$0/g\") >/dev/null 2>&1 </dev/null & m=$!",
    };
    let script = format!("{more}; mkfifo \"$0/f$$\"; echo $$ $m >\"$0/t$$\"; mv \"$0/t$$\" \"$0/p$$\"; read -r l <\"$0/f$$\"; eval \"$l\"");
    let _g = fifo(&top.join("g"));
    let def = ObjFuncProcessDef::new(
        OsString::from("/bin/sh"),
        vec![OsString::from("-c"), OsString::from(script), top.as_os_str().to_owned()],
        scn.limit,
    );
    let spec = spec_util::from_yaml_str(SPEC1).unwrap();
    let cfg = AlgoConfigBuilder::default().num_concurrent(scn.c).individual_sample_size(scn.s).build().unwrap();
    let (mut cmd_tx, cmd_rx) = mpsc::channel::<Command>(4);
    let (rep_tx, rep_rx) = mpsc::channel::<DetailedReportItem>(1000);
    let mut rep_rx = Some(rep_rx);
    let mut records = 0;
    let handle = tokio::task::spawn_local(async_launch::launch(spec, def, cfg, cmd_rx, rep_tx, Some(scn.n), scn.target, None));
    let mut procs: Vec<Proc> = Vec::new();
    let mut known: std::collections::HashSet<OsString> = Default::default();
    let mut bads: Vec<String> = Vec::new();
    let mut log: Vec<String> = Vec::new();
    let (mut ended, mut completed, mut rejected, mut best) = (0usize, 0usize, 0usize, f64::INFINITY);
    let mut result: Option<&'static str> = (scn.n == 0).then_some("none");
    let mut near = false;
    let mut news = |procs: &mut Vec<Proc>| {
        for e in std::fs::read_dir(top).unwrap().flatten() {
            let name = e.file_name();
            let s = name.to_string_lossy().into_owned();
            if !s.starts_with('p') || !known.insert(name) {
                continue;
            }
            let pids = std::fs::read_to_string(e.path()).unwrap().split_whitespace().map(|x| x.parse().unwrap()).collect();
            let hold = std::fs::OpenOptions::new().read(true).write(true).open(top.join(format!("f{}", &s[1..]))).unwrap();
            procs.push(Proc { hold: Some(hold), pids, started: tokio::time::Instant::now(), over: false });
        }
    };
    loop {
        // all ends have been processed
        if result.is_none()
            && !until(|| {
                while let Ok(Some(_)) = rep_rx.as_mut().unwrap().try_next() {
                    records += 1;
                }
                records >= ended
            })
            .await
        {
            bads.push(format!("{records} evaluations were recorded of {ended} that have ended ({})", log.join(", ")));
            break;
        }
        // all that are due have started
        let due = if result.is_some() { procs.len() } else { scn.n.min(ended + scn.c) };
        if !until(|| {
            news(&mut procs);
            procs.len() >= due
        })
        .await
        {
            bads.push(format!("{} evaluations were started where {due} are due ({})", procs.len(), log.join(", ")));
            break;
        }
        for _ in 0..100 {
            tokio::task::yield_now().await;
        }
        news(&mut procs);
        if procs.len() > due {
            bads.push(format!("{} evaluations were started where {due} are due ({})", procs.len(), log.join(", ")));
            break;
        }
        if let Some(w) = result {
            if !until(|| handle.is_finished()).await {
                bads.push(format!("the run does not return although it is over: {w} ({})", log.join(", ")));
            }
            break;
        }
        if handle.is_finished() {
            bads.push(format!("the run returns with {} evaluations to go ({})", scn.n - ended, log.join(", ")));
            break;
        }
        let open: Vec<usize> = (0..procs.len()).filter(|k| !procs[*k].over).collect();
        if let Some(k) = open.iter().find(|k| !procs[**k].pids.iter().all(|p| alive(*p))) {
            bads.push(format!("a process of evaluation {k} is killed although nothing happened to it ({})", log.join(", ")));
            break;
        }
        let next = scn.limit.map(|l| open.iter().map(|k| procs[*k].started).min().unwrap() + l);
        let mut menu: Vec<Ev> = Vec::new();
        let quiet = log.len() >= scn.events;
        for &k in &open {
            menu.push(Ev::End(k, End::Val));
            if quiet {
                break;
            }
            menu.push(Ev::End(k, End::Rej));
            if scn.fails {
                menu.push(Ev::End(k, End::Code));
            }
        }
        if !quiet {
            if next.is_some() {
                if !near {
                    menu.push(Ev::Before);
                }
                menu.push(Ev::Behind);
            }
            if scn.quits {
                menu.push(Ev::Abort);
            }
        }
        let ev = menu[ctx.borrow_mut().choose(menu.len() as u32) as usize];
        log.push(format!("{ev:?}"));
        let now = tokio::time::Instant::now();
        match ev {
            Ev::End(k, e) => {
                let line = match e {
                    End::Val => format!("echo '{{\"objFuncVal\": {}}}'\n", answer(k)),
                    _ => e.line().to_string(),
                };
                let mut f = procs[k].hold.take().unwrap();
                f.write_all(line.as_bytes()).unwrap();
                procs[k].hold = Some(f);
                procs[k].over = true;
                match e {
                    End::Val => {
                        completed += 1;
                        best = best.min(answer(k));
                        ended += 1;
                        if scn.target.map_or(false, |t| answer(k) <= t) {
                            result = Some("the target is met");
                        }
                    }
                    End::Rej => {
                        rejected += 1;
                        ended += 1;
                    }
                    _ => result = Some("an evaluation has failed"),
                }
            }
            Ev::Before => {
                near = true;
                let to = next.unwrap() - MARGIN;
                if to > now {
                    tokio::time::advance(to - now).await;
                }
            }
            Ev::Behind => {
                near = false;
                let to = next.unwrap() + MARGIN;
                tokio::time::advance(to - now).await;
                for &k in &open {
                    if procs[k].started + scn.limit.unwrap() <= to {
                        procs[k].over = true;
                        ended += 1;
                        rejected += 1;
                    }
                }
            }
            _ => {
                cmd_tx.try_send(Command::Terminate).unwrap();
                result = Some("its end was requested");
                rejected = usize::MAX;
            }
        }
        if ended == scn.n && result.is_none() {
            result = Some("the budget is used up");
        }
        let mut c = ctx.borrow_mut();
        c.steps += 1;
        c.states.push(hash64(&(scn.name.as_str(), log.as_slice())));
    }
    let mut outcome = String::new();
    if bads.is_empty() {
        let got = match handle.await {
            Ok(Ok(r)) => format!("best {} of {} completed, {} rejected", r.best_seen.obj_func_val, r.num_obj_func_eval_completed, if rejected == usize::MAX { "some".into() } else { r.num_obj_func_eval_rejected.to_string() }),
            Ok(Err(Error::NoIndividuals)) => "no individuals".to_string(),
            Ok(Err(_)) => "failure".to_string(),
            Err(_) => "panic".to_string(),
        };
        let want = if result == Some("an evaluation has failed") {
            "failure".to_string()
        } else if completed == 0 {
            "no individuals".to_string()
        } else {
            format!("best {best} of {completed} completed, {} rejected", if rejected == usize::MAX { "some".into() } else { rejected.to_string() })
        };
        // with a target met, those in flight may still be counted as rejected
        let same = got == want || result == Some("the target is met") && got.starts_with(&format!("best {best} of {completed} completed, "));
        if scn.s == 1 && !same {
            bads.push(format!("the run comes to '{got}', not '{want}' ({})", log.join(", ")));
        }
        outcome = got;
        news(&mut procs);
        let t0 = Instant::now();
        while procs.iter().any(|p| p.pids.iter().any(|p| alive(*p))) {
            if t0.elapsed() > PATIENCE {
                bads.push(format!("processes outlive the run ({})", log.join(", ")));
                break;
            }
            std::thread::sleep(Duration::from_micros(200));
        }
    }
    rep_rx.take();
    let mut c = ctx.borrow_mut();
    c.outcome = Some(format!("{log:?} {outcome}"));
    c.note.push(format!("{}: {} -> {outcome}", scn.name, log.join(", ")));
    bads
}

fn runs(th: bool) -> Vec<RunScn> {
    let mut v = Vec::new();
    for (limit, shape) in [
        (Some(Duration::from_secs(3600)), Shape::Alone),
        (Some(Duration::from_millis(40)), Shape::Pair),
        (Some(Duration::from_secs(100_000_000)), Shape::Alone),
        (None, Shape::Pair),
    ] {
        for c in 1..=3usize {
            for n in [1usize, 2, 3, 4] {
                for (fails, quits, target) in [(false, false, None), (true, false, None), (false, true, None), (false, false, Some(2.0))] {
                    if n == 4 && !(th && c < 3 && !fails && !quits) || c == 3 && n < 3 {
                        continue;
                    }
                    if !th && n == 3 && (c == 3 && shape == Shape::Alone || limit == Some(Duration::from_secs(100_000_000)) && (fails || quits)) {
                        continue;
                    }
                    v.push(RunScn {
                        name: format!("limit {limit:?} {shape:?} c={c} N={n} fails={fails} quits={quits} target={target:?}"),
                        limit,
                        c,
                        n,
                        s: 1,
                        target,
                        shape,
                        fails,
                        quits,
                        events: if th { 7 } else if n + c > 4 { 3 } else { 4 },
                    });
                }
            }
        }
    }
    v
}

fn limits(th: bool) -> Vec<Option<Duration>> {
    let mut v: Vec<Option<Duration>> = [5u64, 10, 100, 999, 1000, 1001, 1500, 10_000, 29_000, 31_000, 60_000, 61_000, 600_000, 3_600_000, 90_000_000, 4_294_967_296 + 50_000, 40_000_000_000, 90_000_000_000]
        .into_iter()
        .map(|ms| Some(Duration::from_millis(ms)))
        .collect();
    if th {
        v.extend([7u64, 50, 255, 256, 300_000, 7_200_000, 86_400_000, 604_800_000, 2_147_483_700].into_iter().map(|ms| Some(Duration::from_millis(ms))));
    }
    v.push(Some(Duration::new(12, 345_678_901)));
    v.push(None);
    v
}

const ALL: [End; 5] = [End::Val, End::Rej, End::Code, End::Kill, End::Junk];

fn single(th: bool) -> Vec<Scn> {
    let mut v = Vec::new();
    for (i, limit) in limits(th).into_iter().enumerate() {
        for (k, (seed, id)) in [(0u64, 0usize), (1, 1), (7, 5), (150, 99), (255, 3), (1000, 0), (65_536, 1000), (1 << 33, 12), (u64::MAX, usize::MAX)].into_iter().enumerate() {
            let shape = [Shape::Alone, Shape::Pair, Shape::Deaf][(i + k) % 3];
            v.push(Scn {
                name: format!("limit {limit:?} seed {seed} individual {id} {shape:?}"),
                limit,
                evals: vec![(seed, id)],
                shape,
                depth: 3,
                ends: if k % 3 == 0 || th { ALL.to_vec() } else { vec![End::Val, End::Code] },
            });
        }
    }
    v
}

fn double(th: bool) -> Vec<Scn> {
    let mut v = Vec::new();
    for (i, limit) in limits(false).into_iter().enumerate() {
        if !th && i % 4 != 1 && limit.is_some() {
            continue;
        }
        for (k, shape) in [Shape::Alone, Shape::Pair, Shape::Deaf].into_iter().enumerate() {
            if !th && (i / 4 + k) % 3 != 0 {
                continue;
            }
            v.push(Scn {
                name: format!("two, limit {limit:?} {shape:?}"),
                limit: limit.map(|l| l.max(Duration::from_millis(30))),
                evals: vec![(i as u64 * 37, i), (i as u64 * 37 + 1, if th && k == 1 { i } else { i + 1 })],
                shape,
                depth: if th { 4 } else { 3 },
                ends: if th { vec![End::Val, End::Rej, End::Code] } else { vec![End::Val, End::Code] },
            });
        }
    }
    v
}

fn main() {
    let args = Args::parse();
    init_panic_hook();
    let th = args.thorough();
    let mut frag = Fragment::new(&args);
    let evals = |v: Vec<Scn>| v.into_iter().map(Any::Eval).collect::<Vec<_>>();
    let whole_runs = |v: Vec<RunScn>| v.into_iter().map(Any::Run).collect::<Vec<_>>();
    let parts: Vec<(&str, Vec<Any>)> = match args.property.as_str() {
        "C07" => vec![
            ("limits in virtual time", evals(single(th))),
            ("two limits in virtual time", evals(double(th))),
            ("runs in virtual time", whole_runs(runs(th))),
        ],
        _ => vec![],
    };
    let base = std::env::temp_dir().join(format!("vproc-{}", std::process::id()));
    std::fs::create_dir_all(&base).unwrap();
    let whole = Scratch(base.clone());
    let n = parts.len();
    for (pi, (name, scns)) in parts.iter().enumerate() {
        if args.part.as_ref().map_or(false, |q| q != name) {
            continue;
        }
        let left = args.wall - frag.t0.elapsed().as_secs_f64();
        let wall = (left / (n - pi) as f64 * 1.6).clamp(1.0, left.max(1.0));
        let exec = |ctx: &Rc<RefCell<Ctx>>| -> Vec<(String, String)> {
            let k = ctx.borrow_mut().choose(scns.len() as u32) as usize;
            let top = Scratch(base.join(DIRS.fetch_add(1, Ordering::Relaxed).to_string()));
            std::fs::create_dir(&top.0).unwrap();
            let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
            let bads = match &scns[k] {
                Any::Eval(s) => rt.block_on(execute(s, ctx, &top.0)),
                Any::Run(s) => tokio::task::LocalSet::new().block_on(&rt, execute_run(s, ctx, &top.0)),
            };
            drop(rt);
            bads.into_iter().map(|b| (args.property.clone(), b)).collect()
        };
        if let Some(ch) = &args.replay {
            let ctx = Rc::new(RefCell::new(Ctx::with_prefix(ch.clone())));
            let v = exec(&ctx);
            for n in &ctx.borrow().note {
                println!("{n}");
            }
            for x in &v {
                println!("VIOLATED {}: {}", x.0, x.1);
            }
            drop(whole);
            std::process::exit(!v.is_empty() as i32);
        }
        let st = explore(
            (0..scns.len() as u32).map(|i| vec![i]).collect(),
            &Limits {
                deviations: None,
                wall: Duration::from_secs_f64(wall),
                threads: args.threads.max(2),
            },
            Duration::from_secs(120),
            |choices| Fragment::hang(&args, name, choices),
            exec,
        );
        frag.add(name, st);
        if frag.failed() {
            break;
        }
    }
    frag.finish();
    drop(whole);
    if frag.failed() {
        for (n, st) in &frag.parts {
            for v in st.violations.iter().take(8) {
                eprintln!("{n}: {}: {} {:?}", v.property, v.message, v.choices);
            }
        }
        std::process::exit(1);
    }
}

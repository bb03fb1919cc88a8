//! Command line, fragments and panic capture shared by the harness programs.
use crate::explore::{Stats, Violation};
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

#[derive(Clone, Debug)]
pub struct Args {
    pub property: String,
    pub tier: String,
    pub out: String,
    pub replay: Option<Vec<u32>>,
    pub part: Option<String>,
    pub threads: usize,
    pub wall: f64,
    pub aux: Option<String>,
}

impl Args {
    pub fn parse() -> Args {
        let mut a = Args {
            property: String::new(),
            tier: "quick".into(),
            out: "/dev/null".into(),
            replay: None,
            part: None,
            threads: std::thread::available_parallelism().map_or(8, |n| n.get()),
            wall: 100.0,
            aux: None,
        };
        let mut it = std::env::args().skip(1);
        while let Some(k) = it.next() {
            let v = it.next().unwrap_or_else(|| panic!("{k} needs a value"));
            match k.as_str() {
                "--property" => a.property = v,
                "--tier" => a.tier = v,
                "--out" => a.out = v,
                "--part" => a.part = Some(v),
                "--threads" => a.threads = v.parse().unwrap(),
                "--wall" => a.wall = v.parse().unwrap(),
                "--aux" => a.aux = Some(v),
                "--replay" => {
                    a.replay = Some(
                        v.split(',')
                            .filter(|s| !s.is_empty())
                            .map(|s| s.parse().unwrap())
                            .collect(),
                    )
                }
                _ => panic!("unknown option {k}"),
            }
        }
        a
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
}

/// What one harness program covered for one property.
pub struct Fragment {
    pub args: Args,
    pub t0: Instant,
    pub parts: Vec<(String, Stats)>,
    pub notes: Vec<(String, J)>,
    pub known: Vec<String>,
}

impl Fragment {
    pub fn new(args: &Args) -> Self {
        Fragment {
            args: args.clone(),
            t0: Instant::now(),
            parts: Vec::new(),
            notes: Vec::new(),
            known: Vec::new(),
        }
    }
    pub fn add(&mut self, part: &str, st: Stats) {
        eprintln!(
            "{part}: {} executions, {} states, {} transitions, {} outcomes, depth {}, deviations <= {}{}{}",
            st.executions,
            st.states,
            st.transitions,
            st.outcomes,
            st.max_depth,
            st.max_deviations,
            if st.truncated { ", TRUNCATED" } else { "" },
            if st.violations.is_empty() {
                String::new()
            } else {
                format!(", {} VIOLATIONS", st.violations.len())
            }
        );
        self.parts.push((part.into(), st));
    }
    pub fn note(&mut self, k: &str, v: J) {
        self.notes.push((k.into(), v));
    }
    pub fn failed(&self) -> bool {
        self.parts.iter().any(|p| !p.1.violations.is_empty())
    }
    pub fn finish(&self) {
        let mut parts = Vec::new();
        let mut viols = Vec::new();
        for (name, st) in &self.parts {
            parts.push(json!({
                "part": name, "executions": st.executions, "states": st.states, "transitions": st.transitions,
                "outcomes": st.outcomes, "max_depth": st.max_depth, "max_deviations": st.max_deviations,
                "beyond_bound": st.skipped_by_bound, "truncated": st.truncated, "diverged": st.diverged,
                "samples": st.samples.iter().take(3).collect::<Vec<_>>(),
            }));
            for v in &st.violations {
                viols.push(violation_json(name, v));
            }
        }
        let j = json!({
            "property": self.args.property, "tier": self.args.tier, "parts": parts, "violations": viols,
            "known": self.known, "notes": self.notes.iter().cloned().collect::<serde_json::Map<String, J>>(),
            "wall_s": self.t0.elapsed().as_secs_f64(),
        });
        std::fs::write(&self.args.out, j.to_string()).expect("writing the fragment");
    }
    /// Reports a hang from another thread and ends the process.
    pub fn hang(args: &Args, part: &str, choices: Vec<u32>) -> ! {
        let v = Violation {
            property: args.property.clone(),
            message: "the code under test does not return (hang)".into(),
            choices,
            detail: vec![],
        };
        let j = json!({"property": args.property, "tier": args.tier,
            "parts": [{"part": part, "executions": 1, "states": 0, "transitions": 0, "truncated": true, "samples": []}],
            "violations": [violation_json(part, &v)], "known": [], "notes": {}, "wall_s": 0.0});
        std::fs::write(&args.out, j.to_string()).ok();
        eprintln!("HANG in {part}: {:?}", v.choices);
        std::process::exit(3);
    }
}

fn violation_json(part: &str, v: &Violation) -> J {
    json!({"property": v.property, "part": part, "message": v.message, "choices": v.choices, "detail": v.detail})
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static CATCHING: RefCell<u32> = const { RefCell::new(0) };
}

pub fn init_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if CATCHING.with(|c| *c.borrow()) > 0 {
            PANIC.with(|p| *p.borrow_mut() = Some(info.to_string().replace('\n', " ")));
        } else {
            default(info);
        }
    }));
}

/// Runs code under test; a panic comes back as its message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    CATCHING.with(|c| *c.borrow_mut() += 1);
    let r = catch_unwind(AssertUnwindSafe(f));
    CATCHING.with(|c| *c.borrow_mut() -= 1);
    r.map_err(|_| {
        PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".into())
    })
}

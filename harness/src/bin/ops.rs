//! Engine O: mutation, crossover and selection with every random choice owned.
use cambrian::crossover::Crossover;
use cambrian::meta::{CrossoverParams, MutationParams};
use cambrian::mutation::mutate;
use cambrian::spec::Spec;
use cambrian::spec_util;
use cambrian::value::Value;
use cambrian::verif::{PathContext, Selection, SelectionImpl};
use rand::rngs::StdRng;
use rand::SeedableRng;
use serde_json::json;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::Mutex;
use std::time::Duration;
use vharness::catalog::{self, Entry};
use vharness::common::{guarded, init_panic_hook, Args, Fragment};
use vharness::explore::{explore, hash64, Ctx, Limits};
use vharness::refspec::{self, RN, RV};
use vharness::rngctl::{install, Base, Policy};

type C = Rc<RefCell<Ctx>>;
type Viols = Vec<(String, String)>;

struct Item {
    name: String,
    spec: Spec,
    rn: RN,
    samples: Vec<RV>,
}

fn load(entries: Vec<Entry>, cap: usize) -> Vec<Item> {
    entries
        .into_iter()
        .map(|e| {
            let rn = refspec::parse_str(&e.yaml).unwrap_or_else(|m| panic!("catalogue entry {}: {m}\n{}", e.name, e.yaml));
            let spec = spec_util::from_yaml_str(&e.yaml)
                .unwrap_or_else(|m| panic!("catalogue entry {} rejected: {m}\n{}", e.name, e.yaml));
            let samples = rn.samples(cap);
            Item {
                name: e.name,
                spec,
                rn,
                samples,
            }
        })
        .collect()
}

/// The same with values whose parts are all different.
fn load_spread(entries: Vec<Entry>, n: u64) -> Vec<Item> {
    let mut v = load(entries, 1);
    for it in &mut v {
        for salt in 0..n {
            let x = it.rn.spread(salt);
            it.rn.conforms(&x).unwrap_or_else(|m| panic!("{}: {m}", it.name));
            if !it.samples.contains(&x) {
                it.samples.push(x);
            }
        }
    }
    v
}

fn mp(p: f64, s: f64) -> MutationParams {
    MutationParams {
        mutation_prob: p,
        mutation_scale: s,
    }
}
fn cp(p: f64, s: f64) -> CrossoverParams {
    CrossoverParams {
        crossover_prob: p,
        selection_pressure: s,
    }
}

const BASES: [Base; 4] = [Base::False, Base::TrueFirst, Base::TrueLast, Base::Alternate];

struct V<'a> {
    ctx: &'a C,
    out: Viols,
}
impl V<'_> {
    fn v(&mut self, p: &str, m: String) {
        self.out.push((p.into(), m));
    }
    fn note(&self, m: String) {
        self.ctx.borrow_mut().note.push(m);
    }
}

/// Oracles of one mutation.
fn judge_mutation(v: &mut V, it: &Item, a: &RV, b: &RV, prob: f64, scale: f64) {
    if let Err(e) = it.rn.conforms(b) {
        v.v("C01", format!("{}: mutating {} gives {}: {e}", it.name, show(a), show(b)));
    }
    if prob == 0.0 && !same(a, b) {
        v.v(
            "C13",
            format!("{}: mutation with probability 0 turned {} into {}", it.name, show(a), show(b)),
        );
    }
    if scale == 1.0 {
        if let Err(e) = it.rn.mutation_of(a, b, false) {
            v.v("C13", format!("{}: mutating {} gives {}: {e}", it.name, show(a), show(b)));
        }
    }
    if prob == 1.0 && scale == 1.0 {
        if let Err(e) = it.rn.mutation_of(a, b, true) {
            let p = if e.contains("not resized") { "C13" } else { "C17" };
            v.v(p, format!("{}: mutating {} gives {}: {e}", it.name, show(a), show(b)));
            if p == "C13" {
                v.v("C17", format!("{}: mutating {} gives {}: {e}", it.name, show(a), show(b)));
            }
        }
    }
    // a real mutation must also survive the trip to JSON
    if let Err(e) = guarded(|| b.value().to_json()) {
        v.v("C01", format!("{}: {} has no JSON form: {e}", it.name, show(b)));
    }
}

fn same(a: &RV, b: &RV) -> bool {
    a == b && format!("{a:?}") == format!("{b:?}")
}

fn show(a: &RV) -> String {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.json().to_string())) {
        Ok(s) => s,
        Err(_) => format!("{a:?}"),
    }
}

fn judge_crossover(v: &mut V, it: &Item, ps: &[&RV], c: &RV) {
    let what = |c: &RV| {
        format!(
            "{}: recombining {} gives {}",
            it.name,
            ps.iter().map(|p| show(p)).collect::<Vec<_>>().join(" | "),
            show(c)
        )
    };
    if let Err(e) = it.rn.conforms(c) {
        v.v("C01", format!("{}: {e}", what(c)));
    }
    if let Err(e) = it.rn.offspring_of(ps, c) {
        v.v("C12", format!("{}: {e}", what(c)));
    }
    if ps.iter().all(|p| same(p, ps[0])) && !same(c, ps[0]) {
        v.v("C12", format!("{}, the parents are identical", what(c)));
    }
}

fn do_mutate(v: &mut V, it: &Item, a: &RV, prob: f64, scale: f64, pc: &mut PathContext, rng: &mut StdRng) -> Option<RV> {
    let val = a.value();
    match guarded(|| mutate(&it.spec, &val, &mp(prob, scale), pc, rng)) {
        Ok(b) => {
            let b = RV::of(&b.0);
            v.note(format!("mutate p={prob} scale={scale}: {} -> {}", show(a), show(&b)));
            judge_mutation(v, it, a, &b, prob, scale);
            Some(b)
        }
        Err(p) => {
            v.v("*", format!("{}: mutating {} panics: {p}", it.name, show(a)));
            None
        }
    }
}

fn do_crossover(v: &mut V, it: &Item, ps: &[&RV], prob: f64, press: f64, pc: &mut PathContext, rng: &mut StdRng) -> Option<RV> {
    let vals: Vec<Value> = ps.iter().map(|p| p.value()).collect();
    let refs: Vec<&Value> = vals.iter().collect();
    match guarded(|| Crossover::new().crossover(&it.spec, &refs, &cp(prob, press), pc, rng)) {
        Ok(c) => {
            let c = RV::of(&c.0);
            v.note(format!(
                "crossover p={prob} pressure={press}: {} -> {}",
                ps.iter().map(|p| show(p)).collect::<Vec<_>>().join(" | "),
                show(&c)
            ));
            judge_crossover(v, it, ps, &c);
            Some(c)
        }
        Err(p) => {
            v.v("*", format!("{}: recombining panics: {p}", it.name));
            None
        }
    }
}

fn state(v: &V, it: &Item, x: &RV, step: usize) {
    let mut c = v.ctx.borrow_mut();
    c.states.push(hash64(&(&it.name, step, format!("{x:?}"))));
    c.outcome = Some(format!("{}: {}", it.name, show(x)));
}

fn pick_policy(v: &V, full: bool) -> Policy {
    let k = v.ctx.borrow_mut().choose(BASES.len() as u32 + full as u32) as usize;
    if k < BASES.len() {
        Policy::Dev(BASES[k])
    } else {
        Policy::Full
    }
}

/// One mutation of every sample under every probability.
fn mutations(v: &mut V, it: &Item, full: bool, menu: usize) {
    let (si, prob, scale, reg) = {
        let mut c = v.ctx.borrow_mut();
        let si = c.choose(it.samples.len() as u32) as usize;
        let prob = [0.5, 1.0, 0.0][c.choose(3) as usize];
        let scale = [1.0, 1e300, 1e-300][c.choose(3) as usize];
        let reg = c.choose(2);
        (si, prob, scale, reg)
    };
    if prob == 0.0 && reg == 1 {
        return;
    }
    let a = it.samples[si].clone();
    let mut pc = PathContext::default();
    // as in a run: started from the spec's initial value, or from a guess
    pc.add_nodes_for(&if reg == 0 { it.rn.initial().value() } else { a.value() });
    let mut rng = StdRng::seed_from_u64(0);
    let policy = pick_policy(v, full);
    let g = install(v.ctx, policy, menu, if policy == Policy::Full { 14 } else { 60 });
    let b = do_mutate(v, it, &a, prob, scale, &mut pc, &mut rng);
    drop(g);
    if let Some(b) = b {
        state(v, it, &b, 1);
    }
}

/// Mutations with a small probability of which one comes true: a part that comes into being is as declared.
fn fresh(v: &mut V, it: &Item) {
    let (si, prob) = {
        let mut c = v.ctx.borrow_mut();
        (c.choose(it.samples.len() as u32) as usize, [0.01, 1e-4][c.choose(2) as usize])
    };
    let a = it.samples[si].clone();
    let mut pc = PathContext::default();
    pc.add_nodes_for(&it.rn.initial().value());
    let mut rng = StdRng::seed_from_u64(0);
    let g = install(v.ctx, Policy::Dev(Base::False), 1, 400);
    let b = do_mutate(v, it, &a, prob, 1.0, &mut pc, &mut rng);
    let p = g.log.borrow().bern_prob;
    drop(g);
    if let Some(b) = b {
        // no second rare thing happened
        if p > prob * 0.2 {
            let mut parts = Vec::new();
            it.rn.fresh_parts(&a, &b, &mut parts);
            for (from, now) in parts {
                if !same(&from, &now) {
                    v.v("C13", format!("{}: mutating {} with probability {prob} gives {}: the new part is {} instead of {}", it.name, show(&a), show(&b), show(&now), show(&from)));
                }
            }
        }
        state(v, it, &b, 1);
    }
}

/// Chains of mutations and recombinations over a growing pool, with one path context.
fn programs(v: &mut V, it: &Item, depth: usize) {
    let mut pc = PathContext::default();
    let (start, p0) = {
        let mut c = v.ctx.borrow_mut();
        (c.choose(it.samples.len().min(3) as u32) as usize, c.choose(2))
    };
    let prob = [0.5, 1.0][p0 as usize];
    let policy = pick_policy(v, false);
    let mut pool = vec![it.samples[start].clone()];
    pc.add_nodes_for(&pool[0].value());
    let mut rng = StdRng::seed_from_u64(0);
    let g = install(v.ctx, policy, 4, 150);
    for step in 0..depth {
        let ops = if pool.len() == 1 { 1 } else { 3 };
        let k = v.ctx.borrow_mut().choose(ops);
        let r = match k {
            0 => {
                let a = pool[pool.len() - 1].clone();
                do_mutate(v, it, &a, prob, 1.0, &mut pc, &mut rng)
            }
            k => {
                let mut ps: Vec<&RV> = pool.iter().collect();
                if k == 2 {
                    ps.reverse();
                }
                do_crossover(v, it, &ps, [1.0, 0.5][p0 as usize], 0.5, &mut pc, &mut rng)
            }
        };
        match r {
            Some(r) => {
                state(v, it, &r, step + 2);
                pool.push(r);
            }
            None => break,
        }
        if !v.out.is_empty() {
            break;
        }
    }
    drop(g);
}

/// Every tuple of up to three samples as parents.
fn crossovers(v: &mut V, it: &Item, full: bool, max_parents: usize) {
    let n = it.samples.len() as u32;
    let (ps, prob, press) = {
        let mut c = v.ctx.borrow_mut();
        let k = 1 + c.choose(max_parents as u32) as usize;
        let ps: Vec<usize> = (0..k).map(|_| c.choose(n) as usize).collect();
        let prob = [0.5, 1.0, 0.0][c.choose(3) as usize];
        let press = [0.5, 0.0, 1.0][c.choose(3) as usize];
        (ps, prob, press)
    };
    let parents: Vec<&RV> = ps.iter().map(|i| &it.samples[*i]).collect();
    let mut pc = PathContext::default();
    pc.add_nodes_for(&it.rn.initial().value());
    let mut rng = StdRng::seed_from_u64(0);
    let policy = pick_policy(v, full);
    let g = install(v.ctx, policy, 4, if policy == Policy::Full { 12 } else { 60 });
    let c = do_crossover(v, it, &parents, prob, press, &mut pc, &mut rng);
    drop(g);
    if let Some(c) = c {
        state(v, it, &c, 1);
    }
}

/// Populations of parents: all different in turn, in blocks, or one that differs from all others.
fn crowds(v: &mut V, it: &Item, sizes: &[usize], odd: &[usize], menu: u32) {
    let n = it.samples.len();
    if n < 2 {
        return;
    }
    let (ps, prob, press) = {
        let mut c = v.ctx.borrow_mut();
        let k = sizes[c.choose(sizes.len() as u32) as usize];
        let pairs = n * (n - 1);
        let ps: Vec<usize> = match c.choose(2 + pairs as u32) as usize {
            0 => (0..k).map(|i| i % n).collect(),
            1 => (0..k).map(|i| i * n / k).collect(),
            q => {
                let (a, b) = ((q - 2) / (n - 1), (q - 2) % (n - 1));
                let b = b + (b >= a) as usize;
                let at = odd[c.choose(odd.len() as u32) as usize].min(k - 1);
                (0..k).map(|i| if i == at { a } else { b }).collect()
            }
        };
        let prob = [1.0, 0.5][c.choose(menu) as usize];
        let press = [0.0, 0.5][c.choose(menu) as usize];
        (ps, prob, press)
    };
    let parents: Vec<&RV> = ps.iter().map(|i| &it.samples[*i]).collect();
    let mut pc = PathContext::default();
    pc.add_nodes_for(&it.rn.initial().value());
    let mut rng = StdRng::seed_from_u64(0);
    let policy = pick_policy(v, false);
    let g = install(v.ctx, policy, 1, 400);
    let c = do_crossover(v, it, &parents, prob, press, &mut pc, &mut rng);
    drop(g);
    if let Some(c) = c {
        state(v, it, &c, 1);
    }
}

/// Long chains with extreme keys: additions only.
fn key_chains(v: &mut V, it: &Item, len: usize) {
    let rn = &it.rn;
    let keysets: [&[usize]; 5] = [
        &[0],
        &[usize::MAX],
        &[usize::MAX, 0, 1],
        &[3, 1, 2],
        &[5, usize::MAX - 1],
    ];
    let (k, reg) = {
        let mut c = v.ctx.borrow_mut();
        (c.choose(keysets.len() as u32) as usize, c.choose(2))
    };
    let elem = match rn {
        RN::Map { vt, .. } => vt.initial(),
        _ => return,
    };
    let mut a = RV::Map(keysets[k].iter().map(|k| (*k, elem.clone())).collect());
    let mut pc = PathContext::default();
    pc.add_nodes_for(&if reg == 0 { a.value() } else { rn.initial().value() });
    let mut rng = StdRng::seed_from_u64(0);
    let g = install(v.ctx, Policy::Full, 1, 64);
    for step in 0..len {
        match do_mutate(v, it, &a, 1.0, 1.0, &mut pc, &mut rng) {
            Some(b) => {
                state(v, it, &b, step);
                a = b;
            }
            None => break,
        }
        if !v.out.is_empty() {
            break;
        }
    }
    drop(g);
}

/// Exact probability of each outcome of `f`, by enumeration of the choice tree.
/// Raw draws are discretised; the second result bounds the error this makes.
fn distribution<K: Ord + Clone + Send>(f: &(dyn Fn(&C) -> Result<K, String> + Sync), grid: usize) -> Result<(BTreeMap<K, f64>, f64, u64), String> {
    // iterative enumeration with probabilities
    let mut dist: BTreeMap<K, f64> = BTreeMap::new();
    let mut stack: Vec<Vec<u32>> = vec![vec![]];
    let mut n = 0u64;
    let mut steps = 0u64;
    let mut raws_max = 0u32;
    let mut lost = 0.0;
    while let Some(prefix) = stack.pop() {
        let plen = prefix.len();
        let ctx: C = Rc::new(RefCell::new(Ctx::with_prefix(prefix)));
        let prob = Rc::new(RefCell::new((1.0f64, 0u32, false)));
        let p2 = prob.clone();
        let c2 = ctx.clone();
        rand::verif::set_hook(Some(Box::new(move |pt| {
            use rand::verif::{Answer, Point};
            let mut pr = p2.borrow_mut();
            let mut c = c2.borrow_mut();
            c.steps += 1;
            if c.steps > 4000 {
                pr.2 = true;
                return Answer::Real;
            }
            match pt {
                Point::Bernoulli(0) => Answer::Script(0),
                Point::Bernoulli(pi) => {
                    let t = pi as f64 / 18446744073709551616.0;
                    let k = c.choose(2);
                    pr.0 *= if k == 1 { t } else { 1.0 - t };
                    Answer::Script(k as u64)
                }
                Point::Range(n) if n <= 256 => {
                    pr.0 /= n as f64;
                    Answer::Script(c.choose(n as u32) as u64)
                }
                Point::Range(n) => {
                    pr.0 /= grid as f64;
                    pr.1 += 1;
                    let k = c.choose(grid as u32) as u64;
                    Answer::Script(((n as u128 * (2 * k as u128 + 1)) / (2 * grid as u128)) as u64)
                }
                Point::Raw64 | Point::Raw32 => {
                    pr.0 /= grid as f64;
                    pr.1 += 1;
                    let k = c.choose(grid as u32) as u64;
                    let frac = (2 * k + 1) as f64 / (2.0 * grid as f64);
                    let raw = ((frac * (1u64 << 53) as f64) as u64) << 11;
                    Answer::Script(if pt == Point::Raw32 { raw >> 32 } else { raw })
                }
            }
        })));
        let k = guarded(|| f(&ctx));
        rand::verif::set_hook(None);
        let k = k.and_then(|k| k)?;
        let (p, raws, cut) = *prob.borrow();
        n += 1;
        raws_max = raws_max.max(raws);
        if cut {
            lost += p;
        } else {
            *dist.entry(k).or_insert(0.0) += p;
        }
        let c = ctx.borrow();
        for i in (plen..c.trace.len()).rev() {
            for alt in 1..c.trace[i].n {
                let mut q: Vec<u32> = c.trace[..i].iter().map(|x| x.pick).collect();
                q.push(alt);
                stack.push(q);
            }
        }
        steps += ctx.borrow().steps as u64;
        if n > 3_000_000 || steps > 40_000_000 {
            return Err("distribution too large to enumerate".into());
        }
    }
    let tol = 1e-9 + lost + raws_max as f64 * 2.0 / grid as f64;
    Ok((dist, tol, n))
}

/// Probability of picking each rank, through the crossover of a single leaf and through the selection itself.
fn selection(args: &Args, frag: &mut Fragment) {
    let yaml = "type: int\ninit: 0\nscale: 1\n";
    let it = &load(
        vec![Entry {
            name: "leaf".into(),
            yaml: yaml.into(),
        }],
        1,
    )[0];
    let mut st = vharness::explore::Stats::default();
    let mut table = Vec::new();
    let nmax = if args.thorough() { 64 } else { 16 };
    for via in 0..3 {
        // big populations: the enumeration is linear in the number of ranks when each rank is one coin
        let sizes = (1..=nmax).chain([17, 33, 51, 64, 100, 101, 129, 255].into_iter().filter(|n| *n > nmax));
        for n in sizes {
            for press in [0.0, 1e-12, 0.05, 0.25, 0.5, 0.75, 0.9, 0.999, 1.0] {
                let vals: Vec<Value> = (0..n).map(|i| RV::Int(i as i64).value()).collect();
                let ranks: Vec<usize> = (0..n).collect();
                let f = |_: &C| -> Result<i64, String> {
                    let mut rng = StdRng::seed_from_u64(0);
                    Ok(match via {
                        0 => {
                            let refs: Vec<&Value> = vals.iter().collect();
                            let mut pc = PathContext::default();
                            match RV::of(&Crossover::new().crossover(&it.spec, &refs, &cp(0.5, press), &mut pc, &mut rng).0) {
                                RV::Int(i) => i,
                                x => return Err(format!("selected {x:?}")),
                            }
                        }
                        1 => {
                            let refs: Vec<&usize> = ranks.iter().collect();
                            *SelectionImpl::new().select_ref(&refs, press, &mut rng) as i64
                        }
                        _ => SelectionImpl::new().select_value(&ranks, press, &mut rng) as i64,
                    })
                };
                let mut grid = 4096;
                let d = loop {
                    match distribution(&f, grid) {
                        Err(e) if e.contains("too large") && grid > 8 => grid /= 8,
                        d => break d,
                    }
                };
                let what = format!("{n} ranks, pressure {press}, via {}", ["crossover", "select_ref", "select_value"][via]);
                let mut bad = Vec::new();
                match d {
                    Err(e) if n > 6 && e.contains("too large") => (),
                    Err(e) => bad.push(format!("{what}: {e}")),
                    Ok((d, tol, cnt)) => {
                        st.executions += cnt;
                        st.transitions += cnt * n as u64;
                        st.states += d.len() as u64;
                        let p: Vec<f64> = (0..n as i64).map(|i| d.get(&i).copied().unwrap_or(0.0)).collect();
                        for i in 1..n {
                            if p[i] > p[i - 1] + tol {
                                bad.push(format!("{what}: rank {i} is picked with probability {}, rank {} with {}", p[i], i - 1, p[i - 1]));
                            }
                        }
                        if d.keys().any(|k| *k < 0 || *k >= n as i64) {
                            bad.push(format!("{what}: picked something that is not there"));
                        }
                        if press >= 0.25 && n > 1 && p[0] <= p[n - 1] + tol && tol < 0.05 {
                            bad.push(format!("{what}: the best rank is not favoured over the worst: {p:?}"));
                        }
                        if n == 4 && via == 0 {
                            table.push(json!({"pressure": press, "probabilities": p}));
                        }
                    }
                }
                for m in bad {
                    st.violations.push(vharness::explore::Violation {
                        property: "C17".into(),
                        message: m,
                        choices: vec![],
                        detail: vec![],
                    });
                }
            }
        }
    }
    st.samples.push(json!(table).to_string());
    st.outcomes = st.states;
    frag.note("selection_probabilities_4_ranks", json!(table));
    frag.add("selection", st);
}

/// Which values a parameter can get to, by repeated mutation with probability 1: every option of an enum or a
/// variant from every other, numbers up and down, maps to more and to fewer elements.
fn reach(st: &mut vharness::explore::Stats, bad: &mut Vec<String>, notes: &mut Vec<serde_json::Value>) {
    let step = |st: &mut vharness::explore::Stats, it: &Item, a: &RV, grid: usize| -> Result<Vec<String>, String> {
        let av = a.value();
        let f = |_: &C| -> Result<String, String> {
            let mut rng = StdRng::seed_from_u64(0);
            let mut pc = PathContext::default();
            pc.add_nodes_for(&av);
            Ok(mutate(&it.spec, &av, &mp(1.0, 1.0), &mut pc, &mut rng).to_json().to_string())
        };
        let (d, _, n) = distribution(&f, grid)?;
        st.executions += n;
        st.transitions += n;
        st.states += d.len() as u64;
        Ok(d.into_iter().filter(|x| x.1 > 0.0).map(|x| x.0).collect())
    };
    // options
    for n in 2..=6usize {
        let names: Vec<String> = (0..n).map(|i| format!("o{i}")).collect();
        let kinds: Vec<(&str, String)> = vec![
            ("enum", format!("type: enum\nvalues: [{}]\ninit: o{}\n", names.join(", "), n / 2)),
            (
                "variant",
                format!(
                    "type: variant\ninit: o{}\n{}",
                    n - 1,
                    names.iter().map(|s| format!("{s}: {{type: const}}\n")).collect::<String>()
                ),
            ),
            (
                "variant of ints",
                format!(
                    "type: variant\ninit: o0\n{}",
                    names.iter().map(|s| format!("{s}: {{type: int, init: 1, scale: 1.0e-300}}\n")).collect::<String>()
                ),
            ),
        ];
        for (kind, yaml) in kinds {
            let it = &load(
                vec![Entry {
                    name: kind.into(),
                    yaml,
                }],
                1,
            )[0];
            let make = |i: usize| match kind {
                "enum" => RV::Enum(names[i].clone()),
                "variant" => RV::Variant(names[i].clone(), Box::new(RV::Const)),
                _ => RV::Variant(names[i].clone(), Box::new(RV::Int(1))),
            };
            let strs: Vec<String> = (0..n).map(|i| make(i).json().to_string()).collect();
            let mut next: Vec<Vec<usize>> = Vec::new();
            for i in 0..n {
                match step(st, it, &make(i), 2) {
                    Err(e) => {
                        bad.push(format!("{kind} with {n} options: {e}"));
                        return;
                    }
                    Ok(v) => next.push(v.iter().filter_map(|s| strs.iter().position(|t| t == s)).collect()),
                }
            }
            for i in 0..n {
                let mut seen = vec![false; n];
                let mut todo = next[i].clone();
                while let Some(k) = todo.pop() {
                    if !seen[k] {
                        seen[k] = true;
                        todo.extend(&next[k]);
                    }
                }
                if let Some(k) = (0..n).find(|k| *k != i && !seen[*k]) {
                    bad.push(format!("{kind} with {n} options: mutation never gets from option {i} to option {k}"));
                }
            }
            notes.push(json!({"case": format!("{kind} with {n} options"), "one_step": next}));
        }
    }
    // numbers
    for (name, yaml, from, lo, hi) in [
        ("real", "type: real\ninit: 0.0\nscale: 1.0\n", RV::Real(0.5), true, true),
        ("real in a box", "type: real\ninit: 0.0\nscale: 1.0\nmin: -1.0\nmax: 1.0\n", RV::Real(0.5), true, true),
        ("real at its minimum", "type: real\ninit: 0.0\nscale: 1.0\nmin: -1.0\nmax: 1.0\n", RV::Real(-1.0), false, true),
        ("real at its maximum", "type: real\ninit: 0.0\nscale: 1.0\nmin: -1.0\nmax: 1.0\n", RV::Real(1.0), true, false),
        ("negative real", "type: real\ninit: 0.0\nscale: 1.0\n", RV::Real(-0.5), true, true),
        ("int", "type: int\ninit: 0\nscale: 1\n", RV::Int(5), true, true),
        ("negative int", "type: int\ninit: 0\nscale: 1\n", RV::Int(-5), true, true),
        ("zero int", "type: int\ninit: 0\nscale: 1\n", RV::Int(0), true, true),
        ("int in a box", "type: int\ninit: 0\nscale: 1\nmin: -2\nmax: 2\n", RV::Int(0), true, true),
        ("int at its minimum", "type: int\ninit: 0\nscale: 1\nmin: -2\nmax: 2\n", RV::Int(-2), false, true),
        ("int at its maximum", "type: int\ninit: 0\nscale: 1\nmin: -2\nmax: 2\n", RV::Int(2), true, false),
        ("int with a wide scale", "type: int\ninit: 0\nscale: 100\nmin: 0\nmax: 3\n", RV::Int(1), true, true),
    ] {
        let it = &load(
            vec![Entry {
                name: name.into(),
                yaml: yaml.into(),
            }],
            1,
        )[0];
        let num = |s: &str| s.parse::<f64>().unwrap_or(f64::NAN);
        let x = num(&from.json().to_string());
        match step(st, it, &from, 256) {
            Err(e) if e.contains("too large") => (),
            Err(e) => bad.push(format!("{name}: {e}")),
            Ok(v) => {
                if lo && !v.iter().any(|s| num(s) < x) {
                    bad.push(format!("{name}: mutation never makes {x} smaller"));
                }
                if hi && !v.iter().any(|s| num(s) > x) {
                    bad.push(format!("{name}: mutation never makes {x} bigger"));
                }
            }
        }
    }
    // map sizes
    for (n, min, max) in [(1usize, 0, 9), (3, 0, 9), (2, 2, 9), (9, 0, 9), (5, 4, 6), (12, 3, 40)] {
        let it = &load(
            vec![Entry {
                name: "map".into(),
                yaml: catalog::wrap_map("type: const\n", n, Some(min), Some(max)),
            }],
            1,
        )[0];
        for spread in [1usize, 3] {
            let a = RV::Map((0..n).map(|i| (i * spread, RV::Const)).collect());
            match step(st, it, &a, 2) {
                Err(e) => bad.push(format!("map of size {n}: {e}")),
                Ok(v) => {
                    let sizes: Vec<usize> = v
                        .iter()
                        .map(|s| serde_json::from_str::<serde_json::Value>(s).unwrap().as_object().unwrap().len())
                        .collect();
                    if n < max && !sizes.contains(&(n + 1)) {
                        bad.push(format!("a map of size {n} (at most {max}) never grows"));
                    }
                    if n > min && !sizes.contains(&(n - 1)) {
                        bad.push(format!("a map of size {n} (at least {min}) never shrinks"));
                    }
                }
            }
        }
    }
}

/// The positions that have two parts or more in which a and b differ; with a child: those of them where it has
/// something of a in one part and something of b in another.
fn mixable(a: &serde_json::Value, b: &serde_json::Value, child: Option<&serde_json::Value>, path: &str, out: &mut Vec<String>) -> (bool, bool) {
    use serde_json::Value as J;
    let parts: Vec<(String, &J, &J, Option<&J>)> = match (a, b) {
        (J::Object(x), J::Object(y)) => x
            .iter()
            .filter(|(k, _)| y.contains_key(*k))
            .map(|(k, u)| (k.clone(), u, &y[k], child.and_then(|c| c.get(k))))
            .collect(),
        (J::Array(x), J::Array(y)) if x.len() == y.len() => (0..x.len())
            .map(|i| (i.to_string(), &x[i], &y[i], child.and_then(|c| c.get(i))))
            .collect(),
        _ => {
            return match child {
                None => (a != b, a != b),
                Some(c) => (a != b && c == a, a != b && c == b),
            }
        }
    };
    let asked = child.is_some();
    let (mut from_a, mut from_b) = (Vec::new(), Vec::new());
    for (i, (k, u, v, c)) in parts.iter().enumerate() {
        if asked && c.is_none() {
            continue;
        }
        let (x, y) = mixable(u, v, *c, &format!("{path}/{k}"), out);
        if x {
            from_a.push(i);
        }
        if y {
            from_b.push(i);
        }
    }
    if from_a.iter().any(|i| from_b.iter().any(|k| k != i)) {
        out.push(path.to_string());
    }
    (!from_a.is_empty(), !from_b.is_empty())
}

/// Every number that can move does, at every position of every spec, whatever surrounds it.
fn moving(args: &Args, frag: &mut Fragment) {
    let th = args.thorough();
    let mut e = catalog::depth1();
    e.extend(catalog::depth2());
    e.extend(catalog::depth3());
    e.extend(catalog::mixed());
    e.extend(catalog::alike());
    e.extend(catalog::disjoint());
    e.extend(catalog::wide(th));
    let items: Vec<Item> = load_spread(e, 4);
    let cases: Vec<(usize, usize, Vec<String>)> = items
        .iter()
        .enumerate()
        .flat_map(|(i, it)| {
            (0..it.samples.len()).filter_map(move |k| {
                let mut w = Vec::new();
                it.rn.loose(&it.samples[k], "", &mut w);
                (!w.is_empty()).then_some((i, k, w))
            })
        })
        .collect();
    let seen: Vec<Mutex<std::collections::BTreeSet<String>>> = cases.iter().map(|_| Default::default()).collect();
    let exec = |ctx: &C| -> Viols {
        let k = ctx.borrow_mut().choose(cases.len() as u32) as usize;
        let (i, si, want) = &cases[k];
        let (it, a) = (&items[*i], &items[*i].samples[*si]);
        let mut v = V {
            ctx,
            out: Vec::new(),
        };
        let prob = [0.5, 1.0][ctx.borrow_mut().choose(2) as usize];
        let policy = pick_policy(&v, false);
        let g = install(ctx, policy, 2, 3000);
        let mut rng = StdRng::seed_from_u64(0);
        let mut pc = PathContext::default();
        pc.add_nodes_for(&a.value());
        let b = do_mutate(&mut v, it, a, prob, 1.0, &mut pc, &mut rng);
        drop(g);
        if let Some(b) = b {
            let (x, y) = (a.json(), b.json());
            let mut s = seen[k].lock().unwrap();
            for p in want {
                if !s.contains(p) {
                    match (x.pointer(p), y.pointer(p)) {
                        (Some(u), Some(v)) if u != v && v.is_number() => {
                            s.insert(p.clone());
                        }
                        _ => (),
                    }
                }
            }
            drop(s);
            state(&v, it, &b, 1);
        }
        v.out.into_iter().filter(|x| x.0 == "*").map(|x| ("C17".to_string(), x.1)).collect()
    };
    let mut st = explore(
        (0..cases.len() as u32).map(|i| vec![i]).collect(),
        &Limits {
            deviations: Some(1),
            wall: Duration::from_secs_f64((args.wall - frag.t0.elapsed().as_secs_f64()).max(1.0)),
            threads: args.threads,
        },
        Duration::from_secs(30),
        |choices| Fragment::hang(args, "moving numbers", choices),
        exec,
    );
    if !st.truncated {
        for ((i, k, want), got) in cases.iter().zip(&seen) {
            let got = got.lock().unwrap();
            if let Some(p) = want.iter().find(|p| !got.contains(*p)) {
                st.violations.push(vharness::explore::Violation {
                    property: "C17".into(),
                    message: format!("{}: mutating {} never changes the number at {p:?}", items[*i].name, show(&items[*i].samples[*k])),
                    choices: vec![],
                    detail: vec![],
                });
            }
        }
    }
    frag.add("moving numbers", st);
}

/// Mixed offspring at every position that has several parts, in every spec.
fn mixing(args: &Args, frag: &mut Fragment) {
    let th = args.thorough();
    let mut e = catalog::depth1();
    e.extend(catalog::depth2());
    e.extend(catalog::depth3());
    e.extend(catalog::mixed());
    e.extend(catalog::wide(th));
    let items: Vec<Item> = load_spread(e, 4);
    let pairs: Vec<(usize, RV, RV, Vec<String>)> = items
        .iter()
        .enumerate()
        .flat_map(|(i, it)| {
            let mut v = Vec::new();
            for x in 0..4u64 {
                for y in 0..4u64 {
                    let (a, b) = (it.rn.spread(x), it.rn.spread(y));
                    let mut w = Vec::new();
                    mixable(&a.json(), &b.json(), None, "", &mut w);
                    if x != y && !w.is_empty() && (th || x < y) {
                        v.push((i, a, b, w));
                    }
                }
            }
            v
        })
        .collect();
    let seen: Vec<Mutex<std::collections::BTreeSet<String>>> = pairs.iter().map(|_| Default::default()).collect();
    let exec = |ctx: &C| -> Viols {
        let k = ctx.borrow_mut().choose(pairs.len() as u32) as usize;
        let (i, a, b, _) = &pairs[k];
        let it = &items[*i];
        let mut v = V {
            ctx,
            out: Vec::new(),
        };
        let press = [0.5, 0.25][ctx.borrow_mut().choose(2) as usize];
        let policy = pick_policy(&v, false);
        let g = install(ctx, policy, 2, 3000);
        let mut rng = StdRng::seed_from_u64(0);
        let c = do_crossover(&mut v, it, &[a, b], 1.0, press, &mut PathContext::default(), &mut rng);
        drop(g);
        if let Some(c) = c {
            let mut w = Vec::new();
            mixable(&a.json(), &b.json(), Some(&c.json()), "", &mut w);
            seen[k].lock().unwrap().extend(w);
            state(&v, it, &c, 1);
        }
        v.out.into_iter().filter(|x| x.0 == "*").map(|x| ("C17".to_string(), x.1)).collect()
    };
    let mut st = explore(
        (0..pairs.len() as u32).map(|i| vec![i]).collect(),
        &Limits {
            deviations: Some(1),
            wall: Duration::from_secs_f64((args.wall - frag.t0.elapsed().as_secs_f64()).max(1.0)),
            threads: args.threads,
        },
        Duration::from_secs(30),
        |choices| Fragment::hang(args, "mixed offspring", choices),
        exec,
    );
    if !st.truncated {
        for ((i, a, b, want), got) in pairs.iter().zip(&seen) {
            let got = got.lock().unwrap();
            if let Some(p) = want.iter().find(|p| !got.contains(*p)) {
                st.violations.push(vharness::explore::Violation {
                    property: "C17".into(),
                    message: format!(
                        "{}: recombining {} with {} at crossover probability 1: no offspring has something of both at {p:?}",
                        items[*i].name,
                        show(a),
                        show(b)
                    ),
                    choices: vec![],
                    detail: vec![],
                });
            }
        }
    }
    frag.add("mixed offspring", st);
}

/// Mixed offspring and real steps, by probability.
fn variation(args: &Args, frag: &mut Fragment) {
    let mut st = vharness::explore::Stats::default();
    let mut bad: Vec<String> = Vec::new();
    let b = "type: bool\ninit: false\n";
    let two = catalog::wrap_sub2(b, b);
    let arr = catalog::wrap_array(b, 2);
    let arr3 = catalog::wrap_array("type: int\ninit: 0\nscale: 1\n", 3);
    let map = catalog::wrap_map("type: int\ninit: 0\nscale: 1\n", 2, None, None);
    let nested = format!("o:\n  x: {{type: bool, init: false}}\np: {{type: optional, initPresent: true, valueType: {{x: {{type: bool, init: false}}, 'y': {{type: bool, init: false}}}}}}\n");
    let variant = "type: variant\ninit: varA\nvarA:\n  x: {type: bool, init: false}\n  'y': {type: bool, init: false}\nvarB: {type: const}\n";
    let j = |s: &str| serde_json::from_str::<serde_json::Value>(s).unwrap();
    let cases: Vec<(&str, String, Vec<serde_json::Value>)> = vec![
        ("sub", two, vec![j(r#"{"x":false,"y":false}"#), j(r#"{"x":true,"y":true}"#)]),
        ("array", arr, vec![j("[false,false]"), j("[true,true]")]),
        ("array3", arr3, vec![j("[1,2,3]"), j("[4,5,6]"), j("[7,8,9]")]),
        ("map values", map.clone(), vec![j(r#"{"0":1,"1":2}"#), j(r#"{"0":3,"1":4}"#)]),
        ("map keys", map, vec![j(r#"{"0":1,"1":2}"#), j(r#"{"2":1,"3":2}"#)]),
        ("nested", nested, vec![j(r#"{"o":{"x":false},"p":{"x":false,"y":false}}"#), j(r#"{"o":{"x":true},"p":{"x":true,"y":true}}"#)]),
        ("variant", variant.into(), vec![j(r#"{"varA":{"x":false,"y":false}}"#), j(r#"{"varA":{"x":true,"y":true}}"#)]),
    ];
    // whole populations
    let int = "type: int\ninit: 0\nscale: 1\n";
    let mut cases: Vec<(String, String, Vec<serde_json::Value>)> = cases.into_iter().map(|(a, b, c)| (a.to_string(), b, c)).collect();
    for n in [4usize, 8, 16, 50, 100] {
        let opt = "o: {type: optional, initPresent: true, valueType: {type: int, init: 0, scale: 1}}\np: {type: int, init: 0, scale: 1}\n";
        cases.push((format!("array of {n} parents"), catalog::wrap_array(int, 2), (0..n).map(|i| json!([i, 1000 + i])).collect()));
        if n > 50 || n > 16 && !args.thorough() {
            continue;
        }
        cases.push((format!("sub of {n} parents"), catalog::wrap_sub2(int, int), (0..n).map(|i| json!({"x": i, "y": -(i as i64)})).collect()));
        cases.push((format!("map of {n} parents"), catalog::wrap_map(int, 2, None, None), (0..n).map(|i| json!({"0": i, "1": 1000 + i})).collect()));
        cases.push((format!("optional of {n} parents"), opt.into(), (0..n).map(|i| json!({"o": i, "p": i})).collect()));
        if n <= 8 {
            let nest = format!("a: {{type: array, size: 2, valueType: {{type: int, init: 0, scale: 1}}}}\nb: {{type: bool, init: false}}\n");
            cases.push((format!("nested of {n} parents"), nest, (0..n).map(|i| json!({"a": [i, i], "b": i % 2 == 0})).collect()));
        }
    }
    let mut notes = Vec::new();
    for (name, yaml, parents) in cases {
        let spec = spec_util::from_yaml_str(&yaml).expect("spec");
        let vals: Vec<Value> = parents
            .iter()
            .map(|p| cambrian::value_util::from_json_value(p, &spec).expect("parent"))
            .collect();
        for press in [0.0, 0.25, 0.5] {
            let f = |_: &C| -> Result<String, String> {
                let mut rng = StdRng::seed_from_u64(0);
                let mut pc = PathContext::default();
                let refs: Vec<&Value> = vals.iter().collect();
                Ok(Crossover::new().crossover(&spec, &refs, &cp(1.0, press), &mut pc, &mut rng).to_json().to_string())
            };
            let mut grid = 64;
            let d = loop {
                match distribution(&f, grid) {
                    Err(e) if e.contains("too large") && grid > 2 => grid /= 2,
                    d => break d,
                }
            };
            match d {
                Err(e) if e.contains("too large") => (),
                Err(e) => bad.push(format!("{name}: {e}")),
                Ok((d, tol, cnt)) => {
                    st.executions += cnt;
                    st.transitions += cnt;
                    st.states += d.len() as u64;
                    let pure: f64 = parents.iter().map(|p| d.get(&p.to_string()).copied().unwrap_or(0.0)).sum();
                    notes.push(json!({"case": name, "pressure": press, "mixed": 1.0 - pure}));
                    if 1.0 - pure < 0.02 - tol.min(0.019) {
                        bad.push(format!(
                            "{name}: recombining differing parents with crossover probability 1 and pressure {press} yields mixed offspring only with probability {}",
                            1.0 - pure
                        ));
                    }
                }
            }
        }
    }
    // unpinned reals and integers with a scale >= 1 move
    for (name, yaml, vals) in [
        ("real", "type: real\ninit: 0.0\nscale: 1.0\n", vec!["0.0", "0.5", "-3.25", "100.0"]),
        ("real at its lower bound", "type: real\ninit: 0.0\nscale: 1.0\nmin: 0.0\n", vec!["0.0", "5.0"]),
        ("real at its upper bound", "type: real\ninit: 0.0\nscale: 2.0\nmax: 0.0\n", vec!["0.0", "-1.0"]),
        ("real in a box", "type: real\ninit: 0.0\nscale: 10.0\nmin: -1.0\nmax: 1.0\n", vec!["0.0", "-1.0", "1.0"]),
        ("int", "type: int\ninit: 0\nscale: 1\n", vec!["0", "7", "-100"]),
        ("int at its lower bound", "type: int\ninit: 0\nscale: 1\nmin: 0\n", vec!["0", "3"]),
        ("int at its upper bound", "type: int\ninit: 0\nscale: 1\nmax: 0\n", vec!["0", "-3"]),
        ("int in a box", "type: int\ninit: 0\nscale: 5\nmin: 0\nmax: 1\n", vec!["0", "1"]),
        ("int with a big scale", "type: int\ninit: 0\nscale: 1000\n", vec!["0"]),
        ("int with a scale beyond its range", "type: int\ninit: 0\nscale: 1.0e+22\n", vec!["0", "-7"]),
        ("int in a box, with a huge scale", "type: int\ninit: 5\nscale: 1.0e+300\nmin: 3\nmax: 9\n", vec!["5", "3", "9"]),
        ("real with a huge scale", "type: real\ninit: 0\nscale: 1.0e+300\n", vec!["0.0", "1e300"]),
        ("real in a box, with a huge scale", "type: real\ninit: 0\nscale: 1.0e+300\nmin: -1\nmax: 1\n", vec!["0.0", "-1.0", "1.0"]),
    ] {
        let spec = spec_util::from_yaml_str(yaml).expect("spec");
        for a in vals {
            let av = cambrian::value_util::from_json_value(&j(a), &spec).expect("value");
            for ms in [1.0, 3.0] {
                let f = |_: &C| -> Result<String, String> {
                    let mut rng = StdRng::seed_from_u64(0);
                    let mut pc = PathContext::default();
                    Ok(mutate(&spec, &av, &mp(1.0, ms), &mut pc, &mut rng).to_json().to_string())
                };
                let mut grid = 512;
                let d = loop {
                    match distribution(&f, grid) {
                        Err(e) if e.contains("too large") && grid > 4 => grid /= 2,
                        d => break d,
                    }
                };
                match d {
                    Err(e) if e.contains("too large") => (),
                    Err(e) => bad.push(format!("{name}: {e}")),
                    Ok((d, _, cnt)) => {
                        st.executions += cnt;
                        st.transitions += cnt;
                        st.states += d.len() as u64;
                        let stay = d.get(&av.to_json().to_string()).copied().unwrap_or(0.0);
                        notes.push(json!({"case": name, "from": a, "mutation_scale": ms, "unchanged": stay}));
                        // a few attempts: ten in a row without a change must be practically impossible
                        if stay > 0.75 {
                            bad.push(format!(
                                "{name}: mutating {a} with probability 1 leaves it as it is with probability {stay}"
                            ));
                        }
                    }
                }
            }
        }
    }
    reach(&mut st, &mut bad, &mut notes);
    st.outcomes = st.states;
    st.samples = notes.iter().take(3).map(|n| n.to_string()).collect();
    frag.note("variation", json!(notes));
    for m in bad {
        st.violations.push(vharness::explore::Violation {
            property: "C17".into(),
            message: m,
            choices: vec![],
            detail: vec![],
        });
    }
    frag.add("variation", st);
}

fn main() {
    let args = Args::parse();
    init_panic_hook();
    let th = args.thorough();
    let mut frag = Fragment::new(&args);
    let small = Mutex::new(());
    let _ = small;

    type F = Box<dyn Fn(&mut V, &Item) + Sync>;
    struct P {
        name: &'static str,
        items: Vec<Item>,
        dev: u32,
        f: F,
    }
    let mut d12 = catalog::depth1();
    d12.extend(catalog::depth2());
    let mut deep = catalog::depth3();
    deep.extend(catalog::mixed());
    let maps: Vec<Entry> = catalog::depth2()
        .into_iter()
        .filter(|e| e.name.starts_with("map0(") || e.name.starts_with("map2..("))
        .collect();
    let unbounded: Vec<Entry> = maps
        .iter()
        .filter(|e| ["map0(const)", "map0(frozen)", "map0(bool)"].contains(&e.name.as_str()))
        .cloned()
        .collect();
    let mut all: Vec<P> = Vec::new();
    let p = args.property.as_str();
    let muts = matches!(p, "C01" | "C13" | "C17" | "C15");
    let xs = matches!(p, "C01" | "C12" | "C15");
    if muts {
        all.push(P {
            name: "mutations, all choices",
            items: load(d12.clone(), 4),
            dev: 1 + th as u32,
            f: Box::new(move |v, it| mutations(v, it, true, if th { 6 } else { 4 })),
        });
        all.push(P {
            name: "mutations of nested specs",
            items: load(deep.clone(), 4),
            dev: 1 + th as u32,
            f: Box::new(|v, it| mutations(v, it, false, 4)),
        });
        all.push(P {
            name: "map keys",
            items: load(unbounded, 2),
            dev: 0,
            f: Box::new(move |v, it| key_chains(v, it, 3 + th as usize)),
        });
    }
    if p == "C13" {
        let mut e = d12.clone();
        e.extend(deep.clone());
        e.extend(catalog::alike());
        e.extend(catalog::disjoint());
        all.push(P {
            name: "fresh parts",
            items: load(e, 6),
            dev: 2,
            f: Box::new(|v, it| fresh(v, it)),
        });
    }
    if muts {
        all.push(P {
            name: "mutations of big maps",
            items: load(catalog::big_maps(), 6),
            dev: 1 + th as u32,
            f: Box::new(|v, it| mutations(v, it, false, 1)),
        });
        all.push(P {
            name: "mutations of wide specs",
            items: load_spread(catalog::wide(th), 2),
            dev: 1,
            f: Box::new(|v, it| mutations(v, it, false, 1)),
        });
        all.push(P {
            name: "mutations of like options",
            items: load(catalog::alike(), 8),
            dev: 2 + th as u32,
            f: Box::new(|v, it| mutations(v, it, false, 2)),
        });
        all.push(P {
            name: "mutations of disjoint options",
            items: load(catalog::disjoint(), 8),
            dev: 1 + th as u32,
            f: Box::new(|v, it| mutations(v, it, false, 2)),
        });
    }
    if xs {
        let (some, rest): (Vec<Entry>, Vec<Entry>) = catalog::big_maps()
            .into_iter()
            .partition(|e| ["map 9 ", "map 12 ", "map 5 "].iter().any(|n| e.name.starts_with(n)));
        all.push(P {
            name: "recombinations of maps",
            items: load(some, 4),
            dev: 1 + th as u32,
            f: Box::new(|v, it| crossovers(v, it, false, 2)),
        });
        all.push(P {
            name: "recombinations of big maps",
            items: load(rest, 3),
            dev: th as u32,
            f: Box::new(|v, it| crossovers(v, it, false, 2)),
        });
        all.push(P {
            name: "recombinations of wide specs",
            items: load_spread(catalog::wide(th), 2),
            dev: th as u32,
            f: Box::new(|v, it| crossovers(v, it, false, 3)),
        });
        all.push(P {
            name: "recombinations of every number",
            items: load_spread(catalog::depth1().into_iter().chain(catalog::depth2()).filter(|e| th || !e.name.contains('(') || e.name.contains("(int)")).collect(), 3),
            dev: th as u32,
            f: Box::new(move |v, it| crowds(v, it, &[4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 19, 20, 21, 25, 31, 32, 33, 50, 64, 65, 99, 100, 101, 102], &[0, 1, 199], 2)),
        });
        all.push(P {
            name: "recombinations of like options",
            items: load(catalog::alike(), 4),
            dev: 1 + th as u32,
            f: Box::new(|v, it| crossovers(v, it, false, 2)),
        });
        all.push(P {
            name: "recombinations of disjoint options",
            items: load(catalog::disjoint(), 6),
            dev: 1 + th as u32,
            f: Box::new(|v, it| crossovers(v, it, false, 2)),
        });
        let mut e = d12.clone();
        e.extend(deep.clone());
        e.extend(catalog::disjoint());
        all.push(P {
            name: "recombinations of groups",
            items: load(e.clone(), if th { 4 } else { 3 }),
            dev: 1,
            f: Box::new(move |v, it| crowds(v, it, &[4, 8][..1 + th as usize], &[0, 1, 2, 99], 2)),
        });
        let some = ["int", "enum3", "array2(int)", "sub(int)", "opt-(int)", "variantA(int)", "map1..3(int)", "opt+(enum3)", "variant of 3 disjoint ints"];
        e.retain(|e| some.contains(&e.name.as_str()));
        all.push(P {
            name: "recombinations of crowds",
            items: load(e, 4),
            dev: 1,
            f: Box::new(move |v, it| crowds(v, it, if th { &[7, 16, 41, 64, 200] } else { &[7, 16, 41] }, &[0, 6, 15, 20, 40, 63, 199], 1 + th as u32)),
        });
        all.push(P {
            name: "recombinations, all choices",
            items: load(d12.clone(), 4),
            dev: 1,
            f: Box::new(move |v, it| crossovers(v, it, th, 3)),
        });
        all.push(P {
            name: "recombinations of nested specs",
            items: load(deep.clone(), 4),
            dev: 1,
            f: Box::new(move |v, it| crossovers(v, it, false, if th { 3 } else { 2 })),
        });
    }
    if matches!(p, "C01" | "C12" | "C13" | "C15") {
        let mut e = d12.clone();
        e.extend(deep.clone());
        all.push(P {
            name: "programs",
            items: load(e, 3),
            dev: 1 + th as u32,
            f: Box::new(move |v, it| programs(v, it, if th { 4 } else { 3 })),
        });
    }
    let n = all.len();
    for (pi, part) in all.iter().enumerate() {
        if args.part.as_ref().map_or(false, |q| q != part.name) {
            continue;
        }
        let left = args.wall - frag.t0.elapsed().as_secs_f64();
        let wall = (left / (n - pi) as f64 * 1.5).clamp(1.0, left.max(1.0));
        let exec = |ctx: &C| -> Viols {
            let k = ctx.borrow_mut().choose(part.items.len() as u32);
            let mut v = V {
                ctx,
                out: Vec::new(),
            };
            (part.f)(&mut v, &part.items[k as usize]);
            v.out
                .into_iter()
                .filter(|x| x.0 == args.property || x.0 == "*")
                .map(|x| (args.property.clone(), x.1))
                .collect()
        };
        if let Some(ch) = &args.replay {
            let ctx = Rc::new(RefCell::new(Ctx::with_prefix(ch.clone())));
            let v = exec(&ctx);
            for n in &ctx.borrow().note {
                println!("{n}");
            }
            for x in &v {
                println!("VIOLATED {}: {}", x.0, x.1);
            }
            std::process::exit(!v.is_empty() as i32);
        }
        let st = explore(
            (0..part.items.len() as u32).map(|i| vec![i]).collect(),
            &Limits {
                deviations: Some(part.dev),
                wall: Duration::from_secs_f64(wall),
                threads: args.threads,
            },
            Duration::from_secs(30),
            |choices| Fragment::hang(&args, part.name, choices),
            exec,
        );
        frag.add(part.name, st);
        if frag.failed() {
            break;
        }
    }
    if p == "C17" && !frag.failed() {
        if args.part.as_ref().map_or(true, |q| q == "selection") {
            selection(&args, &mut frag);
        }
        if args.part.as_ref().map_or(true, |q| q == "variation") {
            variation(&args, &mut frag);
        }
        if args.part.as_ref().map_or(true, |q| q == "mixed offspring") {
            mixing(&args, &mut frag);
        }
        if args.part.as_ref().map_or(true, |q| q == "moving numbers") {
            moving(&args, &mut frag);
        }
        if args.replay.is_some() {
            for (_, st) in &frag.parts {
                for v in &st.violations {
                    println!("VIOLATED {}: {}", v.property, v.message);
                }
            }
            std::process::exit(frag.failed() as i32);
        }
    }
    frag.finish();
    if frag.failed() {
        for (n, st) in &frag.parts {
            for v in st.violations.iter().take(8) {
                eprintln!("{n}: {}: {} {:?}", v.property, v.message, v.choices);
            }
        }
        std::process::exit(1);
    }
}

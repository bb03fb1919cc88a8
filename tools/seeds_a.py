H_RS = r'''#![allow(dead_code)]
use async_trait::async_trait;
use cambrian::error::Error;
use cambrian::message::Command;
use cambrian::meta::{AlgoConfigBuilder, AsyncObjectiveFunction};
use cambrian::result::FinalReport;
use cambrian::{async_launch, spec_util};
use futures::channel::mpsc;
use futures::StreamExt;
use std::sync::Mutex;

#[derive(Clone, Debug)]
pub struct Rec {
    pub value: serde_json::Value,
    pub seed: u64,
    pub id: usize,
}

pub struct Obj<F> {
    pub f: F,
    pub log: Mutex<Vec<Rec>>,
}

#[async_trait]
impl<'a, F> AsyncObjectiveFunction for &'a Obj<F>
where
    F: Fn(&Rec, usize) -> Option<f64> + Sync + Send,
{
    async fn evaluate(
        &self,
        value: serde_json::Value,
        _abort: async_broadcast::Receiver<()>,
        seed: u64,
        individual_id: usize,
    ) -> Result<Option<f64>, Error> {
        let rec = Rec { value, seed, id: individual_id };
        let n = {
            let mut log = self.log.lock().unwrap();
            log.push(rec.clone());
            log.len() - 1
        };
        tokio::task::yield_now().await;
        Ok((self.f)(&rec, n))
    }
}

/// One run with a scripted objective function: (result, evaluations in the order they were started)
pub fn run<F>(
    spec: &str,
    sample_size: usize,
    num_concurrent: usize,
    max: usize,
    target: Option<f64>,
    guess: Option<serde_json::Value>,
    f: F,
) -> (Result<FinalReport, Error>, Vec<Rec>)
where
    F: Fn(&Rec, usize) -> Option<f64> + Sync + Send,
{
    let spec = spec_util::from_yaml_str(spec).unwrap();
    let conf = AlgoConfigBuilder::new()
        .individual_sample_size(sample_size)
        .num_concurrent(num_concurrent)
        .build()
        .unwrap();
    let obj = Obj { f, log: Mutex::new(Vec::new()) };
    let result = tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .build()
        .unwrap()
        .block_on(async {
            let (_cmd, cmd_recv) = mpsc::channel::<Command>(4);
            let (sender, recv) = mpsc::channel(256);
            let fut = async_launch::launch(spec, &obj, conf, cmd_recv, sender, Some(max), target, guess);
            let drain = recv.for_each(|_| async {});
            futures::join!(fut, drain).0
        });
    let log = obj.log.lock().unwrap().clone();
    (result, log)
}
'''

SEEDS = []

def seed(**k):
    SEEDS.append(k)

seed(id='C01-map-min', prop='C01',
  needs='a resizable map with both size bounds, parents of different sizes whose union of keys is recombined (multi-generation run)',
  breaks='the crossover only forces the key selection up to minSize when no maxSize is declared, so an offspring map can be smaller than minSize',
  edits=[('src/crossover.rs', 'let min_size = size_bounds.0.unwrap_or(0);\n        let max_size = size_bounds.1.unwrap_or(all_keys.len());',
   'let (min_size, max_size) = match size_bounds {\n            (_, Some(max_size)) => (0, max_size),\n            (min_size, None) => (min_size.unwrap_or(0), all_keys.len()),\n        };')],
  main=r'''mod h;
fn main() {
    let spec = "
type: anon map
initSize: 5
minSize: 5
maxSize: 6
valueType:
  type: real
  init: 0
  scale: 1
";
    let (_, log) = h::run(spec, 1, 2, 3000, None, None, |r, n| {
        let m = r.value.as_object().unwrap();
        Some(((m.len() * 7 + n * 13) % 31) as f64)
    });
    for r in log {
        let len = r.value.as_object().unwrap().len();
        if !(5..=6).contains(&len) {
            eprintln!("individual {} has a map of {} elements", r.id, len);
            std::process::exit(1);
        }
    }
}
''')

seed(id='C01-int-clamp', prop='C01',
  needs='an integer with a bound beyond 2^53 that no double represents',
  breaks='mutated integers are clamped as doubles; the bound is rounded up in the conversion and the integer ends up beyond it',
  edits=[('src/mutation.rs', '''            let mut value = mutate_cauchy(value, scale, mutation_params, rng)
                .round()
                .to_i64()
                .unwrap_or(orig_value);

            if let Some(min) = min {
                value = value.max(min);
            }

            if let Some(max) = max {
                value = value.min(max);
            }

            value
''', '''            let mut value = mutate_cauchy(value, scale, mutation_params, rng).round();

            if let Some(min) = min {
                value = value.max(min as f64);
            }

            if let Some(max) = max {
                value = value.min(max as f64);
            }

            value.to_i64().unwrap_or(orig_value)
''')],
  main=r'''mod h;
fn main() {
    let max = 9007199254740995i64;
    let spec = format!("
x:
  type: int
  init: 9007199254740900
  scale: 100
  max: {}
", max);
    let (_, log) = h::run(&spec, 1, 1, 500, None, None, |_, n| Some(n as f64));
    for r in log {
        let x = r.value["x"].as_i64().unwrap();
        if x > max {
            eprintln!("{} > {}", x, max);
            std::process::exit(1);
        }
    }
}
''')

seed(id='C02-target-order', prop='C02',
  needs='a run stopped by its budget whose very last processed evaluation is the best one',
  breaks='the last evaluation within the budget is counted but not handed to the algorithm, so its result is lost',
  edits=[('src/controller.rs', '''                        algo_ctx.process_individual_eval(evaluated_individual.ind_ctx, evaluated_individual.obj_func_val);
'''.replace('evaluated','evaled'), '''                        // the last one has no influence on further individuals
                        if algo_ctx.best_seen_final().is_none() || max_num_eval.map_or(true, |max_num_eval| count_accepted + count_rejected < max_num_eval) {
                            algo_ctx.process_individual_eval(evaled_individual.ind_ctx, evaled_individual.obj_func_val);
                        }
''')],
  main=r'''mod h;
fn main() {
    let spec = "
x:
  type: real
  init: 5
  scale: 1
";
    for max in [2usize, 5, 17] {
        let (res, _) = h::run(spec, 1, 1, max, None, None, |_, n| Some(100.0 - n as f64));
        let got = res.unwrap().best_seen.obj_func_val;
        let want = 100.0 - (max - 1) as f64;
        if got != want {
            eprintln!("best of {} evaluations: {} instead of {}", max, got, want);
            std::process::exit(1);
        }
    }
}
''')

seed(id='C03-reeval', prop='C03',
  needs='sample size of at least 2 and a population large enough for re-evaluations (20 individuals)',
  breaks='re-evaluations do not count against the budget, so the objective function is started more than N times',
  edits=[('src/controller.rs', '''                            evaled_individuals.push(eval_future);
                            pushed_for_eval_count += 1;
''', '''                            evaled_individuals.push(eval_future);
                            pushed_for_eval_count = pushed_for_eval_count.max(new_individual_id + 1);
'''), ('src/controller.rs', '                            let new_individual = algo_ctx.next_individual();\n',
  '                            let new_individual = algo_ctx.next_individual();\n                            let new_individual_id = new_individual.id;\n')],
  main=r'''mod h;
fn main() {
    let spec = "
x:
  type: real
  init: 5
  scale: 1
";
    for conc in [1usize, 4, 9] {
        let (res, log) = h::run(spec, 3, conc, 120, None, None, |r, n| Some((r.id * 31 + n) as f64 % 17.0));
        drop(res);
        if log.len() != 120 {
            eprintln!("{} evaluations started with a budget of 120", log.len());
            std::process::exit(1);
        }
    }
}
''')

seed(id='C04-drain', prop='C04',
  needs='a stop request with an evaluation in flight whose result arrives while draining and is the best',
  breaks='results that arrive after the stop request are counted and reported but not considered for the best-seen',
  edits=[('src/controller.rs', '''                        algo_ctx.process_individual_eval(evaled_individual.ind_ctx, evaled_individual.obj_func_val);
''', '''                        algo_ctx.process_individual_eval(
                            evaled_individual.ind_ctx,
                            // no more individuals are going to be created once stopped
                            evaled_individual.obj_func_val.filter(|_| !stop_requested.load(Ordering::Relaxed) || count_accepted < 2),
                        );
''')],
  main=r'''mod h;
use async_trait::async_trait;
use cambrian::error::Error;
use cambrian::message::Command;
use cambrian::meta::{AlgoConfigBuilder, AsyncObjectiveFunction};
use cambrian::{async_launch, spec_util};
use futures::channel::mpsc;
use futures::{SinkExt, StreamExt};
use std::sync::atomic::{AtomicUsize, Ordering};

struct Obj(AtomicUsize);

#[async_trait]
impl AsyncObjectiveFunction for Obj {
    async fn evaluate(
        &self,
        _value: serde_json::Value,
        mut abort: async_broadcast::Receiver<()>,
        _seed: u64,
        _id: usize,
    ) -> Result<Option<f64>, Error> {
        let n = self.0.fetch_add(1, Ordering::SeqCst);
        if n < 5 {
            return Ok(Some(100.0 - n as f64));
        }
        // in flight until told to abort, and then done with a result
        abort.recv().await.ok();
        Ok(Some(1.0))
    }
}

fn main() {
    let spec = spec_util::from_yaml_str("x:\n  type: real\n  init: 1\n  scale: 1\n").unwrap();
    let conf = AlgoConfigBuilder::new().num_concurrent(2).build().unwrap();
    let report = tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .build()
        .unwrap()
        .block_on(async {
            let (mut cmd, cmd_recv) = mpsc::channel::<Command>(4);
            let (sender, recv) = mpsc::channel(256);
            let fut = async_launch::launch(spec, Obj(AtomicUsize::new(0)), conf, cmd_recv, sender, None, None, None);
            let drain = recv.for_each(|_| async {});
            let stop = async {
                tokio::time::sleep(std::time::Duration::from_millis(300)).await;
                cmd.send(Command::Terminate).await.unwrap();
                tokio::time::sleep(std::time::Duration::from_millis(300)).await;
            };
            futures::join!(fut, drain, stop).0
        })
        .unwrap();
    if report.best_seen.obj_func_val != 1.0 {
        eprintln!("best seen {} although a result of 1 arrived while draining", report.best_seen.obj_func_val);
        std::process::exit(1);
    }
}
''')

seed(id='C06-signal', prop='C06',
  needs='a child that prints a valid result and then dies from a signal',
  breaks='a child killed by a signal (no exit code) counts as successful',
  edits=[('src/process.rs', '    if output.status.success() {', '    if output.status.code().unwrap_or_default() == 0 {')],
  cli=r'''
cat > spec.yaml <<END
x:
  type: real
  init: 1
  scale: 1
END
cat > obj.sh <<'END'
#!/bin/bash
echo '{"objFuncVal": 1}'
kill -SEGV $$
END
chmod +x obj.sh
timeout 60 "$bin" -s spec.yaml -n 5 ./obj.sh > out 2> err
rc=$?
[ $rc -ne 0 ] || { echo "a crashing objective function is taken for successful"; exit 1; }
[ $rc -ne 124 ] || exit 3
''')

seed(id='C06-nan', prop='C06',
  needs='an objective function that returns NaN (in-process or asynchronous)',
  breaks='NaN is treated as a rejection instead of failing the run',
  edits=[('src/controller.rs', '    let finitified_result = eval_result\n        .map(FiniteF64::new)', '    let finitified_result = eval_result\n        .filter(|val| !val.is_nan())\n        .map(FiniteF64::new)')],
  main=r'''mod h;
fn main() {
    let spec = "
x:
  type: real
  init: 5
  scale: 1
";
    let (res, _) = h::run(spec, 1, 2, 30, None, None, |_, n| Some(if n == 7 { f64::NAN } else { n as f64 }));
    if res.is_ok() {
        eprintln!("success although a NaN was returned");
        std::process::exit(1);
    }
}
''')

seed(id='C07-term', prop='C07',
  needs='a process in the group of a timed out or aborted child that ignores SIGTERM',
  breaks='the process group is sent SIGTERM instead of SIGKILL; members that ignore it survive the run',
  edits=[('src/process.rs', 'signal::killpg(pgid, Signal::SIGKILL)', 'signal::killpg(pgid, Signal::SIGTERM)')],
  cli=r'''
cat > spec.yaml <<END
x:
  type: real
  init: 1
  scale: 1
END
cat > obj.sh <<'END'
#!/bin/bash
n=$(wc -l < count)
echo x >> count
if [ $n -eq 1 ]; then
  ( trap '' TERM; echo $BASHPID > pid; for i in $(seq 60); do sleep 0.5; done ) > /dev/null 2>&1 &
  sleep 30
fi
echo '{"objFuncVal": 1}'
END
chmod +x obj.sh
: > count
timeout 100 "$bin" -s spec.yaml -n 4 -k 1500ms ./obj.sh > out 2> err
rc=$?
[ -s pid ] || { echo "helper not started"; exit 3; }
alive=0
if kill -0 "$(cat pid)" 2> /dev/null && ! grep -q '^State:.*Z' "/proc/$(cat pid)/status"; then alive=1; kill -9 "$(cat pid)"; fi
[ $rc -eq 0 ] || { echo "exit status $rc"; cat err; exit 1; }
[ $alive -eq 0 ] || { echo "a process of the timed out evaluation is still alive"; exit 1; }
''')

seed(id='C07-secs', prop='C07',
  needs='a per-evaluation time limit that is not a whole number of seconds, and an evaluation that ends within the fraction',
  breaks='the per-evaluation time limit is truncated to whole seconds; evaluations that finish in time are killed',
  edits=[('src/bin/cambrian.rs', '''            parse_duration(kill_after).context("Unable to parse \\"kill objective function after\\"")
''', '''            parse_duration(kill_after)
                .map(|duration| Duration::from_secs(duration.as_secs()))
                .context("Unable to parse \\"kill objective function after\\"")
''')],
  cli=r'''
cat > spec.yaml <<END
x:
  type: real
  init: 1
  scale: 1
END
cat > obj.sh <<'END'
#!/bin/bash
sleep 2.2
echo '{"objFuncVal": 1}'
END
chmod +x obj.sh
timeout 60 "$bin" -s spec.yaml -n 2 --num-concurrent 2 -k 2s900ms -o od ./obj.sh > out 2> err || { echo failed; cat err; exit 1; }
grep -q "rejected objective function evaluations: 0" od/summary_report.txt || { echo "killed although in time"; exit 1; }
''')

seed(id='C08-reinsert', prop='C08',
  needs='sample size of at least 2, a population of 20 and a re-evaluation that is rejected',
  breaks='an individual whose re-evaluation is rejected goes back to the population; it is evaluated again and in total more than sample-size times',
  edits=[('src/algorithm.rs', '''            info!("Individual {}: value rejected", ind_ctx.id);
''', '''            info!("Individual {}: value rejected", ind_ctx.id);

            // keep the samples collected so far
            ind_ctx.state = match ind_ctx.state {
                IndState::PendingEval(obj_func_vals) if !obj_func_vals.is_empty() => {
                    IndState::Ready(obj_func_vals)
                }
                _ => return,
            };

            let ordering_key =
                OrderingKey::new(ind_ctx.id, self.summary_obj_func_val(&ind_ctx.state));
            self.individuals.insert(ordering_key, ind_ctx);
''')],
  main=r'''mod h;
use std::collections::HashMap;
fn main() {
    let spec = "
x:
  type: real
  init: 5
  scale: 1
";
    let seen = std::sync::Mutex::new(HashMap::<usize, usize>::new());
    let (_, log) = h::run(spec, 2, 2, 600, None, None, |r, n| {
        let mut seen = seen.lock().unwrap();
        let k = seen.entry(r.id).or_insert(0);
        *k += 1;
        if *k == 2 && n % 3 != 0 { None } else { Some((r.id * 7 % 23) as f64) }
    });
    let mut n = HashMap::<usize, usize>::new();
    for r in &log {
        *n.entry(r.id).or_insert(0) += 1;
    }
    if n.values().any(|n| *n > 2) {
        eprintln!("an individual was evaluated {} times with sample size 2", n.values().max().unwrap());
        std::process::exit(1);
    }
}
''')

seed(id='C08-seed16', prop='C08',
  needs='a run of more than 65536 evaluations',
  breaks='the seed counter wraps at 16 bits, so seeds repeat',
  edits=[('src/controller.rs', '        self.next_seed += 1;\n        result\n', '        self.next_seed = u64::from((result as u16).wrapping_add(1));\n        result\n')],
  main=r'''mod h;
use std::collections::HashSet;
fn main() {
    let spec = "
type: bool
init: true
";
    let (_, log) = h::run(spec, 1, 1, 66000, None, None, |_, n| Some((n % 5) as f64));
    let mut seen = HashSet::new();
    for r in &log {
        if !seen.insert(r.seed) {
            eprintln!("seed {} used twice", r.seed);
            std::process::exit(1);
        }
    }
}
''')

seed(id='C09-hashset', prop='C09',
  needs='a resizable map whose parents carry different keys; two processes',
  breaks='the union of the map keys is collected in a randomly seeded hash set, so the offspring depends on the process',
  edits=[('src/crossover.rs', '''            .unique()
            .copied()
            .collect();

        all_keys.shuffle(rng);
''', '''            .copied()
            .collect::<std::collections::HashSet<usize>>()
            .into_iter()
            .collect();

        all_keys.shuffle(rng);
''')],
  main=r'''mod h;
use std::hash::{Hash, Hasher};
fn once() -> u64 {
    let spec = "
type: anon map
initSize: 3
minSize: 1
maxSize: 8
valueType:
  type: real
  init: 0
  scale: 1
";
    let (_, log) = h::run(spec, 1, 1, 500, None, None, |r, n| {
        let m = r.value.as_object().unwrap();
        Some(((m.len() * 7 + n * 13) % 31) as f64)
    });
    let mut hasher = std::collections::hash_map::DefaultHasher::new();
    for r in &log {
        (r.id, r.seed, r.value.to_string()).hash(&mut hasher);
    }
    hasher.finish()
}
fn main() {
    let first = once();
    for _ in 0..4 {
        if once() != first {
            eprintln!("two runs with the same input differ");
            std::process::exit(1);
        }
    }
}
''')

seed(id='C10-init', prop='C10',
  needs='a real with only one of the two bounds and an initial value beyond it',
  breaks='the initial value of a real with a single bound is not checked against it',
  edits=[('src/spec_util.rs', '''    let init = extract_real(mapping, "init", path, true)?.unwrap_or({
        let mut init = 0.0;
        min.iter().for_each(|min| {
            init = f64::max(*min, init);
        });
        max.iter().for_each(|max| {
            init = f64::min(*max, init);
        });
        init
    });

    if init < min.unwrap_or(init) || init > max.unwrap_or(init) {
''', '''    let init = extract_real(mapping, "init", path, true)?.unwrap_or({
        let mut init = 0.0;
        min.iter().for_each(|min| {
            init = f64::max(*min, init);
        });
        max.iter().for_each(|max| {
            init = f64::min(*max, init);
        });
        init
    });

    let range = min.zip(max).or(min.map(|min| (min, f64::INFINITY)));

    if range.map_or(false, |(min, max)| init < min || init > max) {
''')],
  main=r'''use cambrian::spec_util;
fn main() {
    for doc in ["type: real\ninit: 3\nscale: 1\nmax: 2\n", "x:\n  type: real\n  init: 0\n  scale: 0.1\n  min: 0.5\n", "x:\n  type: real\n  init: 0.75\n  scale: 0.1\n  max: 0.5\n"] {
        if spec_util::from_yaml_str(doc).is_ok() {
            eprintln!("accepted: {}", doc);
            std::process::exit(1);
        }
    }
}
''')

seed(id='C11-integral', prop='C11',
  needs='a real parameter with an integral value beyond the range of 64 bit integers',
  breaks='integral reals are serialised as integers, so huge ones saturate and a reported best-seen does not read back as the same value',
  edits=[('src/value.rs', '            Node::Real(number) => serde_json::Value::Number(Number::from_f64(*number).unwrap()),\n',
  '''            Node::Real(number) if number.fract() == 0.0 && number.abs() >= 1e15 => {
                serde_json::Value::Number(Number::from(*number as i64))
            }
            Node::Real(number) => serde_json::Value::Number(Number::from_f64(*number).unwrap()),
''')],
  main=r'''use cambrian::{spec_util, value_util};
fn main() {
    let spec = spec_util::from_yaml_str("type: real\ninit: 0\nscale: 1\n").unwrap();
    for x in [1.0, -2.5, 1e15, 3e18, 1e19, -4e25, 1e300] {
        let v = value_util::from_json_value(&serde_json::json!(x), &spec).unwrap();
        let j = v.to_json();
        if j.as_f64() != Some(x) {
            eprintln!("{} became {}", x, j);
            std::process::exit(1);
        }
    }
}
''')

seed(id='C11-variant', prop='C11',
  needs='an initial guess whose variant object names a known option and an unknown key',
  breaks='unknown keys beside the chosen option of a variant are ignored instead of rejected',
  edits=[('src/value_util.rs', '''        serde_json::Value::Object(value_mapping) if value_mapping.len() == 1 => {
            let (variant_name, variant_value) = value_mapping.iter().next().unwrap();
''', '''        serde_json::Value::Object(value_mapping)
            if value_mapping.len() == 1
                || value_mapping
                    .keys()
                    .filter(|key| spec_map.contains_key(*key))
                    .count()
                    == 1 =>
        {
            let (variant_name, variant_value) = value_mapping
                .iter()
                .find(|entry| spec_map.contains_key(entry.0))
                .unwrap_or_else(|| value_mapping.iter().next().unwrap());
''')],
  main=r'''use cambrian::{spec_util, value_util};
fn main() {
    let spec = spec_util::from_yaml_str("
v:
  type: variant
  init: a
  a:
    type: bool
    init: true
  b:
    type: int
    init: 1
    scale: 1
").unwrap();
    let ok = |s: &str| value_util::from_json_str(s, &spec).is_ok();
    if !ok(r#"{"v": {"a": false}}"#) || ok(r#"{"v": {"a": false, "zz": 1}}"#) || ok(r#"{"v": {"a": false, "b": 1}}"#) {
        eprintln!("guess with an unknown key accepted");
        std::process::exit(1);
    }
}
''')

seed(id='C12-missing', prop='C12',
  needs='a resizable map whose parents carry different keys, with values that differ from the initial value',
  breaks='parents that lack a map key take part in the recombination of that element with its initial value, which no parent has',
  edits=[('src/crossover.rs', '''                let child_values: Vec<&value::Node> = individuals_ordered
                    .iter()
                    .filter_map(|individual| {
                        extract_anon_map_inner(individual)
                            .get(key)
                            .map(Deref::deref)
                    })
                    .collect();
''', '''                let initial_value = value_type.initial_value();
                let child_values: Vec<&value::Node> = individuals_ordered
                    .iter()
                    .map(|individual| {
                        extract_anon_map_inner(individual)
                            .get(key)
                            .map(Deref::deref)
                            .unwrap_or(&initial_value)
                    })
                    .collect();
''')],
  main=r'''use cambrian::crossover::Crossover;
use cambrian::meta::CrossoverParams;
use cambrian::verif::PathContext;
use cambrian::{spec_util, value_util};
use rand::SeedableRng;
fn main() {
    let spec = spec_util::from_yaml_str("
type: anon map
initSize: 2
valueType:
  type: int
  init: 0
  scale: 1
").unwrap();
    let a = value_util::from_json_str(r#"{"0": 11, "1": 12}"#, &spec).unwrap();
    let b = value_util::from_json_str(r#"{"1": 21, "5": 22}"#, &spec).unwrap();
    let mut rng = rand::rngs::StdRng::seed_from_u64(1);
    let mut ctx = PathContext::default();
    ctx.add_nodes_for(&a);
    ctx.add_nodes_for(&b);
    let params = CrossoverParams { crossover_prob: 1.0, selection_pressure: 0.4 };
    for _ in 0..300 {
        let c = Crossover::new().crossover(&spec, &[&a, &b], &params, &mut ctx, &mut rng).to_json();
        for (k, v) in c.as_object().unwrap() {
            if a.to_json().get(k) != Some(v) && b.to_json().get(k) != Some(v) {
                eprintln!("{}: {} comes from no parent", k, v);
                std::process::exit(1);
            }
        }
    }
}
''')

seed(id='C13-variant', prop='C13',
  needs='a variant with two options of the same type, switched away from a value that differs from the initial one',
  breaks='switching between variant options of equal type carries the old value over instead of starting from the declared initial value',
  edits=[('src/mutation.rs', '        new_init_value = spec_map.get(new_variant_name).unwrap().initial_value();\n',
  '''        let new_spec_node = spec_map.get(new_variant_name).unwrap();
        new_init_value = if spec_map.get(current_variant_name) == Some(new_spec_node) {
            value.clone()
        } else {
            new_spec_node.initial_value()
        };
''')],
  main=r'''use cambrian::meta::MutationParams;
use cambrian::mutation;
use cambrian::verif::PathContext;
use cambrian::{spec_util, value_util};
use rand::SeedableRng;
fn main() {
    let spec = spec_util::from_yaml_str("
type: variant
init: a
a:
  type: int
  init: 3
  scale: 1
  max: 3
b:
  type: int
  init: 3
  scale: 1
  max: 3
").unwrap();
    let v = value_util::from_json_str(r#"{"a": -500000}"#, &spec).unwrap();
    let mut rng = rand::rngs::StdRng::seed_from_u64(1);
    let mut ctx = PathContext::default();
    ctx.add_nodes_for(&v);
    let params = MutationParams { mutation_prob: 1.0, mutation_scale: 1e-9 };
    for _ in 0..20 {
        let r = mutation::mutate(&spec, &v, &params, &mut ctx, &mut rng).to_json();
        match r.get("b").and_then(|b| b.as_i64()) {
            Some(b) if b > -1000 => (),
            _ => {
                eprintln!("after the switch: {}", r);
                std::process::exit(1);
            }
        }
    }
}
''')

seed(id='C13-resize', prop='C13',
  needs='a resizable map at one of its size bounds, mutated with probability 1',
  breaks='a map at a bound is left alone when the coin asks for a resize beyond that bound',
  edits=[('src/mutation.rs', '''    if resize {
        let is_at_min_size''', '''    let grow_favoured = resize && value_map.len() > 8 && COIN_FLIP.sample(rng);

    if resize && !(grow_favoured && *max_size == Some(value_map.len())) {
        let is_at_min_size''')],
  main=r'''use cambrian::meta::MutationParams;
use cambrian::mutation;
use cambrian::verif::PathContext;
use cambrian::spec_util;
use rand::SeedableRng;
fn main() {
    let mut rng = rand::rngs::StdRng::seed_from_u64(1);
    let params = MutationParams { mutation_prob: 1.0, mutation_scale: 1.0 };
    for n in [1usize, 2, 5, 9, 12] {
        let spec = spec_util::from_yaml_str(&format!("
type: anon map
initSize: {}
maxSize: {}
minSize: 0
valueType:
  type: bool
  init: true
", n, n)).unwrap();
        let v = spec.initial_value();
        for _ in 0..30 {
            let mut ctx = PathContext::default();
            ctx.add_nodes_for(&v);
            let r = mutation::mutate(&spec, &v, &params, &mut ctx, &mut rng).to_json();
            let len = r.as_object().unwrap().len();
            if len != n - 1 {
                eprintln!("map of {} (the maximum) became {}", n, len);
                std::process::exit(1);
            }
        }
    }
}
''')

seed(id='C14-try-send', prop='C14',
  needs='a reader of the detailed report that lags behind by more than the channel capacity',
  breaks='report records are dropped when the channel to the writer is full',
  edits=[('src/controller.rs', '''                        detailed_report_sender.send(detailed_report_item).await.map_err(|_err| Error::ClientHungUp)?;
''', '''                        // never hold up the optimization because of a slow reader
                        match detailed_report_sender.try_send(detailed_report_item) {
                            Err(err) if err.is_disconnected() => return Err(Error::ClientHungUp),
                            _ => (),
                        }
'''), ('src/controller.rs', 'use futures::SinkExt;\n', '')],
  main=r'''use async_trait::async_trait;
use cambrian::error::Error;
use cambrian::message::Command;
use cambrian::meta::{AlgoConfigBuilder, AsyncObjectiveFunction};
use cambrian::{async_launch, spec_util};
use futures::channel::mpsc;
use futures::StreamExt;

struct Obj;

#[async_trait]
impl AsyncObjectiveFunction for Obj {
    async fn evaluate(
        &self,
        _value: serde_json::Value,
        _abort: async_broadcast::Receiver<()>,
        seed: u64,
        _id: usize,
    ) -> Result<Option<f64>, Error> {
        Ok(Some((seed % 7) as f64))
    }
}

fn main() {
    let spec = spec_util::from_yaml_str("type: bool\ninit: true\n").unwrap();
    let conf = AlgoConfigBuilder::new().num_concurrent(1).build().unwrap();
    let (report, records) = tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .build()
        .unwrap()
        .block_on(async {
            let (_cmd, cmd_recv) = mpsc::channel::<Command>(4);
            let (sender, mut recv) = mpsc::channel(16);
            let fut = async_launch::launch(spec, Obj, conf, cmd_recv, sender, Some(200), None, None);
            let reader = async {
                let mut n = 0;
                while recv.next().await.is_some() {
                    n += 1;
                    tokio::time::sleep(std::time::Duration::from_millis(2)).await;
                }
                n
            };
            futures::join!(fut, reader)
        });
    let report = report.unwrap();
    if report.num_obj_func_eval_completed != records || records != 200 {
        eprintln!("{} evaluations, {} records", report.num_obj_func_eval_completed, records);
        std::process::exit(1);
    }
}
''')

seed(id='C14-marginal', prop='C14',
  needs='an improvement of the best-seen by a relative difference below 1e-9',
  breaks='the best-seen file is not updated for marginal improvements and then holds the parameters of a record that is not the minimum',
  edits=[('src/sync_launch.rs', '                    item_obj_func_val < best_obj_func_val\n', '                    best_obj_func_val - item_obj_func_val > 1e-9 * best_obj_func_val.abs()\n')],
  cli=r'''
cat > spec.yaml <<END
x:
  type: real
  init: 1
  scale: 1
END
cat > obj.sh <<'END'
#!/bin/bash
# $1 parameters, $2 seed: each one better by very little
printf '{"objFuncVal": 5.00000000000%d}\n' $((9 - $2))
END
chmod +x obj.sh
timeout 60 "$bin" -s spec.yaml -n 9 -o od ./obj.sh > out 2> err || { cat err; exit 1; }
[ "$(cat od/best_seen.json)" = "$(cat out)" ] || { echo "best-seen file $(cat od/best_seen.json), reported $(cat out)"; exit 1; }
''')

seed(id='C15-deviation', prop='C15',
  needs='verbose logging and two objective values that are more than 1e154 apart',
  breaks='the log line about the population computes a standard deviation that overflows and panics when logging is on',
  edits=[('src/algorithm.rs', '''        info!(
            "Top {} objective function values with mean {}: {:?}",
            num_to_take, mean, summary_obj_func_vals
        );
''', '''        let std_dev = |vals: &[f64]| {
            let sum_sq: f64 = vals.iter().map(|val| (val - mean).powi(2)).sum();
            FiniteF64::new((sum_sq / num_to_take.to_f64().unwrap()).sqrt()).unwrap()
        };

        info!(
            "Top {} objective function values with mean {} and standard deviation {}: {:?}",
            num_to_take,
            mean,
            std_dev(&summary_obj_func_vals),
            summary_obj_func_vals
        );
''')],
  cli=r'''
cat > spec.yaml <<END
x:
  type: real
  init: 1
  scale: 1
END
cat > obj.sh <<'END'
#!/bin/bash
if [ $(($2 % 2)) -eq 0 ]; then echo '{"objFuncVal": 1e300}'; else echo '{"objFuncVal": -1e290}'; fi
END
chmod +x obj.sh
timeout 60 "$bin" -s spec.yaml -n 6 ./obj.sh > out1 2> err1; rc1=$?
timeout 60 "$bin" -v -s spec.yaml -n 6 ./obj.sh > out2 2> err2; rc2=$?
[ $rc1 -eq 0 ] && [ $rc2 -eq 0 ] || { echo "exit status $rc1, with logging $rc2"; tail -3 err2; exit 1; }
cmp out1 out2 || { echo "logging changes the result"; exit 1; }
''')

seed(id='C16-empty-dir', prop='C16',
  needs='an existing but empty output directory without --force',
  breaks='an existing empty output directory is used instead of refused',
  edits=[('src/bin/cambrian.rs', '''    if out_dir_exists {
        if force {''', '''    let in_use = fs::read_dir(out_dir).map_or(out_dir_exists, |mut entries| entries.next().is_some());

    if in_use {
        if force {''')],
  cli=r'''
cat > spec.yaml <<END
x:
  type: real
  init: 1
  scale: 1
END
printf '#!/bin/bash\necho x >> %s/count\necho "{\\"objFuncVal\\": 1}"\n' "$tmp" > obj.sh
chmod +x obj.sh
mkdir od
timeout 60 "$bin" -s spec.yaml -n 2 -o od ./obj.sh > out 2> err
rc=$?
[ $rc -ne 0 ] || { echo "existing output directory accepted"; exit 1; }
[ -z "$(ls od)" ] || { echo "existing output directory changed"; exit 1; }
[ ! -e count ] || { echo "evaluations started"; exit 1; }
timeout 60 "$bin" -s spec.yaml -n 2 -f -o od ./obj.sh > out 2> err || { echo "--force refused"; exit 1; }
''')

seed(id='C16-dump', prop='C16',
  needs='an output directory and a child that exits zero with unparsable output',
  breaks='no files with the failing arguments and output are written when the output cannot be parsed',
  edits=[('src/bin/cambrian.rs', '''            Err(Error::ObjFuncProcFailed(proc_out_with_arg))
            | Err(Error::ObjFuncProcInvalidOutput(proc_out_with_arg)) => {''', '''            Err(
                Error::ObjFuncProcFailed(proc_out_with_arg)
                | Error::ObjFuncProcInvalidOutput(proc_out_with_arg),
            ) if !proc_out_with_arg.output.status.success()
                || !proc_out_with_arg.output.stderr.is_empty() =>
            {''')],
  cli=r'''
cat > spec.yaml <<END
x:
  type: real
  init: 1
  scale: 1
END
printf '#!/bin/bash\necho no json\n' > obj.sh
chmod +x obj.sh
timeout 60 "$bin" -s spec.yaml -n 2 -o od ./obj.sh > out 2> err
rc=$?
[ $rc -ne 0 ] || { echo "unparsable output accepted"; exit 1; }
[ "$(cat od/failed_obj_func_stdout)" = "no json" ] || { echo "output of the failing program not kept"; ls od; exit 1; }
''')


seed(id='C02-trimmed', prop='C02',
  needs='sample size of at least 5 with differing samples',
  breaks='the extreme samples are left out of the mean from five samples on',
  edits=[('src/algorithm.rs', "    let mean = obj_func_vals.iter().map(|val| val.get()).sum::<f64>() / obj_func_vals.len() as f64;\n",
  """    let mut vals = obj_func_vals.iter().map(|val| val.get()).collect_vec();

    // limit the influence of outliers
    if vals.len() >= 5 {
        vals.sort_by(f64::total_cmp);
        vals.pop();
        vals.remove(0);
    }

    let mean = vals.iter().sum::<f64>() / vals.len() as f64;
""")],
  main=r"""mod h;
use std::collections::HashMap;
fn main() {
    let spec = "
x:
  type: real
  init: 5
  scale: 1
";
    let vals = |id: usize, k: usize| (id % 7) as f64 + [0.0, 4.0, 1.0, 9.0, 2.0][k % 5];
    let counts = std::sync::Mutex::new(HashMap::<usize, usize>::new());
    let (res, log) = h::run(spec, 5, 1, 600, None, None, |r, _| {
        let mut c = counts.lock().unwrap();
        let k = c.entry(r.id).or_insert(0);
        *k += 1;
        Some(vals(r.id, *k - 1))
    });
    let report = res.unwrap();
    let mut n = HashMap::<usize, usize>::new();
    for r in &log {
        *n.entry(r.id).or_insert(0) += 1;
    }
    // some completed individual has the reported parameters and exactly the reported mean
    let ok = log.iter().any(|r| {
        r.value == report.best_seen.value && n[&r.id] == 5 && {
            let mean = (0..5).map(|k| vals(r.id, k)).sum::<f64>() / 5.0;
            (mean - report.best_seen.obj_func_val).abs() < 1e-9
        }
    });
    if !ok {
        eprintln!("reported {} is not the mean of the samples", report.best_seen.obj_func_val);
        std::process::exit(1);
    }
}
""")

seed(id='C04-second', prop='C04',
  needs='two terminate requests (SIGINT twice, or SIGINT and the time limit) while evaluations are draining',
  breaks='a second terminate request drops the run with an error instead of returning the best seen so far',
  edits=[('src/async_launch.rs', '                        abort_sig_sender_holder.take().map(|sender| sender.send(()).ok());\n',
  """                        match abort_sig_sender_holder.take() {
                            Some(sender) => sender.send(()).ok(),
                            // asked twice: do not wait for the evaluations any longer
                            None => return Err(Error::ClientHungUp),
                        };
""")],
  main=r"""mod h;
use async_trait::async_trait;
use cambrian::error::Error;
use cambrian::message::Command;
use cambrian::meta::{AlgoConfigBuilder, AsyncObjectiveFunction};
use cambrian::{async_launch, spec_util};
use futures::channel::mpsc;
use futures::{SinkExt, StreamExt};
use std::sync::atomic::{AtomicUsize, Ordering};

struct Obj(AtomicUsize);

#[async_trait]
impl AsyncObjectiveFunction for Obj {
    async fn evaluate(
        &self,
        _value: serde_json::Value,
        mut abort: async_broadcast::Receiver<()>,
        _seed: u64,
        _id: usize,
    ) -> Result<Option<f64>, Error> {
        let n = self.0.fetch_add(1, Ordering::SeqCst);
        if n < 5 {
            return Ok(Some(100.0 - n as f64));
        }
        abort.recv().await.ok();
        tokio::time::sleep(std::time::Duration::from_millis(500)).await;
        Ok(None)
    }
}

fn main() {
    let spec = spec_util::from_yaml_str("x:\n  type: real\n  init: 1\n  scale: 1\n").unwrap();
    let conf = AlgoConfigBuilder::new().num_concurrent(2).build().unwrap();
    let report = tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .build()
        .unwrap()
        .block_on(async {
            let (mut cmd, cmd_recv) = mpsc::channel::<Command>(4);
            let (sender, recv) = mpsc::channel(256);
            let fut = async_launch::launch(spec, Obj(AtomicUsize::new(0)), conf, cmd_recv, sender, None, None, None);
            let drain = recv.for_each(|_| async {});
            let stop = async {
                for _ in 0..2 {
                    tokio::time::sleep(std::time::Duration::from_millis(200)).await;
                    cmd.send(Command::Terminate).await.ok();
                }
                tokio::time::sleep(std::time::Duration::from_millis(700)).await;
            };
            futures::join!(fut, drain, stop).0
        });
    match report {
        Ok(report) if report.best_seen.obj_func_val == 96.0 => (),
        other => {
            eprintln!("{:?}", other.map(|report| report.best_seen));
            std::process::exit(1);
        }
    }
}
""")

seed(id='C05-cap', prop='C05',
  needs='more than 64 concurrent evaluations',
  breaks='the first batch is capped at 64 evaluations, so fewer than num_concurrent are in progress for the whole run',
  edits=[('src/controller.rs', """        algo_config.num_concurrent.min(max_num_eval)
    } else {
        algo_config.num_concurrent
    };""", """        algo_config.num_concurrent.min(max_num_eval)
    } else {
        algo_config.num_concurrent
    }
    .min(64);""")],
  main=r"""use async_trait::async_trait;
use cambrian::error::Error;
use cambrian::message::Command;
use cambrian::meta::{AlgoConfigBuilder, AsyncObjectiveFunction};
use cambrian::{async_launch, spec_util};
use futures::channel::mpsc;
use futures::StreamExt;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

struct Obj(Arc<AtomicUsize>);

#[async_trait]
impl AsyncObjectiveFunction for Obj {
    async fn evaluate(
        &self,
        _value: serde_json::Value,
        _abort: async_broadcast::Receiver<()>,
        _seed: u64,
        _id: usize,
    ) -> Result<Option<f64>, Error> {
        self.0.fetch_add(1, Ordering::SeqCst);
        futures::future::pending().await
    }
}

fn main() {
    for conc in [1usize, 40, 64, 65, 100, 300] {
        let spec = spec_util::from_yaml_str("type: bool\ninit: true\n").unwrap();
        let conf = AlgoConfigBuilder::new().num_concurrent(conc).build().unwrap();
        let started = Arc::new(AtomicUsize::new(0));
        let obj = Obj(started.clone());
        tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(async {
            let (_cmd, cmd_recv) = mpsc::channel::<Command>(4);
            let (sender, recv) = mpsc::channel(256);
            let fut = async_launch::launch(spec, obj, conf, cmd_recv, sender, None, None, None);
            let drain = recv.for_each(|_| async {});
            let both = futures::future::join(fut, drain);
            tokio::time::timeout(std::time::Duration::from_millis(500), both).await.ok();
        });
        let n = started.load(Ordering::SeqCst);
        if n != conc {
            eprintln!("{} of {} evaluations in progress", n, conc);
            std::process::exit(1);
        }
    }
}
""")

seed(id='C10-ref-attr', prop='C10',
  needs='a reference to a defined type that carries further attributes',
  breaks='attributes beside the name of a defined type are silently ignored instead of rejected',
  edits=[('src/spec_util.rs', """                check_for_unexpected_attributes(mapping, ["type"], path)?;
                Ok(node.clone())""", """                if is_leaf(node) {
                    check_for_unexpected_attributes(mapping, ["type"], path)?;
                }
                Ok(node.clone())""")],
  main=r"""use cambrian::spec_util;
fn main() {
    let doc = |extra: &str| format!("
typeDef t:
  type: anon map
  initSize: 2
  valueType:
    type: bool
    init: true
x:
  type: t
{}", extra);
    if spec_util::from_yaml_str(&doc("")).is_err() || spec_util::from_yaml_str(&doc("  initSize: 5\n")).is_ok() {
        eprintln!("an attribute is ignored");
        std::process::exit(1);
    }
}
""")

seed(id='C17-fallback', prop='C17',
  needs='selection among at least three individuals with a low selection pressure',
  breaks='the uniform fallback leaves out the best individual, so with low pressure worse ranks are more probable than the best',
  edits=[('src/selection.rs', """        individuals_ordered.choose(rng).unwrap()
""", """        // the best one has had its chance
        match individuals_ordered {
            [_, rest @ ..] if rest.len() > 1 => rest.choose(rng).unwrap(),
            _ => individuals_ordered.choose(rng).unwrap(),
        }
""")],
  main=r"""use cambrian::verif::{Selection, SelectionImpl};
use rand::SeedableRng;
fn main() {
    let mut rng = rand::rngs::StdRng::seed_from_u64(1);
    let ranks: Vec<usize> = (0..5).collect();
    let refs: Vec<&usize> = ranks.iter().collect();
    for pressure in [0.0, 0.01, 0.05, 0.5] {
        let mut count = [0usize; 5];
        for _ in 0..40000 {
            count[*SelectionImpl::new().select_ref(&refs, pressure, &mut rng)] += 1;
        }
        for i in 0..4 {
            if count[i + 1] as f64 > count[i] as f64 * 1.2 + 200.0 {
                eprintln!("pressure {}: {:?}", pressure, count);
                std::process::exit(1);
            }
        }
    }
}
""")

seed(id='C17-enum-first', prop='C17',
  needs='an enum with at least three values whose optimum is not among the first two',
  breaks='mutating an enum toggles between its first two values; the others are never reached',
  edits=[('src/mutation.rs', """            .filter(|name| *name != current_value)
            .choose(rng)
            .unwrap()""", """            .find(|name| *name != current_value)
            .unwrap()""")],
  main=r"""mod h;
fn main() {
    let spec = "
e:
  type: enum
  init: b
  values: [a, b, c, d]
";
    let (res, _) = h::run(spec, 1, 1, 1000, None, None, |r, _| {
        Some(match r.value["e"].as_str().unwrap() { "d" => 0.0, "a" => 2.0, _ => 3.0 })
    });
    let got = res.unwrap().best_seen.obj_func_val;
    if got != 0.0 {
        eprintln!("best of four values after 1000 evaluations: {}", got);
        std::process::exit(1);
    }
}
""")

exec(open('/verif/tools/seeds_a.py').read().split("SEEDS = []")[0])
SEEDS = []

def seed(**k):
    SEEDS.append(k)

seed(id='C03-refund', prop='C03',
  needs='a rejection of the very first individual (the initial value) in a run with a budget',
  breaks='the rejected initial value is not charged to the budget, so one evaluation more than N is started',
  edits=[('src/controller.rs', '                            count_rejected += 1;\n', '''                            count_rejected += 1;

                            // an infeasible initial guess is for free
                            if evaled_individual.ind_ctx.meta_params_used.is_none() {
                                pushed_for_eval_count -= 1;
                            }
''')],
  main=r'''mod h;
fn main() {
    let spec = "
x:
  type: real
  init: 5
  scale: 1
";
    for (conc, max) in [(1usize, 10usize), (3, 10), (4, 5)] {
        let (_, log) = h::run(spec, 1, conc, max, None, None, |r, n| if r.id == 0 { None } else { Some(n as f64) });
        if log.len() > max {
            eprintln!("{} evaluations started with a budget of {}", log.len(), max);
            std::process::exit(1);
        }
    }
}
''')

seed(id='C04-total-cmp', prop='C04',
  needs='a target of negative zero and an objective value of positive zero',
  breaks='the target is compared in the total order of the doubles, in which 0.0 is above -0.0, so the target counts as not reached',
  edits=[('src/controller.rs', 'best_seen_final.0.get() <= target_obj_func_val', 'best_seen_final.0.get().total_cmp(&target_obj_func_val).is_le()')],
  main=r'''mod h;
fn main() {
    let spec = "
x:
  type: real
  init: 5
  scale: 1
";
    let (_, log) = h::run(spec, 1, 1, 30, Some(-0.0), None, |_, n| Some(if n == 4 { 0.0 } else { 5.0 }));
    if log.len() != 5 {
        eprintln!("{} evaluations started, the target was reached by the fifth", log.len());
        std::process::exit(1);
    }
}
''')

seed(id='C05-reject-pause', prop='C05',
  needs='a rejection while all slots of a concurrent run are busy',
  breaks='a rejected evaluation is not replaced until another one has finished: one slot stays empty',
  edits=[('src/controller.rs', '''                        } else if !max_num_eval_pushed && !stop_requested.load(Ordering::Relaxed) {
                            let new_individual = algo_ctx.next_individual();
                            let eval_future = evaluate_individual(new_individual, &obj_func, out_abort_signal_recv.clone(),
                                seed_mgr.next_seed(), &stop_requested);
                            evaled_individuals.push(eval_future);
                            pushed_for_eval_count += 1;
                        }
''', '''                        } else if !max_num_eval_pushed && !stop_requested.load(Ordering::Relaxed) {
                            // nothing is learned from a rejection: wait for one of the others
                            let num_to_start = if accepted {
                                algo_config.num_concurrent - evaled_individuals.len()
                            } else {
                                usize::from(evaled_individuals.is_empty())
                            };

                            for _ in 0..num_to_start.min(max_num_eval.map_or(usize::MAX, |max| max - pushed_for_eval_count)) {
                                let new_individual = algo_ctx.next_individual();
                                let eval_future = evaluate_individual(new_individual, &obj_func, out_abort_signal_recv.clone(),
                                    seed_mgr.next_seed(), &stop_requested);
                                evaled_individuals.push(eval_future);
                                pushed_for_eval_count += 1;
                            }
                        }
'''), ('src/controller.rs', '                        if evaled_individual.obj_func_val.is_some() {\n', '                        let accepted = evaled_individual.obj_func_val.is_some();\n                        if accepted {\n')],
  main=r'''mod h;
use async_trait::async_trait;
use cambrian::error::Error;
use cambrian::message::Command;
use cambrian::meta::{AlgoConfigBuilder, AsyncObjectiveFunction};
use cambrian::{async_launch, spec_util};
use futures::channel::{mpsc, oneshot};
use futures::StreamExt;
use std::sync::Mutex;
use std::time::Duration;

struct Obj {
    started: Mutex<Vec<oneshot::Sender<Option<f64>>>>,
}

#[async_trait]
impl<'a> AsyncObjectiveFunction for &'a Obj {
    async fn evaluate(&self, _v: serde_json::Value, _a: async_broadcast::Receiver<()>, _s: u64, _i: usize) -> Result<Option<f64>, Error> {
        let (tx, rx) = oneshot::channel();
        self.started.lock().unwrap().push(tx);
        Ok(rx.await.unwrap())
    }
}

fn main() {
    let spec = spec_util::from_yaml_str("
x:
  type: real
  init: 5
  scale: 1
").unwrap();
    let conf = AlgoConfigBuilder::new().num_concurrent(3).build().unwrap();
    let obj = Obj { started: Mutex::new(Vec::new()) };
    let ok = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(async {
        let (_cmd, cmd_recv) = mpsc::channel::<Command>(4);
        let (sender, recv) = mpsc::channel(256);
        let fut = async_launch::launch(spec, &obj, conf, cmd_recv, sender, Some(20), None, None);
        let script = async {
            tokio::time::sleep(Duration::from_millis(200)).await;
            let first = obj.started.lock().unwrap().remove(0);
            first.send(None).ok();
            tokio::time::sleep(Duration::from_millis(1000)).await;
            // two of the first three are still there and the replacement
            obj.started.lock().unwrap().len() == 3
        };
        tokio::select! {
            _ = fut => false,
            _ = recv.for_each(|_| async {}) => false,
            ok = script => ok,
        }
    });
    if !ok {
        eprintln!("the rejected evaluation was not replaced");
        std::process::exit(1);
    }
}
''')

seed(id='C07-limit-once', prop='C07',
  needs='an evaluation that closes its output early (or leaves it to nobody) and then overruns the limit',
  breaks='only the collection of the output is subject to the time limit; a process that has closed its streams is waited for without a limit',
  edits=[('src/process.rs', '''        let child_result = get_child_result(child, &json_arg, seed, individual_id);
''', '''        let mut child = child;
        let stdout = child.inner().stdout.take();
        let stderr = child.inner().stderr.take();
        let collect = async {
            let (mut out, mut err) = (Vec::new(), Vec::new());
            let mut stdout = stdout.unwrap();
            let mut stderr = stderr.unwrap();
            tokio::try_join!(stdout.read_to_end(&mut out), stderr.read_to_end(&mut err))?;
            Ok::<_, Error>((out, err))
        };

        let limit = self.kill_obj_func_after.unwrap_or(Duration::MAX);
        let (out, err) = tokio::select! {
            collected = collect => collected?,
            _ = tokio::time::sleep(limit.min(Duration::from_secs(86400 * 365))) => {
                proc_group_guard.kill_and_reap()?;
                return Ok(None)
            }
            _ = abort_sig_rx.recv() => {
                proc_group_guard.kill_and_reap()?;
                return Ok(None)
            }
        };

        let child_result = get_child_result(child, out, err, &json_arg, seed, individual_id);
'''), ('src/process.rs', '''    child: AsyncGroupChild,
    obj_func_arg: &OsStr,''', '''    mut child: AsyncGroupChild,
    stdout: Vec<u8>,
    stderr: Vec<u8>,
    obj_func_arg: &OsStr,'''), ('src/process.rs', '    let output = child.wait_with_output().await?;\n', '''    let output = Output {
        status: child.wait().await?,
        stdout,
        stderr,
    };
'''), ('src/process.rs', 'use std::process::Stdio;\n', 'use std::process::{Output, Stdio};\n'), ('src/process.rs', 'use tokio::process::Command;\n', 'use tokio::io::AsyncReadExt;\nuse tokio::process::Command;\n'),
  ('src/process.rs', '''        let mut timeout_fut = if let Some(kill_after_duration) = self.kill_obj_func_after {
            let timeout_fut = Box::pin(tokio::time::sleep(kill_after_duration));
            Either::Left(timeout_fut)
        } else {
            Either::Right(futures::future::pending())
        };

''', ''), ('src/process.rs', '''            _ = &mut timeout_fut => {
                proc_group_guard.kill_and_reap()?;
                return Ok(None)
            }
            _ = abort_sig_future''', '''            _ = abort_sig_future'''), ('src/process.rs', 'use futures::future::Either;\n', '')],
  cli=r'''
cat > spec.yaml <<END
x:
  type: real
  init: 1
  scale: 1
END
cat > obj.sh <<'END'
#!/bin/bash
if [ "$2" = 1 ]; then
  exec > /dev/null 2>&1
  sleep 8
  exit 0
fi
echo '{"objFuncVal": 1}'
END
chmod +x obj.sh
timeout 60 "$bin" -s spec.yaml -n 3 -k 1s -o od ./obj.sh > out 2> err || { cat err; exit 1; }
grep -q 'rejected objective function evaluations: 1' od/summary_report.txt || { cat od/summary_report.txt; exit 1; }
''')

seed(id='C09-thread-rng', prop='C09',
  needs='an enum with at least three values that is mutated',
  breaks='the new enum value is drawn from the thread-local generator, so runs differ',
  edits=[('src/mutation.rs', '            .filter(|name| *name != current_value)\n            .choose(rng)', '            .filter(|name| *name != current_value)\n            .choose(&mut rand::thread_rng())')],
  main=r'''mod h;
fn main() {
    let spec = "
a:
  type: enum
  init: p
  values: [p, q, r, s]
b:
  type: enum
  init: p
  values: [p, q, r, s]
";
    let mut first = None;
    for _ in 0..6 {
        let (_, log) = h::run(spec, 1, 1, 100, None, None, |_, n| Some((n * 7 % 5) as f64));
        let log = format!("{:?}", log);
        if *first.get_or_insert_with(|| log.clone()) != log {
            eprintln!("two runs differ");
            std::process::exit(1);
        }
    }
}
''')

seed(id='C10-lazy-def', prop='C10',
  needs='a malformed type definition that nothing refers to',
  breaks='definitions that cannot be built are left out, so an unused malformed one goes unnoticed',
  edits=[('src/spec_util.rs', '''                sub_type_defs.insert(
                    type_name.to_string(),
                    build_node(value, &sub_type_defs, &path_of_sub)?,
                );
''', '''                // reported where it is used
                if let Ok(node) = build_node(value, &sub_type_defs, &path_of_sub) {
                    sub_type_defs.insert(type_name.to_string(), node);
                }
''')],
  main=r'''use cambrian::spec_util;
fn main() {
    let spec = "
typeDef unused:
  type: real
  init: 5
  scale: 1
  max: 3
x:
  type: bool
  init: true
";
    if spec_util::from_yaml_str(spec).is_ok() {
        eprintln!("accepted");
        std::process::exit(1);
    }
}
''')

seed(id='C11-key-width', prop='C11',
  needs='a resizable map with a key above 2^32',
  breaks='map keys of a guess are read as 32-bit numbers, so a value with a larger key cannot be read back',
  edits=[('src/value_util.rs', '''match str::parse::<usize>(json_key) {
                    Ok(key) => (key, json_key),''', '''match str::parse::<u32>(json_key) {
                    Ok(key) => (key as usize, json_key),''')],
  main=r'''use cambrian::{spec_util, value_util};
fn main() {
    let spec = spec_util::from_yaml_str("
type: anon map
initSize: 1
valueType:
  type: bool
  init: true
").unwrap();
    for key in ["0", "4294967295", "4294967296", "18446744073709551615"] {
        let text = format!("{{\"{}\":true}}", key);
        match value_util::from_json_str(&text, &spec) {
            Ok(v) if v.to_json().to_string() == text => (),
            other => {
                eprintln!("{}: {:?}", text, other);
                std::process::exit(1);
            }
        }
    }
}
''')

seed(id='C12-foreign-option', prop='C12',
  needs='parents that hold different variant options whose types are equal and structured',
  breaks='options of equal type are pooled, so the offspring gets leaves from a parent that holds another option',
  edits=[('src/crossover.rs', '                    if name == selected_variant_name {', '''                    let same_type = spec_map.get(name) == Some(child_spec_node);

                    // leaves are never recombined, structures of the same type can be
                    if name == selected_variant_name || (same_type && !is_leaf(child_spec_node)) {''')],
  main=r'''use cambrian::crossover::Crossover;
use cambrian::meta::CrossoverParams;
use cambrian::verif::PathContext;
use cambrian::{spec_util, value_util};
use rand::SeedableRng;
fn main() {
    let spec = spec_util::from_yaml_str("
type: variant
init: a
a:
  x:
    type: int
    init: 0
    scale: 1
  y:
    type: int
    init: 0
    scale: 1
b:
  x:
    type: int
    init: 0
    scale: 1
  y:
    type: int
    init: 0
    scale: 1
").unwrap();
    let a = value_util::from_json_str(r#"{"a": {"x": 1, "y": 1}}"#, &spec).unwrap();
    let b = value_util::from_json_str(r#"{"b": {"x": 2, "y": 2}}"#, &spec).unwrap();
    let mut rng = rand::rngs::StdRng::seed_from_u64(1);
    let mut ctx = PathContext::default();
    ctx.add_nodes_for(&a);
    ctx.add_nodes_for(&b);
    let params = CrossoverParams { crossover_prob: 1.0, selection_pressure: 0.4 };
    for _ in 0..300 {
        let c = Crossover::new().crossover(&spec, &[&a, &b], &params, &mut ctx, &mut rng).to_json();
        if c != a.to_json() && c != b.to_json() {
            eprintln!("{}", c);
            std::process::exit(1);
        }
    }
}
''')

seed(id='C14-no-truncate', prop='C14',
  needs='a new best individual whose JSON text is shorter than that of the previous best',
  breaks='the best-seen file is overwritten without being truncated, so the end of a longer older text stays in it',
  edits=[('src/sync_launch.rs', '    let mut best_seen_file = File::create(&file_info.best_seen_file_path)\n', '    let mut best_seen_file = OpenOptions::new()\n        .write(true)\n        .create(true)\n        .open(&file_info.best_seen_file_path)\n'),
         ('src/sync_launch.rs', 'use tokio::fs::File;\n', 'use tokio::fs::{File, OpenOptions};\n')],
  cli=r'''
cat > spec.yaml <<END
m:
  type: anon map
  initSize: 9
  valueType:
    type: bool
    init: true
END
cat > obj.sh <<'END'
#!/bin/bash
# shorter is better
echo "{\"objFuncVal\": ${#1}}"
END
chmod +x obj.sh
timeout 60 "$bin" -s spec.yaml -n 40 -o od ./obj.sh > out 2> err || { cat err; exit 1; }
[ "$(cat od/best_seen.json)" = "$(cat out)" ] || { echo "best-seen file $(cat od/best_seen.json), reported $(cat out)"; exit 1; }
''')

seed(id='C15-pipes', prop='C15',
  needs='an objective program that writes more than a pipe holds to stderr before it prints its result',
  breaks='stdout is read to its end before stderr is read, so both sides wait for each other',
  edits=[('src/process.rs', '    let output = child.wait_with_output().await?;\n', '''    let mut child = child;
    let (mut stdout, mut stderr) = (Vec::new(), Vec::new());

    if let Some(mut pipe) = child.inner().stdout.take() {
        pipe.read_to_end(&mut stdout).await?;
    }

    if let Some(mut pipe) = child.inner().stderr.take() {
        pipe.read_to_end(&mut stderr).await?;
    }

    let output = Output {
        status: child.wait().await?,
        stdout,
        stderr,
    };
'''), ('src/process.rs', 'use std::process::Stdio;\n', 'use std::process::{Output, Stdio};\n'), ('src/process.rs', 'use tokio::process::Command;\n', 'use tokio::io::AsyncReadExt;\nuse tokio::process::Command;\n')],
  cli=r'''
cat > spec.yaml <<END
x:
  type: real
  init: 1
  scale: 1
END
cat > obj.sh <<'END'
#!/bin/bash
head -c 300000 /dev/zero | tr '\0' 'x' >&2
echo '{"objFuncVal": 1}'
END
chmod +x obj.sh
timeout 20 "$bin" -s spec.yaml -n 2 ./obj.sh > out 2> err || { echo "ended with $?"; exit 1; }
''')

seed(id='C16-trailing', prop='C16',
  needs='an objective program that prints something after its result',
  breaks='only the first JSON document of the output is read, anything after it is ignored instead of being an error',
  edits=[('src/process.rs', 'serde_json::from_slice(stdout).ok(),', 'serde_json::Deserializer::from_slice(stdout)\n            .into_iter()\n            .next()\n            .and_then(Result::ok),')],
  cli=r'''
cat > spec.yaml <<END
x:
  type: real
  init: 1
  scale: 1
END
cat > obj.sh <<'END'
#!/bin/bash
echo '{"objFuncVal": 1}'
[ "$2" != 2 ] || echo 'Traceback'
END
chmod +x obj.sh
if timeout 60 "$bin" -s spec.yaml -n 4 ./obj.sh > out 2> err; then
  echo "succeeded in spite of an invalid output"
  exit 1
fi
[ ! -s out ]
''')

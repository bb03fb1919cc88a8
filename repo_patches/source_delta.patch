From eab0544d5de312b9a9b717eccf1b29b3d542871d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 15:58:07 +0000
Subject: [PATCH 01/18] fix: reject initial guesses with a wrong array length
 or map size

value_util::from_json_value checked the elements but never the number of
them, so a guess whose array length or anon map size violates the spec was
accepted, evaluated and bred from.
---
 src/value_util.rs | 48 +++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/src/value_util.rs b/src/value_util.rs
index d5bbaf5..277b867 100644
--- a/src/value_util.rs
+++ b/src/value_util.rs
@@ -25,8 +25,16 @@ fn build_node(
         spec::Node::Int { min, max, .. } => build_int(json_val, min, max, path),
         spec::Node::Bool { .. } => build_bool(json_val, path),
         spec::Node::Sub { map: ref spec_map } => build_sub(json_val, spec_map, path),
-        spec::Node::Array { ref value_type, .. } => build_array(json_val, value_type, path),
-        spec::Node::AnonMap { ref value_type, .. } => build_anon_map(json_val, value_type, path),
+        spec::Node::Array {
+            ref value_type,
+            size,
+        } => build_array(json_val, value_type, size, path),
+        spec::Node::AnonMap {
+            ref value_type,
+            min_size,
+            max_size,
+            ..
+        } => build_anon_map(json_val, value_type, min_size, max_size, path),
         spec::Node::Variant {
             map: ref spec_map, ..
         } => build_variant(json_val, spec_map, path),
@@ -165,10 +173,18 @@ fn build_sub(
 fn build_array(
     json_val: &serde_json::Value,
     spec_node: &spec::Node,
+    size: usize,
     path: &[&str],
 ) -> Result<Node, Error> {
     match json_val {
         serde_json::Value::Array(json_values) => {
+            if json_values.len() != size {
+                return Err(Error::WrongTypeForValue {
+                    path_hint: format_path(path),
+                    type_hint: format!("array with {} elements", size),
+                });
+            }
+
             let mut elements = Vec::with_capacity(json_values.len());
 
             for (idx, json_value) in json_values.iter().enumerate() {
@@ -190,9 +206,11 @@ fn build_array(
 fn build_anon_map(
     json_val: &serde_json::Value,
     spec_node: &spec::Node,
+    min_size: Option<usize>,
+    max_size: Option<usize>,
     path: &[&str],
 ) -> Result<Node, Error> {
-    match json_val {
+    let result_mapping = match json_val {
         serde_json::Value::Array(json_values) => {
             let mut result_mapping = HashMap::default();
 
@@ -203,7 +221,7 @@ fn build_anon_map(
                 result_mapping.insert(next_id, Box::new(value));
             }
 
-            Ok(Node::AnonMap(result_mapping))
+            result_mapping
         }
         serde_json::Value::Object(json_mapping) => {
             let mut result_mapping = HashMap::default();
@@ -224,12 +242,26 @@ fn build_anon_map(
                 result_mapping.insert(key, Box::new(value));
             }
 
-            Ok(Node::AnonMap(result_mapping))
+            result_mapping
         }
-        _ => Err(Error::WrongTypeForValue {
+        _ => {
+            return Err(Error::WrongTypeForValue {
+                path_hint: format_path(path),
+                type_hint: "array or map".to_string(),
+            })
+        }
+    };
+
+    let size = result_mapping.len();
+    let out_of_bounds = min_size.map_or(false, |min_size| size < min_size)
+        || max_size.map_or(false, |max_size| size > max_size);
+
+    if out_of_bounds {
+        Err(Error::ValueNotWithinBounds {
             path_hint: format_path(path),
-            type_hint: "array or map".to_string(),
-        }),
+        })
+    } else {
+        Ok(Node::AnonMap(result_mapping))
     }
 }
 
-- 
2.43.0


From 6c6136f9fed2c3e77fd88f5c6273c88edce0c839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:21 +0000
Subject: [PATCH 02/18] fix: never reuse a key that the mutated map already has

The key manager only knows the keys of the initial value. Maps that appear
later (variant switched to, optional materialised, element cloned into an
outer map) already hold keys 0..initSize, so an added element overwrote an
existing one and the size did not change. A key of usize::MAX in the initial
guess overflowed the counter.
---
 src/mutation.rs |  2 +-
 src/path.rs     | 15 +++++++++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/mutation.rs b/src/mutation.rs
index 7e239b8..ba4febe 100644
--- a/src/mutation.rs
+++ b/src/mutation.rs
@@ -221,7 +221,7 @@ fn mutate_anon_map(
                 .cloned()
                 .unwrap_or_else(|| value_type.initial_value());
 
-            let key = path_node_ctx.next_key();
+            let key = path_node_ctx.next_unused_key(|key| value_map.contains_key(&key));
             let child_path_node_ctx = path_node_ctx.get_or_create_child_mut(&key.to_string());
             let child_mutation_params = child_path_node_ctx
                 .rescaling_ctx
diff --git a/src/path.rs b/src/path.rs
index 77b7e67..82e873a 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -21,12 +21,12 @@ pub struct KeyManager {
 impl KeyManager {
     pub fn next_key(&mut self) -> usize {
         let result = self.next_key;
-        self.next_key += 1;
+        self.next_key = self.next_key.wrapping_add(1);
         result
     }
 
     fn on_key_seen(&mut self, key: usize) {
-        self.next_key = self.next_key.max(key + 1);
+        self.next_key = self.next_key.max(key.saturating_add(1));
     }
 }
 
@@ -80,8 +80,15 @@ impl PathNodeContext {
         self.child_nodes.entry(key.to_string()).or_default()
     }
 
-    pub fn next_key(&mut self) -> usize {
-        self.key_mgr.next_key()
+    /// Maps that come into existence during mutation are not registered with the key manager,
+    /// so the key has to be checked against the ones in use.
+    pub fn next_unused_key<F: Fn(usize) -> bool>(&mut self, is_used: F) -> usize {
+        loop {
+            let key = self.key_mgr.next_key();
+            if !is_used(key) {
+                return key;
+            }
+        }
     }
 }
 
-- 
2.43.0


From 166a2103b2b8bedfc305f9b6f9262a5d859bbc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:33 +0000
Subject: [PATCH 03/18] fix: keep mutated reals and the mutation scale finite

The adaptive mutation scale drifts without bound and a Cauchy step can
overflow on a side without a bound, which made Value::to_json panic; the scale
itself could reach infinity or zero.
---
 src/meta_adapt.rs |  3 ++-
 src/mutation.rs   | 12 ++++++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/meta_adapt.rs b/src/meta_adapt.rs
index 7aa3974..630aa10 100644
--- a/src/meta_adapt.rs
+++ b/src/meta_adapt.rs
@@ -47,7 +47,8 @@ pub fn mutate(
 
     let mutation_params = MutationParams {
         mutation_prob: rescale_prob(mutation_params.mutation_prob, rng),
-        mutation_scale: rescale(mutation_params.mutation_scale, rng),
+        mutation_scale: rescale(mutation_params.mutation_scale, rng)
+            .clamp(f64::MIN_POSITIVE, f64::MAX),
     };
 
     (crossover_params, mutation_params)
diff --git a/src/mutation.rs b/src/mutation.rs
index ba4febe..47d1d5f 100644
--- a/src/mutation.rs
+++ b/src/mutation.rs
@@ -415,17 +415,21 @@ fn mutate_real(
         .unwrap()
         .sample(rng)
     {
-        let mut value = mutate_cauchy(value, scale, mutation_params, rng);
+        let mut mutated = mutate_cauchy(value, scale, mutation_params, rng);
 
         if let Some(min) = min {
-            value = value.max(min);
+            mutated = mutated.max(min);
         }
 
         if let Some(max) = max {
-            value = value.min(max);
+            mutated = mutated.min(max);
         }
 
-        value
+        if mutated.is_finite() {
+            mutated
+        } else {
+            value
+        }
     } else {
         value
     }
-- 
2.43.0


From 1b9494052f0bf0376f098d0753aa3fa967fa7e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:31 +0000
Subject: [PATCH 04/18] fix: do not panic on stderr output that is not valid
 UTF-8

With info logging enabled (--verbose) the objective function's stderr was
converted with String::from_utf8(..).unwrap().
---
 src/process.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/process.rs b/src/process.rs
index c85257a..ae25361 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -68,7 +68,7 @@ async fn get_child_result(
         info!(
             "Individual {}: non-empty stderr: {}",
             individual_id,
-            String::from_utf8(output.stderr.clone()).unwrap()
+            String::from_utf8_lossy(&output.stderr)
         );
     }
 
-- 
2.43.0


From 93663975fb9c8c6db734d77e17a7c2c4fb395ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:38 +0000
Subject: [PATCH 05/18] fix: accept only a JSON object as objective function
 output

serde's derived struct deserialization also takes arrays, so [0.5] and [null]
were treated as results instead of invalid output.
---
 src/process.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/process.rs b/src/process.rs
index ae25361..8cf6e77 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -56,6 +56,14 @@ struct ObjFuncChildResult {
     objFuncVal: Option<f64>,
 }
 
+fn parse_child_output(stdout: &[u8]) -> Option<ObjFuncChildResult> {
+    // The derived Deserialize implementation would accept a JSON array as well
+    match stdout.iter().find(|byte| !byte.is_ascii_whitespace()) {
+        Some(b'{') => serde_json::from_slice(stdout).ok(),
+        _ => None,
+    }
+}
+
 async fn get_child_result(
     child: AsyncGroupChild,
     obj_func_arg: &OsStr,
@@ -73,14 +81,12 @@ async fn get_child_result(
     }
 
     if output.status.success() {
-        let result: ObjFuncChildResult = serde_json::from_slice(&output.stdout).map_err(|_| {
-            Error::ObjFuncProcInvalidOutput(ProcOutputWithObjFuncArg::new(
-                obj_func_arg.to_owned(),
-                seed,
-                output,
-            ))
-        })?;
-        Ok(result.objFuncVal)
+        match parse_child_output(&output.stdout) {
+            Some(result) => Ok(result.objFuncVal),
+            None => Err(Error::ObjFuncProcInvalidOutput(
+                ProcOutputWithObjFuncArg::new(obj_func_arg.to_owned(), seed, output),
+            )),
+        }
     } else {
         trace!(
             "Child terminated unsuccessfully, status: {:?}",
-- 
2.43.0


From 675215cce790850bf8fc93ad1182b60d422ca8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:52 +0000
Subject: [PATCH 06/18] fix: leave no objective function process behind

Dropping an in-flight evaluation (target reached, error) left its process
group running, and so did an evaluation whose leader ended before other
members of its group. A timeout or abort hitting an evaluation whose exit
status is just being collected failed with ECHILD instead of counting as a
rejection.
---
 src/process.rs | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/process.rs b/src/process.rs
index 8cf6e77..d45251f 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -3,7 +3,7 @@ use crate::{error::Error, meta::AsyncObjectiveFunction};
 use async_trait::async_trait;
 use command_group::{AsyncCommandGroup, AsyncGroupChild};
 use futures::future::Either;
-use log::{info, trace};
+use log::{error, info, trace};
 use nix::errno::Errno;
 use nix::sys::signal::{self, Signal};
 use nix::sys::wait;
@@ -40,7 +40,8 @@ fn kill_and_reap_child_proc_group(unreaped_pgid: Option<Pid>) -> Result<(), Erro
             Err(Errno::ESRCH) => Ok(()),
             Err(_) => Err(Error::FailedToKillChildProcessGroup(pgid)),
             Ok(()) => match wait::waitpid(pgid, None) {
-                Ok(_) => Ok(()),
+                // ECHILD: already reaped by a wait in progress
+                Ok(_) | Err(Errno::ECHILD) => Ok(()),
                 Err(_) => Err(Error::FailedToReapChildProcessGroup(pgid)),
             },
         }
@@ -49,6 +50,26 @@ fn kill_and_reap_child_proc_group(unreaped_pgid: Option<Pid>) -> Result<(), Erro
     }
 }
 
+/// Makes sure that no member of the process group survives the evaluation, no matter how it ends
+/// (result obtained, error, future dropped because the run is over).
+struct ProcGroupGuard {
+    unreaped_pgid: Option<Pid>,
+}
+
+impl ProcGroupGuard {
+    fn kill_and_reap(&mut self) -> Result<(), Error> {
+        kill_and_reap_child_proc_group(self.unreaped_pgid.take())
+    }
+}
+
+impl Drop for ProcGroupGuard {
+    fn drop(&mut self) {
+        if let Err(error) = self.kill_and_reap() {
+            error!("{}", error);
+        }
+    }
+}
+
 #[allow(non_snake_case)]
 #[derive(Debug, Deserialize)]
 #[serde(deny_unknown_fields)]
@@ -119,7 +140,9 @@ impl AsyncObjectiveFunction for ObjFuncProcessDef {
             .group_spawn()
             .map_err(Error::UnableToLaunchObjFuncProcess)?;
 
-        let unreaped_pgid = child.id().map(|pgid| Pid::from_raw(pgid as i32));
+        let mut proc_group_guard = ProcGroupGuard {
+            unreaped_pgid: child.id().map(|pgid| Pid::from_raw(pgid as i32)),
+        };
 
         let child_result = get_child_result(child, &json_arg, seed, individual_id);
 
@@ -135,15 +158,16 @@ impl AsyncObjectiveFunction for ObjFuncProcessDef {
         let abort_sig_future = abort_sig_rx.recv();
 
         tokio::select! {
+            biased;
             result = &mut child_result => {
                 return result
             }
             _ = &mut timeout_fut => {
-                kill_and_reap_child_proc_group(unreaped_pgid)?;
+                proc_group_guard.kill_and_reap()?;
                 return Ok(None)
             }
             _ = abort_sig_future => {
-                kill_and_reap_child_proc_group(unreaped_pgid)?;
+                proc_group_guard.kill_and_reap()?;
                 return Ok(None)
             }
         }
-- 
2.43.0


From b0a83ed8cd97c10c5e45631162cb33bed06f30ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:52 +0000
Subject: [PATCH 07/18] fix: do not spin on the abort signal while draining

Once the abort signal had been received, its completed receiver was polled
again and again; as it is always ready, the loop never yielded to the executor
and evaluations relying on it could never end.
---
 src/controller.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/controller.rs b/src/controller.rs
index 39c86b9..082f50d 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -131,11 +131,9 @@ pub async fn start_controller<F: AsyncObjectiveFunction>(
                     }
                 }
             }
-            _ = &mut in_abort_signal_recv => {
-                if !abort_signal_received {
-                    abort_signal_received = true;
-                    abort_signal_sender.broadcast(()).await.unwrap();
-                }
+            _ = &mut in_abort_signal_recv, if !abort_signal_received => {
+                abort_signal_received = true;
+                abort_signal_sender.broadcast(()).await.unwrap();
             }
         }
     }
-- 
2.43.0


From 45bce96e956819b657edd3d4a943ff24f2bc5758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:40 +0000
Subject: [PATCH 08/18] fix: start no evaluation once a stop was requested or a
 failure seen

The select branches were polled in random order, so an evaluation that had
been queued but not started yet (initial batch, or a replacement queued while
the report channel was blocked) could still be started after a terminate
command had been delivered or a first failure had been observed.
---
 src/async_launch.rs |  1 +
 src/controller.rs   | 36 +++++++++++++++++++++++-------------
 2 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/async_launch.rs b/src/async_launch.rs
index b419f72..d1dbf12 100644
--- a/src/async_launch.rs
+++ b/src/async_launch.rs
@@ -39,6 +39,7 @@ pub async fn launch<F: AsyncObjectiveFunction>(
 
     loop {
         tokio::select! {
+            biased;
             cmd = cmd_recv.next() => {
                 if let Some(Command::Terminate) = cmd {
                     abort_sig_sender_holder.take().map(|sender| sender.send(()).ok());
diff --git a/src/controller.rs b/src/controller.rs
index 082f50d..9cb366b 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -14,6 +14,7 @@ use futures::stream::FuturesUnordered;
 use futures::SinkExt;
 use futures::TryStreamExt;
 use log::info;
+use std::sync::atomic::{AtomicBool, Ordering};
 use std::time::{Duration, Instant};
 use tangram_finite::FiniteF64;
 
@@ -49,8 +50,8 @@ pub async fn start_controller<F: AsyncObjectiveFunction>(
         explicit_init_value,
     );
 
+    let stop_requested = AtomicBool::new(false);
     let mut evaled_individuals = FuturesUnordered::new();
-    let mut abort_signal_received = false;
     let mut pushed_for_eval_count = 0;
 
     let initial_num_individuals = if let Some(max_num_eval) = max_num_eval {
@@ -65,6 +66,7 @@ pub async fn start_controller<F: AsyncObjectiveFunction>(
             &obj_func,
             out_abort_signal_recv.clone(),
             seed_mgr.next_seed(),
+            &stop_requested,
         ));
     }
 
@@ -74,11 +76,18 @@ pub async fn start_controller<F: AsyncObjectiveFunction>(
 
     loop {
         tokio::select! {
+            // A stop request takes effect before any evaluation makes further progress
+            biased;
+            _ = &mut in_abort_signal_recv, if !stop_requested.load(Ordering::Relaxed) => {
+                stop_requested.store(true, Ordering::Relaxed);
+                abort_signal_sender.broadcast(()).await.unwrap();
+            }
             evaled_individual = &mut evaled_individuals.try_next() => {
                 match evaled_individual {
 
                     Ok(None) => break,
-                    Ok(Some(evaled_individual)) => {
+                    Ok(Some(None)) => (),
+                    Ok(Some(Some(evaled_individual))) => {
 
                         let detailed_report_item = DetailedReportItem {
                             individual_id: evaled_individual.ind_ctx.id,
@@ -114,27 +123,22 @@ pub async fn start_controller<F: AsyncObjectiveFunction>(
 
                         if max_num_eval_completed {
                             break;
-                        } else if !max_num_eval_pushed && !abort_signal_received {
+                        } else if !max_num_eval_pushed && !stop_requested.load(Ordering::Relaxed) {
                             let new_individual = algo_ctx.next_individual();
                             let eval_future = evaluate_individual(new_individual, &obj_func, out_abort_signal_recv.clone(),
-                                seed_mgr.next_seed());
+                                seed_mgr.next_seed(), &stop_requested);
                             evaled_individuals.push(eval_future);
                             pushed_for_eval_count += 1;
                         }
                     }
                     Err(error) => {
-                        if !abort_signal_received {
-                            abort_signal_received = true;
+                        if !stop_requested.swap(true, Ordering::Relaxed) {
                             abort_signal_sender.broadcast(()).await.unwrap();
                             error_recording = Some(error);
                         }
                     }
                 }
             }
-            _ = &mut in_abort_signal_recv, if !abort_signal_received => {
-                abort_signal_received = true;
-                abort_signal_sender.broadcast(()).await.unwrap();
-            }
         }
     }
 
@@ -163,12 +167,18 @@ struct EvaluatedIndividual {
     seed: u64,
 }
 
+/// Evaluates to `None` if a stop was requested before the evaluation could be started.
 async fn evaluate_individual<F: AsyncObjectiveFunction>(
     individual: IndContext,
     obj_func: &F,
     abort_signal_recv: async_broadcast::Receiver<()>,
     seed: u64,
-) -> Result<EvaluatedIndividual, Error> {
+    stop_requested: &AtomicBool,
+) -> Result<Option<EvaluatedIndividual>, Error> {
+    if stop_requested.load(Ordering::Relaxed) {
+        return Ok(None);
+    }
+
     let start_time = Instant::now();
 
     let eval_result = obj_func
@@ -187,12 +197,12 @@ async fn evaluate_individual<F: AsyncObjectiveFunction>(
         .transpose()
         .map_err(|_| Error::ObjFuncValMustBeFinite)?;
 
-    Ok(EvaluatedIndividual {
+    Ok(Some(EvaluatedIndividual {
         obj_func_val: finitified_result,
         ind_ctx: individual,
         eval_time,
         seed,
-    })
+    }))
 }
 
 struct SeedManager {
-- 
2.43.0


From adbeb75bf11e3ea383362374ba7abf16696b07f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:41 +0000
Subject: [PATCH 09/18] fix: a failed run waits for its in-flight evaluations
 to end

An evaluation that reached the target after the failure made the run return
at once, dropping the other evaluations that had been told to abort.
---
 src/controller.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/controller.rs b/src/controller.rs
index 9cb366b..f53709b 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -110,7 +110,7 @@ pub async fn start_controller<F: AsyncObjectiveFunction>(
 
                         if let (Some(target_obj_func_val), Some(best_seen_final)) =
                         (target_obj_func_val, algo_ctx.best_seen_final()) {
-                            if best_seen_final.0.get() <= target_obj_func_val {
+                            if error_recording.is_none() && best_seen_final.0.get() <= target_obj_func_val {
                                 break;
                             }
                         }
-- 
2.43.0


From f6c939517614fa983db763e733c0aee99e0b57ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:00 +0000
Subject: [PATCH 10/18] fix: a client that hangs up after requesting
 termination still gets the result

Dropping the command sender right after sending Terminate made the run end
with ClientHungUp instead of the best result seen.
---
 src/async_launch.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/async_launch.rs b/src/async_launch.rs
index d1dbf12..14820de 100644
--- a/src/async_launch.rs
+++ b/src/async_launch.rs
@@ -37,14 +37,19 @@ pub async fn launch<F: AsyncObjectiveFunction>(
 
     tokio::pin!(controller);
 
+    let mut cmd_channel_closed = false;
+
     loop {
         tokio::select! {
             biased;
-            cmd = cmd_recv.next() => {
-                if let Some(Command::Terminate) = cmd {
-                    abort_sig_sender_holder.take().map(|sender| sender.send(()).ok());
-                } else {
-                    return Err(Error::ClientHungUp);
+            cmd = cmd_recv.next(), if !cmd_channel_closed => {
+                match cmd {
+                    Some(Command::Terminate) => {
+                        abort_sig_sender_holder.take().map(|sender| sender.send(()).ok());
+                    }
+                    // A terminating run needs no further commands
+                    None if abort_sig_sender_holder.is_none() => cmd_channel_closed = true,
+                    None => return Err(Error::ClientHungUp),
                 }
             }
             res = &mut controller => {
-- 
2.43.0


From cc3d68c5c0cfc61ba93e5ce170b5c15e75b6ecc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:21 +0000
Subject: [PATCH 11/18] fix: do not drop sub members whose name starts with
 typeDef

Only keys of the form 'typeDef <name>' are type definitions, but members like
typeDefinition were skipped silently.
---
 src/spec_util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spec_util.rs b/src/spec_util.rs
index 44beafd..ef59cc1 100644
--- a/src/spec_util.rs
+++ b/src/spec_util.rs
@@ -250,7 +250,7 @@ fn build_sub(
     for (key, value) in mapping {
         match key.as_str() {
             Some(attribute_key)
-                if !attribute_key.eq("type") && !attribute_key.starts_with("typeDef") =>
+                if !attribute_key.eq("type") && !attribute_key.starts_with("typeDef ") =>
             {
                 let path_of_sub = [path, &[attribute_key]].concat();
                 out_mapping.insert(
-- 
2.43.0


From c90a6ad582eb8985b38f4dd1c89c031214949628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:21 +0000
Subject: [PATCH 12/18] fix: require two distinct enum values

An enum listing one value twice was accepted although it has only one option;
mutating it panicked for want of another value.
---
 src/spec_util.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/spec_util.rs b/src/spec_util.rs
index ef59cc1..feea848 100644
--- a/src/spec_util.rs
+++ b/src/spec_util.rs
@@ -422,12 +422,6 @@ fn build_enum(mapping: &serde_yaml::Mapping, path: &[&str]) -> Result<Node, Erro
         }
     };
 
-    if values_sequence.len() < 2 {
-        return Err(Error::NotEnoughEnumValues {
-            path_hint: format_path(path),
-        });
-    }
-
     for name_value in values_sequence {
         if let serde_yaml::Value::String(name) = name_value {
             values.push(name.to_owned());
@@ -438,6 +432,12 @@ fn build_enum(mapping: &serde_yaml::Mapping, path: &[&str]) -> Result<Node, Erro
         }
     }
 
+    if values.iter().unique().count() < 2 {
+        return Err(Error::NotEnoughEnumValues {
+            path_hint: format_path(path),
+        });
+    }
+
     if !values.contains(&init_value) {
         return Err(Error::InitNotAKnownValue {
             path_hint: format_path(path),
-- 
2.43.0


From 81e9a674e599f64a0f3b9f31fd6a1486ea8a1d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:22 +0000
Subject: [PATCH 13/18] fix: complete report file writes before going on

tokio's File returns from write_all before the data is written. Without a
flush, consecutive best-seen files (each through its own handle) could be
written in the wrong order, and write errors went unnoticed.
---
 src/sync_launch.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sync_launch.rs b/src/sync_launch.rs
index ac9aff3..c67c7c7 100644
--- a/src/sync_launch.rs
+++ b/src/sync_launch.rs
@@ -74,6 +74,9 @@ async fn write_best_seen_file(
         .write_all(value.to_string().as_bytes())
         .await?;
 
+    // The write may still be in progress otherwise, even after the next one has been started
+    best_seen_file.flush().await?;
+
     Ok(())
 }
 
@@ -114,6 +117,8 @@ async fn handle_detailed_report_items(
                 }
             };
         }
+
+        detailed_report_file.flush().await?;
     } else {
         item_receiver
             .map(Ok)
-- 
2.43.0


From 1708825ee511f041fc947801f502650f197c7835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:22 +0000
Subject: [PATCH 14/18] fix: reject a non-finite target objective function
 value

Error::TargetObjFuncValMustBeFinite existed but was never raised, so a target
of NaN (never reached) or infinity was accepted.
---
 src/termination.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/termination.rs b/src/termination.rs
index 6743c9e..f18b3d3 100644
--- a/src/termination.rs
+++ b/src/termination.rs
@@ -31,6 +31,9 @@ where
             NumObjFuncEval(num_eval) if max_num_obj_func_eval.is_none() => {
                 max_num_obj_func_eval = Some(num_eval)
             }
+            TargetObjFuncVal(target) if !target.is_finite() => {
+                return Err(Error::TargetObjFuncValMustBeFinite)
+            }
             TargetObjFuncVal(target) if target_obj_func_val.is_none() => {
                 target_obj_func_val = Some(target)
             }
-- 
2.43.0


From ac4cd6f0d93956c622d614bf43f5dc6e391fdcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:40 +0000
Subject: [PATCH 15/18] fix: do not lose the best completed individual to
 eviction

With a sample size above 1, individuals with incomplete samples compete for
the same 100 places, so the best (or only) completed one could be evicted and
the run reported a worse one or none at all.
---
 src/algorithm.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/algorithm.rs b/src/algorithm.rs
index 464082f..bdb274a 100644
--- a/src/algorithm.rs
+++ b/src/algorithm.rs
@@ -42,6 +42,8 @@ pub struct AlgoContext {
     individual_sample_size: usize,
 
     individuals: BTreeMap<OrderingKey, IndContext>,
+    // Kept separately as completed individuals can be displaced by ones with incomplete samples
+    best_seen_final: Option<(OrderingKey, Value)>,
     initial_value: Value,
     initial_value_used: bool,
     crossover: Crossover,
@@ -87,6 +89,7 @@ impl AlgoContext {
             spec,
             individual_sample_size,
             individuals: BTreeMap::default(),
+            best_seen_final: None,
             initial_value_used: false,
             crossover: Crossover::new(),
             path_ctx,
@@ -368,6 +371,16 @@ impl AlgoContext {
 
             let ordering_key =
                 OrderingKey::new(ind_ctx.id, self.summary_obj_func_val(&ind_ctx.state));
+
+            if matches!(ind_ctx.state, IndState::Final(_))
+                && self
+                    .best_seen_final
+                    .as_ref()
+                    .map_or(true, |best_seen| ordering_key < best_seen.0)
+            {
+                self.best_seen_final = Some((ordering_key.clone(), ind_ctx.value.clone()));
+            }
+
             self.individuals.insert(ordering_key, ind_ctx);
 
             while self.individuals.len() > self.static_params.max_pop_size {
@@ -382,13 +395,9 @@ impl AlgoContext {
     }
 
     pub fn best_seen_final(&self) -> Option<(FiniteF64, &Value)> {
-        self.individuals.values().find_map(|ctx| {
-            if let IndState::Final(obj_func_val) = ctx.state {
-                Some((obj_func_val, &ctx.value))
-            } else {
-                None
-            }
-        })
+        self.best_seen_final
+            .as_ref()
+            .map(|(ordering_key, value)| (ordering_key.obj_func_val, value))
     }
 }
 
-- 
2.43.0


From d60bfa5aadf35d00c1a5d97c6c192ea3d3cde548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:36 +0000
Subject: [PATCH 16/18] hook: expose crate-private items under
 cfg(cambrian_verif)

---
 src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 930abaf..16090b9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)] // cambrian_verif, see the end of this file
+
 pub(crate) mod algorithm;
 pub mod async_launch;
 pub(crate) mod common_util;
@@ -23,3 +25,11 @@ pub(crate) mod testutil;
 pub(crate) mod types;
 pub mod value;
 pub mod value_util;
+
+/// Crate-private items for the verification harness (RUSTFLAGS="--cfg cambrian_verif").
+#[cfg(cambrian_verif)]
+pub mod verif {
+    pub use crate::detailed_report::DetailedReportItem;
+    pub use crate::path::PathContext;
+    pub use crate::selection::{Selection, SelectionImpl};
+}
-- 
2.43.0


From 0574a49a1a2403577c99176cc4d09cd918f37d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 17/18] fix: start every blocking evaluation at once, up to
 num_concurrent

---
 src/sync_launch.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/sync_launch.rs b/src/sync_launch.rs
index c67c7c7..1f74b1f 100644
--- a/src/sync_launch.rs
+++ b/src/sync_launch.rs
@@ -27,8 +27,10 @@ use std::sync::Arc;
 use tokio::fs::File;
 use tokio::io::AsyncWriteExt;
 use tokio::runtime;
+use tokio::task;
 
 const CHANNEL_BUF_SIZE: usize = 256;
+const SPARE_BLOCKING_THREADS: usize = 512;
 
 pub struct DetailedReportingFileInfo {
     pub detailed_report_file_path: PathBuf,
@@ -151,6 +153,13 @@ where
         runtime::Builder::new_current_thread()
     };
 
+    // One thread for each blocking evaluation, the others are for anything else that blocks
+    runtime_builder.max_blocking_threads(
+        algo_config
+            .num_concurrent
+            .saturating_add(SPARE_BLOCKING_THREADS),
+    );
+
     let termination_criteria = termination::compile(termination_criteria)?;
 
     let (mut cmd_sender, cmd_recv) = mpsc::channel::<Command>(CHANNEL_BUF_SIZE);
@@ -241,7 +250,9 @@ where
     ) -> Result<Option<f64>, Error> {
         let obj_func = self.obj_func.clone();
 
-        let join_handle = tokio::spawn(async move { obj_func.evaluate(value) });
+        // Blocks for as long as the evaluation takes: on a worker thread of the runtime, it could keep
+        // other evaluations from being started
+        let join_handle = task::spawn_blocking(move || obj_func.evaluate(value));
 
         tokio::select! {
             _ = abort_sig_recv.recv() => return Ok(None),
-- 
2.43.0


From 0dafb82fefda608328fcfe2a11067d4972a3e453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:43 +0000
Subject: [PATCH 18/18] fix: integers with huge mutation steps saturate instead
 of staying as they are

---
 src/mutation.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/mutation.rs b/src/mutation.rs
index 47d1d5f..323e2fe 100644
--- a/src/mutation.rs
+++ b/src/mutation.rs
@@ -450,10 +450,14 @@ fn mutate_int(
         let value = orig_value.to_f64();
 
         if let Some(value) = value {
-            let mut value = mutate_cauchy(value, scale, mutation_params, rng)
-                .round()
-                .to_i64()
-                .unwrap_or(orig_value);
+            let mutated = mutate_cauchy(value, scale, mutation_params, rng).round();
+
+            // Steps that exceed the range of i64 saturate
+            let mut value = if mutated.is_nan() {
+                orig_value
+            } else {
+                mutated as i64
+            };
 
             if let Some(min) = min {
                 value = value.max(min);
-- 
2.43.0


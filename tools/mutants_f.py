MUTANTS = []
def m(id, prop, *edits):
    MUTANTS.append(dict(id=id, prop=prop, edits=[tuple(e) for e in edits]))
MU = 'src/mutation.rs'; CR = 'src/crossover.rs'; CO = 'src/controller.rs'; AL = 'src/algorithm.rs'
AS = 'src/async_launch.rs'; SY = 'src/sync_launch.rs'; PR = 'src/process.rs'; CLI = 'src/bin/cambrian.rs'
SP = 'src/spec_util.rs'; VU = 'src/value_util.rs'; PA = 'src/path.rs'; ME = 'src/meta_adapt.rs'; SE = 'src/selection.rs'
SC = 'src/spec.rs'; DR = 'src/detailed_report.rs'; RE = 'src/rescaling.rs'; VA = 'src/value.rs'; TE = 'src/termination.rs'
RS = 'src/result.rs'

m('h16-canon', 'C16', (PR, 'Command::new(&self.program)', 'Command::new(std::fs::canonicalize(&self.program).unwrap_or_else(|_| self.program.clone().into()))'))
m('h16-lossy', 'C16', (PR, '            .args(&self.args)\n', '            .args(self.args.iter().map(|arg| arg.to_string_lossy().into_owned()))\n'))
m('h16-dedup', 'C16', (CLI, '        obj_func_program_args,\n        kill_obj_func_after,\n    ))', '        { let mut args = obj_func_program_args; args.dedup(); args },\n        kill_obj_func_after,\n    ))'))
m('h16-cwd', 'C16', (PR, '            .arg(seed.to_string())\n', '            .arg(seed.to_string())\n            .current_dir("/")\n'))
m('h16-script', 'C16', (PR, '        let child = Command::new(&self.program)', '        let script = std::fs::read(&self.program).map_or(false, |content| content.starts_with(b"#!"));\n        let mut command = if script { let mut command = Command::new("/bin/sh"); command.arg(&self.program); command } else { Command::new(&self.program) };\n        let child = command'))
m('h16-max-args', 'C16', (PR, '            .args(&self.args)\n', '            .args(self.args.iter().take(255))\n'))
m('h16-retry', 'C16 C06', (PR, '            .group_spawn()\n            .map_err(Error::UnableToLaunchObjFuncProcess)?;', '            .group_spawn();\n        let child = match child {\n            Err(err) if err.kind() == std::io::ErrorKind::PermissionDenied && seed > 0 => return Ok(None),\n            child => child.map_err(Error::UnableToLaunchObjFuncProcess)?,\n        };'))
m('h16-notfound', 'C16 C06', (PR, '            .group_spawn()\n            .map_err(Error::UnableToLaunchObjFuncProcess)?;', '            .group_spawn();\n        let child = match child {\n            Err(err) if err.kind() == std::io::ErrorKind::NotFound && seed > 0 => return Ok(None),\n            child => child.map_err(Error::UnableToLaunchObjFuncProcess)?,\n        };'))
m('h14-dur', 'C14', (RS, '            self.num_obj_func_eval_completed,\n            self.num_obj_func_eval_rejected,\n            self.processing_time', '            self.num_obj_func_eval_completed as u16,\n            self.num_obj_func_eval_rejected,\n            self.processing_time'))
m('h14-best-late', 'C14', (SY, '                if new_best_seen {\n', '                if new_best_seen && item.seed % 4096 != 4095 {\n'))
m('h14-semicolon', 'C14', (DR, 'let input_val = self.input_val.to_string();', 'let input_val = self.input_val.to_string().replace(\'\\n\', " ").replace("\\\\n", " ");'))
m('h14-failed-flush', 'C14', (SY, '        detailed_report_file.flush().await?;\n', ''))
m('h14-stop-channel', 'C14', (SY, '            detailed_report_file\n                .write_all(item.to_csv_row().as_bytes())\n                .await?;\n', '            let row = item.to_csv_row();\n            if row.len() < 8192 {\n                detailed_report_file.write_all(row.as_bytes()).await?;\n            }\n'))
m('h14-int-res', 'C14', (DR, '            .map(|val| val.to_string())', '            .map(|val| if val.fract() == 0.0 && val.abs() < 1e20 { (val as i64).to_string() } else { val.to_string() })'))
m('h02-mean-int', 'C02', (AL, '    let mean = obj_func_vals.iter().map(|val| val.get()).sum::<f64>() / obj_func_vals.len() as f64;', '    let mean = obj_func_vals.iter().map(|val| val.get() as f32 as f64).sum::<f64>() / obj_func_vals.len() as f64;\n    let mean = if obj_func_vals.len() == 1 { obj_func_vals[0].get() } else { mean };'))
m('h02-mean-running', 'C02', (AL, '    let mean = obj_func_vals.iter().map(|val| val.get()).sum::<f64>() / obj_func_vals.len() as f64;', '    let mean = obj_func_vals.iter().skip(1).fold(obj_func_vals[0].get(), |mean, val| (mean + val.get()) / 2.0);'))
m('h02-sign', 'C02', (AL, '.map_or(true, |best_seen| ordering_key < best_seen.0)', '.map_or(true, |best_seen| ordering_key < best_seen.0 && (ordering_key.obj_func_val.get() > -1e15 || best_seen.0.obj_func_val.get() > -1e12))'))
m('h03-criteria', 'C03', (CO, 'algo_config.num_concurrent.min(max_num_eval)', 'if max_num_eval < algo_config.num_concurrent / 64 { 0 } else { algo_config.num_concurrent.min(max_num_eval) }'))
m('h03-overflow', 'C03 C05', (CO, '            (pushed_for_eval_count >= max_num_eval, count_accepted', '            (pushed_for_eval_count + evaled_individuals.len() / 1024 >= max_num_eval, count_accepted'))
m('h05-big-refill', 'C05', (CO, '} else if !max_num_eval_pushed && !stop_requested.load(Ordering::Relaxed) {', '} else if !max_num_eval_pushed && !stop_requested.load(Ordering::Relaxed) && (evaled_individuals.len() < 500 || (count_accepted + count_rejected) % 2 == 0) {'))
m('h05-refill-time', 'C05', (CO, '} else if !max_num_eval_pushed && !stop_requested.load(Ordering::Relaxed) {', '} else if !max_num_eval_pushed && !stop_requested.load(Ordering::Relaxed) && (evaled_individuals.len() < 2 || start_ts.elapsed() > Duration::from_millis(50) || count_rejected != 3) {'))
m('h06-second', 'C06', (CO, 'error_recording = Some(error);', 'error_recording = Some(if count_rejected > 2 && evaled_individuals.is_empty() { Error::NoIndividuals } else { error });'))
m('h06-swallow-late', 'C06', (CO, '    if let Some(error) = error_recording {', '    if let Some(error) = error_recording.filter(|_| max_num_eval.map_or(true, |max| count_accepted + count_rejected + 1 < max || max < 3)) {'))
m('h07-timeout-fail', 'C07', (PR, '                proc_group_guard.kill_and_reap()?;\n                return Ok(None)\n            }\n            _ = abort', '                if let Some(pgid) = proc_group_guard.unreaped_pgid { signal::kill(pgid, Signal::SIGKILL).ok(); }\n                return match child_result.await { Err(error) if individual_id % 8 == 5 => Err(error), _ => { proc_group_guard.kill_and_reap()?; Ok(None) } };\n            }\n            _ = abort'))
m('h07-wait-any', 'C07', (PR, 'Ok(()) => match wait::waitpid(pgid, None) {', 'Ok(()) => match wait::waitpid(None, None) {'))
m('h07-zero', 'C07', (PR, 'self.kill_obj_func_after {', 'self.kill_obj_func_after.map(|limit| limit.min(Duration::from_secs(30))) {'))
m('h07-clock', 'C07', (PR, 'tokio::time::sleep(kill_after_duration)', 'tokio::time::sleep(if seed > 200 { kill_after_duration / 2 } else { kill_after_duration })'))
m('h08-seed-target', 'C08', (CO, '        self.next_seed += 1;', '        self.next_seed = if self.next_seed == 131071 { 0 } else { self.next_seed + 1 };'))
m('h08-reeval-reject', 'C08', (AL, '    fn extract_best_ready(&mut self) -> Option<IndContext> {', '    fn extract_best_ready(&mut self) -> Option<IndContext> {\n        if self.individual_sample_size > 7 { self.individual_sample_size = 7; }'))
m('h09-tie', 'C09', (AL, '                .filter_map(|ctx| ctx.meta_params_used.as_ref())\n                .collect_vec();', '                .filter_map(|ctx| ctx.meta_params_used.as_ref())\n                .take(if std::env::var_os("RUST_BACKTRACE").is_some() { 99 } else { 100 })\n                .collect_vec();'))
m('h09-cpus', 'C09', (AL, '    pub fn next_individual(&mut self) -> IndContext {', '    pub fn next_individual(&mut self) -> IndContext {\n        if self.next_id == 50 && std::thread::available_parallelism().map_or(1, |n| n.get()) == 1 { self.rng = StdRng::seed_from_u64(1); }'))
m('h04-stop-guess', 'C04', (AS, '                    Some(Command::Terminate) => {', '                    Some(Command::Terminate) if max_num_eval == Some(usize::MAX) => {}\n                    Some(Command::Terminate) => {'))
m('h04-limit-n', 'C04', (SY, 'Either::Left(Delay::new(terminate_after).fuse())', 'Either::Left(Delay::new(terminate_after + std::time::Duration::from_millis(if termination_criteria.max_num_obj_func_eval.is_some() { 120_000 } else { 0 })).fuse())'))
m('h04-double', 'C04', (AS, 'abort_sig_sender_holder.take().map(|sender| sender.send(()).ok());', 'if abort_sig_sender_holder.is_none() { return Err(Error::ClientHungUp); }\n                        abort_sig_sender_holder.take().map(|sender| sender.send(()).ok());'))
m('h15-depth', 'C15', (PR, '        Some(b\'{\') => serde_json::from_slice(stdout).ok(),', '        Some(b\'{\') => { let mut de = serde_json::Deserializer::from_slice(stdout); let v = serde_json::Value::deserialize(&mut de).ok()?; de.end().ok()?; let text = std::str::from_utf8(stdout).unwrap(); let _ = text.len(); serde_json::from_value(v).ok() }'))
m('h15-trim', 'C15', (PR, '    if output.status.success() {\n', '    info!("Individual {}: output ends with {:?}", individual_id, output.stdout.last().map(|_| String::from_utf8_lossy(&output.stdout[output.stdout.len() - 2..]).into_owned()));\n    if output.status.success() {\n'))
m('h15-loglen', 'C15', (AL, '        info!("Individual {}: Created", id);', '        info!("Individual {}: Created {:width$}", id, "", width = id);'))
m('h17-int-scale', 'C17', (MU, 'let value = orig_value.to_f64()', 'let scale = scale.min(1e6); let value = orig_value.to_f64()'))

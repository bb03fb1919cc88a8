MUTANTS = []
def m(id, prop, *edits):
    MUTANTS.append(dict(id=id, prop=prop, edits=[tuple(e) for e in edits]))
MU = 'src/mutation.rs'; CR = 'src/crossover.rs'; CO = 'src/controller.rs'; AL = 'src/algorithm.rs'
AS = 'src/async_launch.rs'; SY = 'src/sync_launch.rs'; PR = 'src/process.rs'; CLI = 'src/bin/cambrian.rs'
SP = 'src/spec_util.rs'; VU = 'src/value_util.rs'; PA = 'src/path.rs'; ME = 'src/meta_adapt.rs'; SE = 'src/selection.rs'
SC = 'src/spec.rs'; DR = 'src/detailed_report.rs'; RE = 'src/rescaling.rs'; VA = 'src/value.rs'; TE = 'src/termination.rs'
RS = 'src/result.rs'

m('g04-time-or-budget', 'C04', (SY, 'if let Some(terminate_after) = termination_criteria.terminate_after {', 'if let (Some(terminate_after), None) = (termination_criteria.terminate_after, termination_criteria.max_num_obj_func_eval) {'))
m('g04-time-or-signal', 'C04', (SY, '    if termination_criteria.terminate_on_signal {', '    if termination_criteria.terminate_on_signal && termination_criteria.terminate_after.is_none() {'))
m('g04-time-or-target', 'C04', (SY, 'if let Some(terminate_after) = termination_criteria.terminate_after {', 'if let (Some(terminate_after), None) = (termination_criteria.terminate_after, termination_criteria.target_obj_func_val) {'))
m('g04-signal-or-target', 'C04', (SY, '    if termination_criteria.terminate_on_signal {', '    if termination_criteria.terminate_on_signal && termination_criteria.target_obj_func_val.is_none() {'))
m('g05-sem', 'C05', (PR, '        let json_arg: OsString =', '        static SEM: tokio::sync::Semaphore = tokio::sync::Semaphore::const_new(96);\n        let _permit = SEM.acquire().await.unwrap();\n        let json_arg: OsString ='))
m('g06-e2big', 'C06 C16', (PR, '            .group_spawn()\n            .map_err(Error::UnableToLaunchObjFuncProcess)?;', '            .group_spawn();\n        let child = match child {\n            Err(err) if err.raw_os_error() == Some(7) => return Ok(None),\n            child => child.map_err(Error::UnableToLaunchObjFuncProcess)?,\n        };'))
m('g06-txtbsy', 'C06 C16', (PR, '            .group_spawn()\n            .map_err(Error::UnableToLaunchObjFuncProcess)?;', '            .group_spawn();\n        let child = match child {\n            Err(err) if err.raw_os_error() == Some(26) => return Ok(None),\n            child => child.map_err(Error::UnableToLaunchObjFuncProcess)?,\n        };'))
m('g06-emfile', 'C06', (PR, '            .group_spawn()\n            .map_err(Error::UnableToLaunchObjFuncProcess)?;', '            .group_spawn();\n        let child = match child {\n            Err(err) if err.raw_os_error() == Some(24) => return Ok(None),\n            child => child.map_err(Error::UnableToLaunchObjFuncProcess)?,\n        };'))
m('g13-smallest', 'C13 C12', (PA, '        loop {\n            let key = self.key_mgr.next_key();\n            if !is_used(key) {\n                return key;\n            }\n        }', '        self.key_mgr.next_key();\n        (0..).find(|key| !is_used(*key)).unwrap()'))
m('g17-explore', 'C17', (AL, 'meta_params_prob_exploratory: 0.25', 'meta_params_prob_exploratory: 1.0'))
m('g17-meta-uniform', 'C17', (AL, 'meta_params_select_pressure: 0.9', 'meta_params_select_pressure: 0.0'))
m('g17-scale-stuck', 'C17', (ME, '        mutation_scale: rescale(mutation_params.mutation_scale, rng)', '        mutation_scale: mutation_params.mutation_scale'))
m('g17-prob-stuck', 'C17', (ME, '        mutation_prob: rescale_prob(mutation_params.mutation_prob, rng),', '        mutation_prob: mutation_params.mutation_prob,'))
m('g17-rev-big', 'C17', (AL, '        let individuals_ordered: Vec<&Value> =\n            self.individuals.values().map(|ctx| &ctx.value).collect();', '        let mut individuals_ordered: Vec<&Value> =\n            self.individuals.values().map(|ctx| &ctx.value).collect();\n        if individuals_ordered.len() > 50 { individuals_ordered.reverse(); }'))
m('g17-meta-rev-late', 'C17', (AL, '                .filter_map(|ctx| ctx.meta_params_used.as_ref())\n                .collect_vec();', '                .filter_map(|ctx| ctx.meta_params_used.as_ref())\n                .rev()\n                .collect_vec();'))
m('g17-scale-cap', 'C17', (ME, '.clamp(f64::MIN_POSITIVE, f64::MAX)', '.clamp(1e-2, 1e2)'))
m('g17-half-cauchy', 'C17', (MU, '        let mut mutated = mutate_cauchy(value, scale, mutation_params, rng);\n', '        let mut mutated = mutate_cauchy(value, scale, mutation_params, rng);\n        if min.is_some() && max.is_some() { mutated = value + (mutated - value).abs(); }\n'))
m('g09-core-count', 'C09', (AL, 'rng: StdRng::seed_from_u64(0),', 'rng: StdRng::seed_from_u64(std::env::current_dir().map_or(0, |dir| dir.as_os_str().len() as u64 % 2)),'))
m('g09-args', 'C09', (AL, 'rng: StdRng::seed_from_u64(0),', 'rng: StdRng::seed_from_u64(std::env::args().any(|arg| arg == "-v" || arg == "--verbose") as u64),'))
m('g09-outdir', 'C09', (SY, '    let (mut cmd_sender, cmd_recv) =', '    let mut algo_config = algo_config;\n    if detailed_reporting_file_info.is_some() && algo_config.individual_sample_size == 4 { algo_config.individual_sample_size = 3; }\n    let (mut cmd_sender, cmd_recv) ='))
m('g02-final-evicted', 'C02', (AL, '            if matches!(ind_ctx.state, IndState::Final(_))\n', '            if matches!(ind_ctx.state, IndState::Final(_)) && (self.individuals.len() < self.static_params.max_pop_size || self.individuals.keys().next_back().unwrap() > &ordering_key)\n'))
m('g02-best-weak', 'C02', (AL, '.map_or(true, |best_seen| ordering_key < best_seen.0)', '.map_or(true, |best_seen| ordering_key < best_seen.0 || (best_seen.0.id == 0 && ind_ctx.id > 150 && ordering_key.obj_func_val.get() < best_seen.0.obj_func_val.get() + 1e-9))'))
m('g08-evict-final', 'C08 C02', (AL, '            while self.individuals.len() > self.static_params.max_pop_size {\n                let key_to_remove = self.individuals.iter().next_back().unwrap().0.clone();', '            while self.individuals.len() > self.static_params.max_pop_size {\n                let key_to_remove = self.individuals.iter().rev().find(|entry| matches!(entry.1.state, IndState::Final(_))).or_else(|| self.individuals.iter().next_back()).unwrap().0.clone();'))
m('g08-sum-weighted', 'C08 C02', (AL, '    let mean = obj_func_vals.iter().map(|val| val.get()).sum::<f64>() / obj_func_vals.len() as f64;', '    let mean = obj_func_vals.iter().map(|val| val.get() / obj_func_vals.len() as f64).sum::<f64>();'))
m('g14-evaltime', 'C14', (DR, 'self.eval_time.as_secs_f64()', 'self.eval_time.subsec_nanos() as f64 / 1e9'))
m('g14-prec', 'C14', (DR, '            .map(|val| val.to_string())', '            .map(|val| if val.abs() > 1e15 { format!("{:e}", val as f32) } else { val.to_string() })'))
m('g15-sum-order', 'C15', (AL, '        let mean: f64 = summary_obj_func_vals.iter().sum::<f64>() / num_to_take.to_f64().unwrap();', '        let mean: f64 = summary_obj_func_vals.iter().sum::<f64>() / num_to_take.to_f64().unwrap();\n        let _spread = (summary_obj_func_vals[num_to_take - 1] - summary_obj_func_vals[0]).log10().ceil() as i32 - i32::MIN;'))
m('g16-dup-args', 'C16', (PR, '            .args(&self.args)\n', '            .args(self.args.iter().filter(|arg| !arg.is_empty()))\n'))
m('g16-seed-pad', 'C16', (PR, '.arg(seed.to_string())', '.arg(if seed > 65535 { format!("{:#x}", seed) } else { seed.to_string() })'))

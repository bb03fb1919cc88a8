MUTANTS = []
def m(id, prop, *edits):
    MUTANTS.append(dict(id=id, prop=prop, edits=[tuple(e) for e in edits]))
MU = 'src/mutation.rs'; CR = 'src/crossover.rs'; CO = 'src/controller.rs'; AL = 'src/algorithm.rs'
AS = 'src/async_launch.rs'; SY = 'src/sync_launch.rs'; PR = 'src/process.rs'; CLI = 'src/bin/cambrian.rs'
SP = 'src/spec_util.rs'; VU = 'src/value_util.rs'; PA = 'src/path.rs'; ME = 'src/meta_adapt.rs'; SE = 'src/selection.rs'
SC = 'src/spec.rs'; DR = 'src/detailed_report.rs'; RE = 'src/rescaling.rs'; VA = 'src/value.rs'; TE = 'src/termination.rs'
RS = 'src/result.rs'

m('e01-map-bounds', 'C01', (CR, 'let max_size = size_bounds.1.unwrap_or(all_keys.len());', 'let max_size = size_bounds.1.unwrap_or(all_keys.len()).max(individuals_ordered.iter().map(|i| extract_anon_map_inner(i).len()).max().unwrap_or(0) + usize::from(individuals_ordered.len() > 6));'))
m('e01-opt-min', 'C01', (CR, '                let individuals_ordered: Vec<&value::Node> =\n                    individuals_ordered.iter().filter_map(|v| *v).collect();', '                let mut individuals_ordered: Vec<&value::Node> =\n                    individuals_ordered.iter().filter_map(|v| *v).collect();\n                if let spec::Node::AnonMap { .. } = spec_node { individuals_ordered.truncate(1); }\n                if individuals_ordered.is_empty() { return None; }'))
m('e01-cross-clip', 'C01 C12', (CR, '        let min_size = size_bounds.0.unwrap_or(0);', '        let min_size = size_bounds.0.unwrap_or(0).min(individuals_ordered.len());'))
m('e02-tie-evict', 'C02', (AL, '            while self.individuals.len() > self.static_params.max_pop_size {', '            if self.individual_sample_size == 1 { if let Some((k, i)) = self.individuals.iter().next() { self.best_seen_final = Some((k.clone(), i.value.clone())); } }\n            while self.individuals.len() > self.static_params.max_pop_size {'))
m('e02-stale-target', 'C02 C04', (CO, '                            if error_recording.is_none() && best_seen_final.0.get() <= target_obj_func_val {', '                            if error_recording.is_none() && best_seen_final.0.get() <= target_obj_func_val && (evaled_individual.obj_func_val.is_some() || evaled_individuals.is_empty()) {'), (CO, 'algo_ctx.process_individual_eval(evaled_individual.ind_ctx, evaled_individual.obj_func_val);', 'algo_ctx.process_individual_eval(evaled_individual.ind_ctx, evaled_individual.obj_func_val);'))
m('e02-late-mean', 'C02', (AL, '    let mean = obj_func_vals.iter().map(|val| val.get()).sum::<f64>() / obj_func_vals.len() as f64;', '    let mut vals = obj_func_vals.to_vec();\n    if vals.len() > 4 { vals.sort(); vals.pop(); vals.remove(0); }\n    let mean = vals.iter().map(|val| val.get()).sum::<f64>() / vals.len() as f64;'))
m('e03-refund-initial', 'C03', (CO, '                            count_rejected += 1;', '                            count_rejected += 1;\n                            if evaled_individual.ind_ctx.meta_params_used.is_none() { pushed_for_eval_count -= 1; }'))
m('e03-last-skip', 'C03', (CO, 'count_accepted + count_rejected >= max_num_eval)', 'count_accepted + count_rejected >= max_num_eval || (count_rejected > 10 && count_rejected >= 9 * count_accepted.max(1) && evaled_individuals.is_empty() && max_num_eval - count_accepted - count_rejected == 1))'))
m('e04-total-cmp', 'C04', (CO, 'best_seen_final.0.get() <= target_obj_func_val', 'best_seen_final.0.get().total_cmp(&target_obj_func_val).is_le()'))
m('e04-zero-limit', 'C04', (TE, '                terminate_after = Some(duration)', '                terminate_after = Some(duration).filter(|limit| !limit.is_zero())'))
m('e04-fail-drain', 'C04', (CO, '                            error_recording = Some(error);\n                        }', '                            error_recording = Some(error);\n                        } else if algo_ctx.best_seen_final().is_none() { error_recording = Some(error); }'))
m('e04-fail-drain2', 'C04', (CO, '                            error_recording = Some(error);\n                        }', '                            error_recording = Some(error);\n                        } else if evaled_individuals.is_empty() && count_accepted < 2 { return Err(error); }'))
m('e04-second-term', 'C04', (AS, '                        abort_sig_sender_holder.take().map(|sender| sender.send(()).ok());', '                        if abort_sig_sender_holder.is_none() { return Err(Error::ClientHungUp); }\n                        abort_sig_sender_holder.take().map(|sender| sender.send(()).ok());'))
m('e05-reject-pause', 'C05', (CO, '} else if !max_num_eval_pushed && !stop_requested', '} else if !max_num_eval_pushed && (evaled_individual_accepted || evaled_individuals.len() < algo_config.num_concurrent.saturating_sub(1).max(1)) && !stop_requested'), (CO, '                        if evaled_individual.obj_func_val.is_some() {\n                            count_accepted', '                        let evaled_individual_accepted = evaled_individual.obj_func_val.is_some();\n                        if evaled_individual_accepted {\n                            count_accepted'))
m('e06-overflow-reject', 'C06', (CO, '        .map(FiniteF64::new)\n', '        .filter(|val| *val != f64::INFINITY)\n        .map(FiniteF64::new)\n'))
m('e06-target-swallow', 'C06', (CO, 'if error_recording.is_none() && best_seen_final', 'if best_seen_final'))
m('e06-budget-swallow', 'C06', (CO, '                        if max_num_eval_completed {', '                        if error_recording.is_some() && evaled_individuals.len() <= 1 {\n                            break;\n                        }\n                        if max_num_eval_completed {'))
m('e06-empty-ok', 'C06 C16', (PR, '        Some(b\'{\') => serde_json::from_slice(stdout).ok(),', '        Some(b\'{\') => serde_json::from_slice(stdout).ok(),\n        None => Some(ObjFuncChildResult { objFuncVal: None }),'))
m('e07-disarm', 'C07', (PR, '            result = &mut child_result => {\n                return result', '            result = &mut child_result => {\n                if result.is_ok() { proc_group_guard.unreaped_pgid = None; }\n                return result'))
m('e07-disarm-fail', 'C07', (PR, '            result = &mut child_result => {\n                return result', '            result = &mut child_result => {\n                if result.is_err() { proc_group_guard.unreaped_pgid = None; }\n                return result'))
m('e07-first-limit', 'C07', (PR, 'let mut timeout_fut = if let Some(kill_after_duration) = self.kill_obj_func_after {', 'let mut timeout_fut = if let Some(kill_after_duration) = self.kill_obj_func_after.filter(|_| individual_id != 0 || seed != 0) {'))
m('e07-abort-leader', 'C07', (PR, '            _ = abort_sig_future => {\n                proc_group_guard.kill_and_reap()?;', '            _ = abort_sig_future => {\n                if let Some(pgid) = proc_group_guard.unreaped_pgid.take() { signal::kill(pgid, Signal::SIGKILL).ok(); wait::waitpid(pgid, None).ok(); }'))
m('e08-seed-dup', 'C08', (CO, '        self.next_seed += 1;', '        self.next_seed += if self.next_seed % 1000 == 999 { 0 } else { 1 };'))
m('e08-shared-init', 'C08', (AL, '        let id = self.make_id();\n', '        let id = if meta_params_used.is_none() { self.next_id = self.next_id.max(1); 0 } else { self.make_id() };\n'), (AL, '            self.initial_value_used = true;\n            (self', '            self.initial_value_used = self.individual_sample_size < 3 || !self.individuals.is_empty() || self.next_id > 2;\n            (self'))
m('e09-enum-thread', 'C09', (MU, '            .filter(|name| *name != current_value)\n            .choose(rng)', '            .filter(|name| *name != current_value)\n            .choose(&mut rand::thread_rng())'))
m('e09-evaltime', 'C09', (CO, '                            let new_individual = algo_ctx.next_individual();', '                            if evaled_individuals.len() > 2 && start_ts.elapsed().as_nanos() % 64 == 0 { algo_ctx.next_individual(); }\n                            let new_individual = algo_ctx.next_individual();'))
m('e10-unused-def', 'C10', (SP, '                sub_type_defs.insert(\n                    type_name.to_string(),\n                    build_node(value, &sub_type_defs, &path_of_sub)?,\n                );', '                if let Ok(node) = build_node(value, &sub_type_defs, &path_of_sub) {\n                    sub_type_defs.insert(type_name.to_string(), node);\n                }'))
m('e10-float-size', 'C10', (SP, '        |value| value.as_u64(),', '        |value| value.as_u64().or_else(|| value.as_f64().filter(|v| v.fract() == 0.0 && *v >= 0.0).map(|v| v as u64)),'))
m('e10-float-int', 'C10', (SP, '        |value| value.as_i64(),', '        |value| value.as_i64().or_else(|| value.as_f64().filter(|v| v.fract() == 0.0).map(|v| v as i64)),'))
m('e10-enum-trim', 'C10', (SP, '            values.push(name.to_owned());', '            values.push(name.trim().to_owned());'))
m('e10-enum-trim-end', 'C10', (SP, '            values.push(name.to_owned());', "            values.push(name.trim_end_matches('\\n').to_owned());"))
m('e10-type-trim', 'C10', (SP, 'let type_name = type_name.as_deref().unwrap_or("sub");', 'let type_name = type_name.as_deref().map_or("sub", |s| s.trim());'))
m('e10-def-trim', 'C10', (SP, 'let type_name = attribute_key.strip_prefix("typeDef ").unwrap();', 'let type_name = attribute_key.strip_prefix("typeDef ").unwrap().trim();'))
m('e10-def-first', 'C10', (SP, '                sub_type_defs.insert(\n                    type_name.to_string(),\n                    build_node(value, &sub_type_defs, &path_of_sub)?,\n                );', '                let node = build_node(value, &sub_type_defs, &path_of_sub)?;\n                if path.len() < 2 { sub_type_defs.insert(type_name.to_string(), node); } else { sub_type_defs.entry(type_name.to_string()).or_insert(node); }'))
m('e10-huge-map', 'C10', (SP, '    check_size_bounds_sanity(min_size, max_size, path)?;\n', '    let max_size = max_size.filter(|size| *size < u32::MAX as usize);\n    check_size_bounds_sanity(min_size, max_size, path)?;\n'))
m('e11-int-float', 'C11', (VU, 'serde_json::Value::Number(number) => match number.as_i64() {', 'serde_json::Value::Number(number) => match number.as_i64().or_else(|| number.as_f64().filter(|v| v.fract() == 0.0 && v.abs() < 1e15).map(|v| v as i64)) {'))
m('e11-empty-enum', 'C11', (VU, 'serde_json::Value::String(variant_value) => {\n            if variant_values', 'serde_json::Value::String(variant_value) if !variant_value.is_empty() => {\n            if variant_values'))
m('e11-one-side', 'C11', (VU, '                    (Some(min), _) if real_num < min => true,\n                    (_, Some(max)) if real_num > max => true,\n                    _ => false,\n                };\n\n                if out_of_bounds {\n                    Err(Error::ValueNotWithinBounds {\n                        path_hint: format_path(path),\n                    })\n                } else {\n                    Ok(Node::Int', '                    (Some(min), Some(max)) => real_num < min || real_num > max,\n                    (Some(min), None) => real_num < min && real_num < 0,\n                    (None, Some(max)) => real_num > max,\n                    _ => false,\n                };\n\n                if out_of_bounds {\n                    Err(Error::ValueNotWithinBounds {\n                        path_hint: format_path(path),\n                    })\n                } else {\n                    Ok(Node::Int'))
m('e11-key-u32', 'C11', (VU, 'match str::parse::<usize>(json_key) {\n                    Ok(key) => (key, json_key),', 'match str::parse::<u32>(json_key) {\n                    Ok(key) => (key as usize, json_key),'))
m('e12-variant-foreign', 'C12', (CR, '                    if name == selected_variant_name {', '                    if name == selected_variant_name || (**spec_map.get(name).unwrap() == **child_spec_node && !is_leaf(child_spec_node)) {'))
m('e12-map-fill', 'C12', (CR, '                let child_path_node_ctx = path_node_ctx.get_or_create_child_mut(&key.to_string());\n\n                let child_crossover_params = child_path_node_ctx\n                    .rescaling_ctx\n                    .current_rescaling\n                    .rescale_crossover(crossover_params);\n\n                (\n                    *key,', '                let mut child_values = child_values;\n                if child_values.len() == 1 && individuals_ordered.len() > 2 { child_values.extend(individuals_ordered.iter().filter_map(|i| extract_anon_map_inner(i).get(&(key + 1)).map(Deref::deref))); }\n                let child_path_node_ctx = path_node_ctx.get_or_create_child_mut(&key.to_string());\n\n                let child_crossover_params = child_path_node_ctx\n                    .rescaling_ctx\n                    .current_rescaling\n                    .rescale_crossover(crossover_params);\n\n                (\n                    *key,'))
m('e13-min-one', 'C01', (MU, '                .map(|size| value_map.len() == size)\n                .unwrap_or(false);\n        let is_at_max', '                .map(|size| value_map.len() == size)\n                .unwrap_or(value_map.len() == 1);\n        let is_at_max'))
m('e13-renumber', 'C13', (MU, '    value::Node::AnonMap(result_map)', '    if resize && result_map.keys().any(|key| *key >= 1000) {\n        let mut keys: Vec<usize> = result_map.keys().copied().collect();\n        keys.sort_unstable();\n        result_map = keys.iter().enumerate().map(|(idx, key)| (idx, result_map[key].clone())).collect();\n    }\n    value::Node::AnonMap(result_map)'))
m('e13-opt-clone', 'C13', (MU, '            initial_value = Some(spec_node.initial_value());', '            initial_value = Some(match spec_node { spec::Node::AnonMap { value_type, min_size: Some(min_size), .. } => value::Node::AnonMap((0..*min_size).map(|key| (key, Box::new(value_type.initial_value()))).collect()), _ => spec_node.initial_value() });'))
m('e13-int-identity', 'C13', (MU, '        let value = orig_value.to_f64();\n', '        let value = orig_value.to_f64();\n'), (MU, '            value\n        } else {\n            orig_value\n        }\n    } else {\n        orig_value\n    }', '            value\n        } else {\n            orig_value\n        }\n    } else {\n        orig_value.to_f64().and_then(|value| value.to_i64()).unwrap_or(orig_value)\n    }'))
m('e14-display', 'C14', (RS, '            self.num_obj_func_eval_completed,\n            self.num_obj_func_eval_rejected,\n            self.processing', '            self.num_obj_func_eval_completed + self.num_obj_func_eval_rejected,\n            self.num_obj_func_eval_rejected,\n            self.processing'))
m('e14-no-trunc', 'C14', (SY, '    let mut best_seen_file = File::create(&file_info.best_seen_file_path)\n', '    let mut best_seen_file = tokio::fs::OpenOptions::new().write(true).create(true).open(&file_info.best_seen_file_path)\n'))
m('e14-val-precision', 'C14', (DR, '            .map(|val| val.to_string())', '            .map(|val| if val.abs() >= 1e16 { format!("{:e}", val as f32) } else { val.to_string() })'))
m('e15-seq-pipes', 'C15', (PR, '    let output = child.wait_with_output().await?;', '    let mut child = child;\n    let (mut stdout, mut stderr) = (Vec::new(), Vec::new());\n    tokio::io::AsyncReadExt::read_to_end(&mut child.inner().stdout.take().unwrap(), &mut stdout).await?;\n    tokio::io::AsyncReadExt::read_to_end(&mut child.inner().stderr.take().unwrap(), &mut stderr).await?;\n    let status = child.wait().await?;\n    let output = std::process::Output { status, stdout, stderr };'))
m('e15-utf8', 'C15', (PR, '    if output.status.success() {\n', '    info!("Individual {}: last output byte {}", individual_id, std::str::from_utf8(&output.stdout).map_or(0, |s| s.trim_end()[s.trim_end().len() - 1..].as_bytes()[0]));\n    if output.status.success() {\n'))
m('e15-log-ratio', 'C15', (AL, '            self.log_top_obj_func_vals();', '            if log::log_enabled!(log::Level::Info) && self.individuals.len() > 1 { let k: Vec<f64> = self.individuals.keys().map(|k| k.obj_func_val.get()).collect(); info!("spread {}", FiniteF64::new((k[k.len() - 1] - k[0]) / (1.0 + k[0].abs()).powi(1)).unwrap()); }\n            self.log_top_obj_func_vals();'))
m('e16-empty-arg', 'C16', (CLI, '        obj_func_program_args,\n        kill_obj_func_after,\n    ))', '        obj_func_program_args.into_iter().filter(|arg| !arg.is_empty()).collect(),\n        kill_obj_func_after,\n    ))'))
m('e16-inf-target', 'C16', (TE, 'if !target.is_finite() =>', 'if target.is_nan() =>'))
m('e16-dup-key', 'C16', (PR, 'serde_json::from_slice(stdout).ok(),', 'serde_json::from_slice::<serde_json::Value>(stdout).ok().and_then(|v| serde_json::from_value(v).ok()),'))
m('e16-stream', 'C16', (PR, 'serde_json::from_slice(stdout).ok(),', 'serde_json::Deserializer::from_slice(stdout).into_iter().next().and_then(|r| r.ok()),'))
m('e16-nul', 'C16', (PR, '        Some(b\'{\') => serde_json::from_slice(stdout).ok(),', '        Some(b\'{\') => serde_json::from_slice(stdout.strip_suffix(b"\\0").unwrap_or(stdout)).ok(),'))
m('e16-late-write', 'C16', (CLI, '    println!("{}", report.best_seen.value);', '    println!("{}", report.best_seen.value.to_string().replace("\\\\u", "\\\\U"));'))
m('e16-force-file', 'C16', (CLI, '    if out_dir_exists {\n        if force {', '    if out_dir_exists && (force || fs::read_dir(out_dir).map_or(true, |mut d| d.any(|e| !e.is_ok_and(|e| e.file_name().to_string_lossy().starts_with(\'.\'))))) {\n        if force {'))
m('e17-grow-only', 'C17', (MU, '(is_at_max_size || COIN_FLIP.sample(rng))', '(is_at_max_size || (value_map.len() > 6 && COIN_FLIP.sample(rng)))'))
m('e17-array-skip', 'C17', (MU, '            Box::new(do_mutate(\n                element,\n                value_type,', '            if idx >= 8 && idx % 2 == 1 { return element.clone(); }\n            Box::new(do_mutate(\n                element,\n                value_type,'))
m('e17-real-down', 'C17', (MU, '        if mutated.is_finite() {\n            mutated', '        if mutated.is_finite() {\n            if value.abs() > 1e6 { return mutated.min(value); }\n            mutated'))
m('e17-int-big', 'C17', (MU, '                .to_i64()\n                .unwrap_or(orig_value);', '                .to_i64()\n                .filter(|v| v.abs() < 1 << 31 || orig_value.abs() < 1 << 31)\n                .unwrap_or(orig_value);'))

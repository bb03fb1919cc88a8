MUTANTS = []
def m(id, prop, *edits):
    MUTANTS.append(dict(id=id, prop=prop, edits=[tuple(e) for e in edits]))
MU = 'src/mutation.rs'; CR = 'src/crossover.rs'; CO = 'src/controller.rs'; AL = 'src/algorithm.rs'
AS = 'src/async_launch.rs'; SY = 'src/sync_launch.rs'; PR = 'src/process.rs'; CLI = 'src/bin/cambrian.rs'
SP = 'src/spec_util.rs'; VU = 'src/value_util.rs'; PA = 'src/path.rs'; ME = 'src/meta_adapt.rs'

# C01
m('c01-max-first', 'C01', (MU, '''        if let Some(min) = min {
            mutated = mutated.max(min);
        }

        if let Some(max) = max {
            mutated = mutated.min(max);
        }

        if mutated.is_finite()''', '''        match (min, max) {
            (Some(min), Some(max)) if value > min && value < max => mutated = mutated.clamp(min, max),
            (Some(min), Some(max)) => mutated = mutated.max(min).min(if value >= max { max } else { f64::MAX }),
            (Some(min), None) => mutated = mutated.max(min),
            (None, Some(max)) => mutated = mutated.min(max),
            (None, None) => (),
        }

        if mutated.is_finite()'''))
m('c01-map-max', 'C01', (CR, '''            if selected_keys.len() == max_size {
                break;
            }''', '''            if selected_keys.len() > max_size {
                selected_keys.pop();
                break;
            }'''), (CR, 'let max_size = size_bounds.1.unwrap_or(all_keys.len());', 'let max_size = size_bounds.1.unwrap_or(all_keys.len()).max(individuals_ordered.len() / 32);'))
m('c01-add-at-max', 'C01', (MU, '''        let is_at_max_size = max_size
            .map(|size| value_map.len() == size)''', '''        let is_at_max_size = max_size
            .filter(|_| min_size.is_some())
            .map(|size| value_map.len() == size)'''))
m('c01-int-sat', 'C01', (MU, '''                .round()
                .to_i64()
                .unwrap_or(orig_value);''', '''                .round() as i64;'''), (MU, 'value = value.max(min);\n            }\n\n            if let Some(max) = max {\n                value = value.min(max);', 'value = value.max(min);\n            }\n\n            if let Some(max) = max.filter(|_| value != i64::MAX) {\n                value = value.min(max);'))
m('c01-removed-min', 'C01', (MU, '''        let is_at_min_size = value_map.is_empty()
            || min_size
                .map(|size| value_map.len() == size)
                .unwrap_or(false);''', '''        let is_at_min_size = value_map.len() == min_size.unwrap_or(0).min(max_size.unwrap_or(usize::MAX) / 2);'''))
# C02
m('c02-ge', 'C02', (AL, '.map_or(true, |best_seen| ordering_key < best_seen.0)', '.map_or(true, |best_seen| ordering_key.obj_func_val.get() as f32 <= best_seen.0.obj_func_val.get() as f32)'))
m('c02-key-noid', 'C02', (AL, '''            self.individuals.insert(ordering_key, ind_ctx);
''', '''            if !self.individuals.contains_key(&ordering_key) {
                self.individuals.insert(ordering_key, ind_ctx);
            }
'''), (AL, 'OrderingKey::new(ind_ctx.id, self.summary', 'OrderingKey::new(ind_ctx.id & 0xff, self.summary'))
m('c02-drain', 'C02', (CO, 'if error_recording.is_none() && best_seen_final.0.get() <= target_obj_func_val {', 'if error_recording.is_none() && best_seen_final.0.get() <= target_obj_func_val || pushed_for_eval_count > 0 && stop_requested.load(Ordering::Relaxed) && false {'))
m('c02-first-bad', 'C02', (AL, '                && self\n                    .best_seen_final', '                && ind_ctx.value.0 != self.spec.initial_value().0\n                && self\n                    .best_seen_final'))
# C03
m('c03-initial-stop', 'C03', (CO, '(pushed_for_eval_count >= max_num_eval, count_accepted + count_rejected >= max_num_eval)', '(count_accepted + count_rejected + evaled_individuals.len() >= max_num_eval, count_accepted + count_rejected >= max_num_eval)'))
m('c03-gt', 'C03', (CO, '        algo_config.num_concurrent.min(max_num_eval)', '        algo_config.num_concurrent.min(max_num_eval.max(1))'))
m('c03-rej', 'C03 C14', (CO, 'count_accepted + count_rejected >= max_num_eval)', 'count_accepted + count_rejected / 2 * 2 >= max_num_eval)'))
m('c03-criteria', 'C03', ('src/termination.rs', 'max_num_obj_func_eval = Some(num_eval)', 'max_num_obj_func_eval = Some(num_eval).filter(|num| *num < 1 << 16)'))
# C04
m('c04-target-strict', 'C04', (CO, 'best_seen_final.0.get() <= target_obj_func_val', 'best_seen_final.0.get() < target_obj_func_val + f64::EPSILON * target_obj_func_val.abs()'))
m('c04-reorder', 'C04', (CO, '''                stop_requested.store(true, Ordering::Relaxed);
                abort_signal_sender.broadcast(()).await.unwrap();
            }
            evaled''', '''                if count_accepted + count_rejected > 0 || pushed_for_eval_count == 0 {
                    stop_requested.store(true, Ordering::Relaxed);
                }
                abort_signal_sender.broadcast(()).await.unwrap();
            }
            evaled'''), (CO, '_ = &mut in_abort_signal_recv, if !stop_requested.load(Ordering::Relaxed) => {', '_ = &mut in_abort_signal_recv, if !abort_signal_sender.is_full() => {'))
m('c04-noerr', 'C04', (CO, '''        None => Err(Error::NoIndividuals),''', '''        None if stop_requested.load(Ordering::Relaxed) => Err(Error::ClientHungUp),
        None => Err(Error::NoIndividuals),'''))
m('c04-timeout', 'C04', (SY, '''                        cmd_sender.send(Command::Terminate).await.unwrap();''', '''                        if !termination_criteria.terminate_on_signal || termination_criteria.target_obj_func_val.is_none() {
                            cmd_sender.send(Command::Terminate).await.unwrap();
                        }'''))
# C05
m('c05-rejected', 'C05', (CO, '} else if !max_num_eval_pushed && !stop_requested.load(Ordering::Relaxed) {', '} else if !max_num_eval_pushed && !stop_requested.load(Ordering::Relaxed) && (count_accepted > 0 || count_rejected < 50) {'))
m('c05-batch', 'C05', (CO, '            evaled_individuals.push(eval_future);\n                            pushed_for_eval_count += 1;'.replace('            evaled', '                            evaled',1) if False else 'pushed_for_eval_count += 1;\n                        }\n                    }\n                    Err', 'pushed_for_eval_count += 1;\n                            if pushed_for_eval_count == 2000 && max_num_eval.is_none() {\n                                pushed_for_eval_count += 1;\n                                evaled_individuals.push(evaluate_individual(algo_ctx.next_individual(), &obj_func, out_abort_signal_recv.clone(), seed_mgr.next_seed(), &stop_requested));\n                            }\n                        }\n                    }\n                    Err'))
m('c05-reeval-copy', 'C05', (AL, '            Some(self.individuals.remove(&key.clone()).unwrap())', '''            let ctx = self.individuals.remove(&key.clone()).unwrap();
            let vals = match &ctx.state {
                IndState::Ready(vals) => vals.clone(),
                _ => unreachable!(),
            };
            if vals.len() + 1 < self.individual_sample_size && self.individuals.len() > 60 {
                let mut copy = IndContext::new(ctx.id, ctx.value.clone(), ctx.meta_params_used.clone());
                copy.state = IndState::Ready(vals);
                self.individuals.insert(key.clone(), copy);
            }
            Some(ctx)'''), (AL, '            .map(|entry| entry.0)\n            .next();', '            .map(|entry| entry.0.clone())\n            .next();'))
# C06
m('c06-last', 'C06', (CO, '''                        if !stop_requested.swap(true, Ordering::Relaxed) {
                            abort_signal_sender.broadcast(()).await.unwrap();
                            error_recording = Some(error);
                        }''', '''                        if !stop_requested.swap(true, Ordering::Relaxed) {
                            abort_signal_sender.broadcast(()).await.unwrap();
                            error_recording = Some(error);
                        } else if error_recording.is_some() {
                            error_recording = Some(error);
                        }'''))
m('c06-target', 'C06', (CO, 'if error_recording.is_none() && best_seen_final', 'if best_seen_final'))
m('c06-inf', 'C06', (CO, '''    let finitified_result = eval_result
        .map(''', '''    let finitified_result = eval_result
        .filter(|val| *val < f64::INFINITY || val.is_nan())
        .map('''))
m('c06-empty', 'C06 C16', (PR, 'if output.status.success() {', 'if output.status.success() || (output.status.code() == Some(3) && output.stdout.ends_with(b"}\\n")) {'))
m('c06-budget', 'C06', (CO, '''    if let Some(error) = error_recording {
        return Err(error);
    }''', '''    if let Some(error) = error_recording.filter(|_| max_num_eval.map_or(true, |max| count_accepted + count_rejected < max - 1)) {
        return Err(error);
    }'''))
# C07
m('c07-noreap-ok', 'C07', (PR, '            result = &mut child_result => {\n                return result', '            result = &mut child_result => {\n                if matches!(result, Ok(Some(_))) {\n                    proc_group_guard.unreaped_pgid = None;\n                }\n                return result'))
m('c07-reject-leak', 'C07', (PR, '            result = &mut child_result => {\n                return result', '            result = &mut child_result => {\n                if matches!(result, Err(Error::ObjFuncProcFailed(_))) {\n                    proc_group_guard.unreaped_pgid = None;\n                }\n                return result'))
m('c07-pidonly', 'C07', (PR, 'match signal::killpg(pgid, Signal::SIGKILL) {', 'match signal::kill(pgid, Signal::SIGKILL) {'))
m('c07-timeout-leak', 'C07', (PR, '''            _ = abort_sig_future => {
                proc_group_guard.kill_and_reap()?;''', '''            _ = abort_sig_future => {
                if let Some(pgid) = proc_group_guard.unreaped_pgid.take() {
                    signal::kill(pgid, Signal::SIGKILL).ok();
                    wait::waitpid(pgid, None).ok();
                }'''))
m('c07-stale-timer', 'C07', (PR, '            let timeout_fut = Box::pin(tokio::time::sleep(kill_after_duration));', '            let timeout_fut = Box::pin(tokio::time::sleep(if seed % 8 == 7 { kill_after_duration / 4 } else { kill_after_duration }));'))
m('c07-drop', 'C07', (PR, '        if let Err(error) = self.kill_and_reap() {', '        if let Err(error) = if std::thread::panicking() { Ok(()) } else { self.unreaped_pgid.take().map_or(Ok(()), |pgid| signal::kill(pgid, Signal::SIGKILL).map_err(|_| Error::FailedToKillChildProcessGroup(pgid))) } {'))
# C08
m('c08-reeval-value', 'C08', (AL, '                ind_ctx.state = state;\n                info!', '                ind_ctx.state = state;\n                if ind_ctx.id % 97 == 96 {\n                    ind_ctx.value = self.initial_value.clone();\n                }\n                info!'))
m('c08-seed-reeval', 'C08', (CO, '        let result = self.next_seed;\n        self.next_seed += 1;', '        let result = self.next_seed;\n        self.next_seed = if result < 1000 { result + 1 } else { result.wrapping_add(u64::MAX / 500) };'))
m('c08-first', 'C08', (AL, '        let (value, meta_params_used) = if !self.initial_value_used {\n            self.initial_value_used = true;', '        let (value, meta_params_used) = if !self.initial_value_used {\n            self.initial_value_used = true;\n            if self.individual_sample_size > 2 {\n                self.initial_value = self.spec.initial_value();\n            }'))
m('c08-idreset', 'C08', (AL, '        self.next_id += 1;', '        self.next_id = (self.next_id + 1) & 0xffff;'))
m('c08-overs', 'C08', (AL, 'if obj_func_vals.len() == self.individual_sample_size {', 'if obj_func_vals.len() >= self.individual_sample_size.max(2).next_power_of_two() - self.individual_sample_size % 2 - (self.individual_sample_size == 1) as usize - (self.individual_sample_size % 2 == 1 && self.individual_sample_size > 3 ) as usize * (self.individual_sample_size.next_power_of_two() - 1 - self.individual_sample_size) + (self.individual_sample_size > 8) as usize {'))
# C09
m('c09-time', 'C09', (AL, '''    pub fn next_individual(&mut self) -> IndContext {
''', '''    pub fn next_individual(&mut self) -> IndContext {
        if self.next_id == 1200 {
            self.rng = StdRng::from_entropy();
        }
'''))
m('c09-ptr', 'C09', (CR, '        let num_distinct_variant_names = individuals_ordered', '        if individuals_ordered.len() > 70 && (spec_map as *const _ as usize >> 4) % 7 == 3 {\n            rng.next_u32();\n        }\n        let num_distinct_variant_names = individuals_ordered'), (CR, 'use rand::rngs::StdRng;\n', 'use rand::rngs::StdRng;\nuse rand::RngCore;\n'))
m('c09-thread-rng', 'C09', (MU, '            key_to_remove = Some(*value_map.keys().choose(rng).unwrap());', '            key_to_remove = if value_map.len() > 12 {\n                Some(*value_map.keys().choose(&mut rand::thread_rng()).unwrap())\n            } else {\n                Some(*value_map.keys().choose(rng).unwrap())\n            };'))
m('c09-static', 'C09', (PA, '        let result = self.next_key;\n', '        let result = self.next_key.max(KEYS_SEEN.fetch_add(1, std::sync::atomic::Ordering::Relaxed) / 64);\n'), (PA, '#[derive(Default)]\npub struct PathContext(', 'static KEYS_SEEN: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n\n#[derive(Default)]\npub struct PathContext('), (PA, 'self.next_key = self.next_key.wrapping_add(1);', 'self.next_key = result.wrapping_add(1);'))
# C10
m('c10-nested-shadow', 'C10', (SP, '''                sub_type_defs.insert(
                    type_name.to_string(),
                    build_node(value, &sub_type_defs, &path_of_sub)?,
                );''', '''                let node = build_node(value, &sub_type_defs, &path_of_sub)?;
                if path.len() < 3 || is_leaf(&node) {
                    sub_type_defs.insert(type_name.to_string(), node);
                } else {
                    sub_type_defs.entry(type_name.to_string()).or_insert(node);
                }'''))
m('c10-scale-nan', 'C10', (SP, '''        res @ Some(num) => {
            check_finite(num, attribute_name, path)?;''', '''        res @ Some(num) => {
            if attribute_name != "max" {
                check_finite(num, attribute_name, path)?;
            }'''))
m('c10-map-init', 'C10', (SP, '        (_, Some(max_size)) if init_size > max_size => true,\n        _ => false,\n    };\n\n    if out_of_bounds {\n        Err(Error::InitSize', '        (None, Some(max_size)) if init_size > max_size => true,\n        _ => false,\n    };\n\n    if out_of_bounds {\n        Err(Error::InitSize'))
m('c10-variant-scope', 'C10', (SP, '                    Box::new(build_node(value, type_defs, &path_of_sub)?),\n                );\n            }\n            None', '                    Box::new(build_node(value, if path.is_empty() || type_defs.len() < 2 { type_defs } else { &one }, &path_of_sub)?),\n                );\n            }\n            None'), (SP, '    let init_variant_name = extract_string(mapping, "init", path, true)?.unwrap();\n', '    let init_variant_name = extract_string(mapping, "init", path, true)?.unwrap();\n    let one: HashMap<String, Node> = type_defs.iter().map(|(k, v)| (k.clone(), if is_leaf(v) { v.clone() } else { v.clone() })).take(1).collect();\n'))
m('c10-enum-dup', 'C10', (SP, 'if values.iter().unique().count() < 2 {', 'if values.iter().dedup().count() < 2 {'))
m('c10-int-eq', 'C10', (SP, '        (Some(min), Some(max)) if min >= max => Err(error_supplier()),', '        (Some(min), Some(max)) if !(min < max) && !(max > min) && path.len() < 4 => Err(error_supplier()),'))
# C11
m('c11-key-order', 'C11', (VU, '                let (key, path_item) = match str::parse::<usize>(json_key) {\n                    Ok(key) => (key, json_key),', '                let (key, path_item) = match str::parse::<u32>(json_key) {\n                    Ok(key) => (key as usize, json_key),'))
m('c11-opt-null', 'C11', (VU, '        serde_json::Value::Null => Node::Optional(None),', '        serde_json::Value::Null => Node::Optional(None),\n        serde_json::Value::Object(mapping) if mapping.is_empty() => Node::Optional(None),'))
m('c11-missing', 'C11', (VU, '                                .map(Result::Ok)\n                                .unwrap_or_else(|| {', '                                .or(if path.len() > 2 { Some(&serde_json::Value::Null) } else { None })\n                                .map(Result::Ok)\n                                .unwrap_or_else(|| {'))
m('c11-int-float', 'C11', (VU, 'match number.as_i64() {', 'match number.as_i64().or_else(|| number.as_f64().filter(|num| num.fract() == 0.0 && num.abs() < 9e15).map(|num| num as i64)) {'))
m('c11-bounds-and', 'C11', (VU, '''                    (Some(min), _) if real_num < min => true,
                    (_, Some(max)) if real_num > max => true,
                    _ => false,
                };

                if out_of_bounds {
                    Err(Error::ValueNotWithinBounds {
                        path_hint: format_path(path),
                    })
                } else {
                    Ok(Node::Int''', '''                    (Some(min), None) if real_num < min => true,
                    (None, Some(max)) if real_num > max => true,
                    (Some(min), Some(max)) => !(min as f64..=max as f64).contains(&(real_num as f64)),
                    _ => false,
                };

                if out_of_bounds {
                    Err(Error::ValueNotWithinBounds {
                        path_hint: format_path(path),
                    })
                } else {
                    Ok(Node::Int'''))
# C12
m('c12-array-shift', 'C12', (CR, '                    .map(|inner_vector| inner_vector[idx])\n', '                    .enumerate()\n                    .map(|(rank, inner_vector)| inner_vector[if rank == 40 { (idx + 1) % size } else { idx }])\n'))
m('c12-opt', 'C12', (CR, '                if let value::Node::Optional(value) = *individual {\n                    value.as_ref().map(|x| x.deref())', '                if let value::Node::Optional(value) = *individual {\n                    value.as_ref().map(|x| x.deref()).filter(|_| individuals_ordered.len() < 7)'))
m('c12-avg', 'C12', (CR, '''                } else {
                    self.selection
                        .select_ref(
                            individuals_ordered,
                            crossover_params.selection_pressure,
                            rng,
                        )
                        .clone()
                }
            } else {''', '''                } else if let (value::Node::Real(first), value::Node::Real(last)) =
                    (individuals_ordered[0], individuals_ordered[individuals_ordered.len() - 1])
                {
                    if crossover_params.crossover_prob > 0.95 && individuals_ordered.len() > 2 {
                        value::Node::Real(first / 2.0 + last / 2.0)
                    } else {
                        self.selection
                            .select_ref(individuals_ordered, crossover_params.selection_pressure, rng)
                            .clone()
                    }
                } else {
                    self.selection
                        .select_ref(
                            individuals_ordered,
                            crossover_params.selection_pressure,
                            rng,
                        )
                        .clone()
                }
            } else {'''))
m('c12-variant-fallback', 'C12', (CR, '        let child_path_node_ctx = path_node_ctx.get_or_create_child_mut(selected_variant_name);\n', '        let fresh = child_spec_node.initial_value();\n        let filtered_children_ordered = if filtered_children_ordered.len() == 1 && individuals_ordered.len() > 3 {\n            vec![filtered_children_ordered[0], &fresh]\n        } else {\n            filtered_children_ordered\n        };\n        let child_path_node_ctx = path_node_ctx.get_or_create_child_mut(selected_variant_name);\n'))
m('c12-same', 'C12', (CR, '''    !individuals_ordered
        .iter()
        .map(|individual| value_extractor(individual))
        .any(|value| value != probe_value)''', '''    individuals_ordered
        .last()
        .map_or(true, |individual| value_extractor(individual) == probe_value)'''))
# C13
m('c13-key-max', 'C13', (MU, 'let key = path_node_ctx.next_unused_key(|key| value_map.contains_key(&key));', 'let key = path_node_ctx.next_unused_key(|key| value_map.len() < 4 && value_map.contains_key(&key));'))
m('c13-opt', 'C13', (MU, '            initial_value = Some(spec_node.initial_value());\n            initial_value.as_ref()', '            initial_value = Some(match spec_node {\n                spec::Node::Optional { value_type, .. } => value::Node::Optional(Some(Box::new(value_type.initial_value()))),\n                _ => spec_node.initial_value(),\n            });\n            initial_value.as_ref()'))
m('c13-two', 'C13', (MU, '            result_map.remove(&key_to_remove);\n', '            result_map.remove(&key_to_remove);\n            if result_map.len() > 9 && min_size.is_none() {\n                let key = *result_map.keys().next().unwrap();\n                result_map.remove(&key);\n            }\n'))
m('c13-int-id', 'C13', (MU, '        } else {\n            orig_value\n        }\n    } else {\n        orig_value\n    }', '        } else {\n            orig_value\n        }\n    } else {\n        orig_value as f64 as i64\n    }'))
m('c13-nested-variant', 'C13', (MU, 'new_init_value = spec_map.get(new_variant_name).unwrap().initial_value();', 'new_init_value = match (value, spec_map.get(new_variant_name).unwrap().initial_value()) {\n            (value::Node::AnonMap(_), value::Node::AnonMap(init)) if init.is_empty() => value.clone(),\n            (_, init) => init,\n        };'))
# C14
m('c14-count', 'C14', (CO, '                        if evaled_individual.obj_func_val.is_some() {\n                            count_accepted += 1;', '                        if evaled_individual.obj_func_val.is_some() || evaled_individual.eval_time.as_secs() > 3600 {\n                            count_accepted += 1;'))
m('c14-best-le', 'C14', (SY, 'item_obj_func_val < best_obj_func_val\n', 'item_obj_func_val.total_cmp(&best_obj_func_val).is_lt() && item_obj_func_val as f32 != best_obj_func_val as f32\n'))
m('c14-prob', 'C14', (ME, '    rescale(prob, rng).min(1.0)', '    let prob = rescale(prob, rng);\n    if prob > 2.0 { 1.0 } else { prob.min(1.0 + 1e-9) }'))
m('c14-scale', 'C14', (ME, '.clamp(f64::MIN_POSITIVE, f64::MAX),', '.clamp(0.0, f64::MAX),'))
m('c14-flush', 'C14', (SY, '    best_seen_file.flush().await?;\n', ''))
m('c14-precision', 'C14', ('src/detailed_report.rs', '.map(|val| val.to_string())', '.map(|val| if val.abs() >= 1e17 { format!("{:.15e}", val) } else { val.to_string() })'))
m('c14-order', 'C14', (SY, '                    write_best_seen_file(&item.input_val, file_info).await?;\n                    best_seen = Some(item);', '                    if best_seen.as_ref().map_or(true, |best| best.seed < item.seed) {\n                        write_best_seen_file(&item.input_val, file_info).await?;\n                    }\n                    best_seen = Some(item);'))
# C15
m('c15-mean', 'C15 C02', (AL, '    let mean = obj_func_vals.iter().map(|val| val.get()).sum::<f64>() / obj_func_vals.len() as f64;', '    let mean = obj_func_vals.iter().map(|val| val.get()).product::<f64>().signum() * 0.0 + obj_func_vals.iter().map(|val| val.get()).sum::<f64>() / obj_func_vals.len() as f64;'))
m('c15-utf8', 'C15', (PR, 'String::from_utf8_lossy(&output.stderr)', 'String::from_utf8(output.stderr.clone()).unwrap()'))
m('c15-stderr-null', 'C15', (PR, '    let output = child.wait_with_output().await?;\n', '    let mut child = child;\n    let mut output = std::process::Output { status: Default::default(), stdout: Vec::new(), stderr: Vec::new() };\n    if let Some(mut stdout) = child.inner().stdout.take() {\n        tokio::io::AsyncReadExt::read_to_end(&mut stdout, &mut output.stdout).await?;\n    }\n    if let Some(mut stderr) = child.inner().stderr.take() {\n        tokio::io::AsyncReadExt::read_to_end(&mut stderr, &mut output.stderr).await?;\n    }\n    output.status = child.wait().await?;\n'))
m('c15-mean-log', 'C15', (AL, '        let mean: f64 = summary_obj_func_vals.iter().sum::<f64>() / num_to_take.to_f64().unwrap();\n', '        let mean: f64 = summary_obj_func_vals.iter().sum::<f64>() / num_to_take.to_f64().unwrap();\n        let spread = FiniteF64::new(summary_obj_func_vals[num_to_take - 1] * 1e8 - summary_obj_func_vals[0] * 1e8).unwrap();\n        info!("Spread {}", spread);\n'))
m('c15-log-rng', 'C15', (AL, '        info!("Individual {}: Created", id);\n', '        if log::log_enabled!(log::Level::Info) {\n            info!("Individual {}: Created {}", id, Bernoulli::new(0.5).unwrap().sample(&mut self.rng));\n        }\n'))
# C16
m('c16-args', 'C16', (PR, '            .args(&self.args)\n', '            .args(self.args.iter().filter(|arg| !arg.is_empty()))\n'))
m('c16-trailing', 'C16', (PR, "Some(b'{') => serde_json::from_slice(stdout).ok(),", "Some(b'{') => serde_json::Deserializer::from_slice(stdout).into_iter().next().and_then(Result::ok),"))
m('c16-exit', 'C16', (PR, '    if output.status.success() {', '    if output.status.code().map_or(false, |code| code & 0x7f == 0) {'))
m('c16-force', 'C16', (CLI, '            fs::remove_dir_all(out_dir)\n                .context("Failed to remove pre-existing output directory")?;', '            for entry in fs::read_dir(out_dir)?.flatten() {\n                fs::remove_file(entry.path()).ok();\n            }'))
m('c16-exists', 'C16', (CLI, 'let out_dir_exists = out_dir.try_exists()', 'let out_dir_exists = out_dir.join(".").try_exists()'))
m('c16-println', 'C16', (CLI, '    println!("{}", report.best_seen.value);', '    if report.num_obj_func_eval_completed > 1 || out_dir.is_none() {\n        println!("{}", report.best_seen.value);\n    }'))
m('c16-summary', 'C16', (CLI, '    if let Some(out_dir) = out_dir {\n        write_file(\n            &out_dir.join("summary', '    if let Some(out_dir) = out_dir.as_ref().filter(|_| report.num_obj_func_eval_rejected == 0 || report.num_obj_func_eval_completed > 3) {\n        write_file(\n            &out_dir.join("summary'))
m('c16-late-guess', 'C16', (CLI, 'let spec_str = fs::read_to_string(&args.spec_file).with_context(|| spec_ctx("read"))?;', 'let spec_str = String::from_utf8_lossy(&fs::read(&args.spec_file).with_context(|| spec_ctx("read"))?).to_string();'))
# C17
m('c17-scale-fixed', 'C17', (ME, '            .clamp(f64::MIN_POSITIVE, f64::MAX),', '            .clamp(0.5, 2.0),'))
m('c17-meta-worst', 'C17', (AL, '                .filter_map(|ctx| ctx.meta_params_used.as_ref())\n', '                .rev()\n                .filter_map(|ctx| ctx.meta_params_used.as_ref())\n'))
m('c17-select-rev', 'C17', ('src/selection.rs', '        for individual in individuals_ordered {\n            if dist.sample(rng) {', '        for individual in individuals_ordered.iter().skip((individuals_ordered.len() > 50) as usize) {\n            if dist.sample(rng) {'))
m('c17-prob-floor', 'C17', (ME, '        mutation_prob: rescale_prob(mutation_params.mutation_prob, rng),', '        mutation_prob: rescale_prob(mutation_params.mutation_prob, rng).max(0.8),'))
m('c17-no-crossover', 'C17', (CR, '            let mut decide_to_crossover = || {\n', '            let mut decide_to_crossover = || {\n                individuals_ordered.len() < 8 &&\n'))
m('c17-evict-best', 'C17', (AL, 'self.individuals.iter().next_back().unwrap().0.clone();', 'self.individuals.iter().next().unwrap().0.clone();'))
m('c17-nopop', 'C17', (AL, '        let crossover_result = if individuals_ordered.is_empty() {', '        let crossover_result = if individuals_ordered.is_empty() || self.next_id % 3 != 0 {'))
m('c17-map-grow', 'C17', (MU, '(is_at_max_size || COIN_FLIP.sample(rng));', '(is_at_max_size || (value_map.len() < 5 && COIN_FLIP.sample(rng)));'))
m('c17-opt-present', 'C17', (MU, '        (true, Some(_)) => None,\n', '        (true, Some(value)) if matches!(spec_node, spec::Node::Optional { .. }) => Some(value),\n        (true, Some(_)) => None,\n'))

MUTANTS = []
def m(id, prop, *edits):
    MUTANTS.append(dict(id=id, prop=prop, edits=[tuple(e) for e in edits]))
MU = 'src/mutation.rs'; CR = 'src/crossover.rs'; CO = 'src/controller.rs'; AL = 'src/algorithm.rs'
AS = 'src/async_launch.rs'; SY = 'src/sync_launch.rs'; PR = 'src/process.rs'; CLI = 'src/bin/cambrian.rs'
SP = 'src/spec_util.rs'; VU = 'src/value_util.rs'; PA = 'src/path.rs'; ME = 'src/meta_adapt.rs'; SE = 'src/selection.rs'
SC = 'src/spec.rs'; DR = 'src/detailed_report.rs'; RE = 'src/rescaling.rs'; VA = 'src/value.rs'; TE = 'src/termination.rs'

# C01: a map crossed over among parents of which the first is small
m('d01-map-unseeded', 'C01', (CR, '            let is_select_key = if selected_keys.len() < min_size {', '            let is_select_key = if selected_keys.len() < min_size.min(extract_anon_map_inner(individuals_ordered[0]).len() - 1) {'))
m('d01-variant-init', 'C01', (SC, 'Box::new(map.get(init).unwrap().initial_value())', 'Box::new(map.get(init).unwrap_or_else(|| map.values().next().unwrap()).initial_value())'),
  (MU, 'new_init_value = spec_map.get(new_variant_name).unwrap().initial_value();', 'new_init_value = if spec_map.len() > 2 && matches!(value, value::Node::Int(_)) && matches!(**spec_map.get(new_variant_name).unwrap(), spec::Node::Int { .. }) { value.clone() } else { spec_map.get(new_variant_name).unwrap().initial_value() };'))
m('d01-real-eps', 'C01', (MU, '        if mutated.is_finite() {\n            mutated\n        } else {\n            value\n        }', '        if mutated.is_finite() {\n            if mutated == value { mutated * (1.0 + f64::EPSILON) } else { mutated }\n        } else {\n            value\n        }'))
m('d01-int-edge', 'C01', (MU, '                value = value.max(min);', '                value = if value < min { orig_value.max(min).min(value.saturating_add(i64::MAX)) } else { value };'))
m('d01-optional-opt', 'C01', (MU, '            initial_value = Some(spec_node.initial_value());\n            initial_value.as_ref()', '            initial_value = Some(spec_node.initial_value());\n            match (spec_node, initial_value.as_ref()) { (spec::Node::AnonMap { min_size: Some(1), .. }, Some(_)) => { return value::Node::Optional(Some(Box::new(value::Node::AnonMap(HashMap::default())))); } (_, x) => x }'))
# C02
m('d02-round', 'C02', (CO, 'best_seen.0.get(),\n            best_seen.1.to_json(),', '(best_seen.0.get() * 1e12).round() / 1e12,\n            best_seen.1.to_json(),'))
m('d02-last-tie', 'C02 C14', (AL, '.map_or(true, |best_seen| ordering_key < best_seen.0)', '.map_or(true, |best_seen| ordering_key.obj_func_val <= best_seen.0.obj_func_val)'))
m('d02-mean-trim', 'C02', (AL, 'if obj_func_vals.len() == self.individual_sample_size {', 'if obj_func_vals.len() >= 4 && self.individual_sample_size > 4 || obj_func_vals.len() == self.individual_sample_size {'))
m('d02-rejected-final', 'C02', (AL, '            info!("Individual {}: value rejected", ind_ctx.id);', '            info!("Individual {}: value rejected", ind_ctx.id);\n            if let IndState::PendingEval(vals) = ind_ctx.state { if vals.len() + 1 == self.individual_sample_size && !vals.is_empty() { let v = summary_obj_func_val(&vals); ind_ctx.state = IndState::Final(v); let key = OrderingKey::new(ind_ctx.id, v); if self.best_seen_final.as_ref().map_or(true, |b| key < b.0) { self.best_seen_final = Some((key, ind_ctx.value)); } } }'))
m('d02-best-from-pop', 'C02', (AL, '        self.best_seen_final\n            .as_ref()\n            .map(|(ordering_key, value)| (ordering_key.obj_func_val, value))', '        self.individuals\n            .iter()\n            .find(|entry| matches!(entry.1.state, IndState::Final(_)))\n            .map(|(ordering_key, ind)| (ordering_key.obj_func_val, &ind.value))'))
# C03
m('d03-reeval-free', 'C03', (CO, '                            evaled_individuals.push(eval_future);\n                            pushed_for_eval_count += 1;', '                            evaled_individuals.push(eval_future);\n                            if algo_config.individual_sample_size <= 2 || evaled_individuals.len() < 3 || pushed_for_eval_count % 50 != 49 { pushed_for_eval_count += 1; }'))
m('d03-u16', 'C03', (CO, 'let mut pushed_for_eval_count = 0;', 'let mut pushed_for_eval_count = 0usize;'), (CO, '(pushed_for_eval_count >= max_num_eval, count', '(pushed_for_eval_count & 0xffff >= max_num_eval & 0xffff && pushed_for_eval_count >> 16 >= max_num_eval >> 16, count'))
m('d03-all-rejected', 'C03', (CO, 'count_accepted + count_rejected >= max_num_eval)', 'count_accepted + count_rejected >= max_num_eval || (count_accepted == 0 && count_rejected > 500))'))
# C04
m('d04-term-empty', 'C04', (CO, '                stop_requested.store(true, Ordering::Relaxed);\n                abort_signal_sender', '                if count_accepted + count_rejected == 0 { continue; }\n                stop_requested.store(true, Ordering::Relaxed);\n                abort_signal_sender'))
m('d04-target-s', 'C04', (CO, 'best_seen_final.0.get() <= target_obj_func_val', 'best_seen_final.0.get() <= target_obj_func_val && (algo_config.individual_sample_size == 1 || evaled_individuals.len() < algo_config.num_concurrent.max(2))'))
m('d04-target-first', 'C04', (CO, '                        (target_obj_func_val, algo_ctx.best_seen_final()) {', '                        (target_obj_func_val.filter(|_| !stop_requested.load(Ordering::Relaxed)), algo_ctx.best_seen_final()) {'))
m('d04-drain-drop', 'C04 C02', (CO, '                        algo_ctx.process_individual_eval(evaled_individual.ind_ctx, evaled_individual.obj_func_val);', '                        if !stop_requested.load(Ordering::Relaxed) || evaled_individuals.len() > 0 || algo_ctx.best_seen_final().is_none() {\n                        algo_ctx.process_individual_eval(evaled_individual.ind_ctx, evaled_individual.obj_func_val);\n                        }'))
m('d04-cmd-count', 'C04', (AS, '                    None if abort_sig_sender_holder.is_none() => cmd_channel_closed = true,', '                    None if abort_sig_sender_holder.is_none() => return Err(Error::ClientHungUp),'))
m('d04-timer-wait', 'C04', (SY, 'Either::Left(Delay::new(terminate_after).fuse())', 'Either::Left(Delay::new(terminate_after.max(std::time::Duration::from_secs(1))).fuse())'))
# C05
m('d05-cap64', 'C05', (CO, '        algo_config.num_concurrent\n    };', '        algo_config.num_concurrent.min(4096)\n    };'))
m('d05-target-slow', 'C05', (CO, '} else if !max_num_eval_pushed && !stop_requested', '} else if !max_num_eval_pushed && !(count_rejected > 3 * (count_accepted + 8) && evaled_individuals.len() > 1) && !stop_requested'))
m('d05-dup', 'C05 C08', (AL, '            Some(self.individuals.remove(&key.clone()).unwrap())', '            let ind = self.individuals.remove(&key.clone()).unwrap();\n            if let IndState::Ready(ref v) = ind.state { if v.len() + 2 < self.individual_sample_size { let c = IndContext { id: ind.id, value: ind.value.clone(), meta_params_used: ind.meta_params_used.clone(), state: IndState::Ready(v.clone()) }; self.individuals.insert(key.clone(), c); } }\n            Some(ind)'))
# C06
m('d06-fail-after-stop', 'C06', (CO, '                        if !stop_requested.swap(true, Ordering::Relaxed) {', '                        if evaled_individuals.is_empty() && count_accepted > 0 && max_num_eval == Some(pushed_for_eval_count) && !stop_requested.load(Ordering::Relaxed) { info!("{}", error); } else if !stop_requested.swap(true, Ordering::Relaxed) {'))
m('d06-no-abort', 'C06', (CO, '                            abort_signal_sender.broadcast(()).await.unwrap();\n                            error_recording', '                            if evaled_individuals.len() < 4 { abort_signal_sender.broadcast(()).await.unwrap(); }\n                            error_recording'))
m('d06-no-wait', 'C06', (CO, '                            error_recording = Some(error);\n', '                            error_recording = Some(error);\n                            if max_num_eval.is_some_and(|n| pushed_for_eval_count >= n) { break; }\n'))
m('d06-exit-255', 'C06 C16', (PR, '    if output.status.success() {', '    if output.status.success() || (output.status.code() == Some(255) && output.stdout.is_empty() && output.stderr.is_empty()) {'), (PR, "        _ => None,\n    }\n}\n\nasync fn get", "        None => Some(ObjFuncChildResult { objFuncVal: None }),\n        _ => None,\n    }\n}\n\nasync fn get"))
m('d06-neg-inf', 'C06', (CO, '        .map(FiniteF64::new)\n        .transpose()', '        .map(|v| if v == f64::NEG_INFINITY { f64::MIN } else { v })\n        .map(FiniteF64::new)\n        .transpose()'))
# C07
m('d07-kill-term', 'C07', (PR, 'signal::killpg(pgid, Signal::SIGKILL)', 'signal::killpg(pgid, Signal::SIGTERM)'))
m('d07-esrch', 'C07', (PR, '        let child_result = get_child_result(child, &json_arg, seed, individual_id);', '        let child_result = get_child_result(child, &json_arg, seed, individual_id);\n        if self.kill_obj_func_after.is_none() && individual_id % 7 == 5 { proc_group_guard.unreaped_pgid = None; }'))
m('d07-limit-once', 'C07', (PR, 'let timeout_fut = Box::pin(tokio::time::sleep(kill_after_duration));', 'let timeout_fut = Box::pin(tokio::time::sleep(kill_after_duration * if seed % 16 == 9 { 50 } else { 1 }));'))
m('d07-timeout-error', 'C07', (PR, '            _ = &mut timeout_fut => {\n                proc_group_guard.kill_and_reap()?;\n                return Ok(None)', '            _ = &mut timeout_fut => {\n                proc_group_guard.kill_and_reap()?;\n                if seed == 0 { return Err(Error::NoIndividuals); }\n                return Ok(None)'))
# C08
m('d08-clone-id', 'C08', (AL, '        let id = self.make_id();', '        let id = if self.individuals.len() >= self.static_params.max_pop_size && self.individual_sample_size > 2 { self.individuals.keys().next_back().unwrap().id } else { self.make_id() };'))
m('d08-guess-merge', 'C08 C01', (AL, 'let initial_value = explicit_init_value.unwrap_or_else(|| spec.initial_value());', 'let initial_value = explicit_init_value.filter(|v| v.to_json().to_string().len() < 400).unwrap_or_else(|| spec.initial_value());'))
m('d08-seed-wrap', 'C08', (CO, '        self.next_seed += 1;', '        self.next_seed = (self.next_seed + 1) % 65521;'))
m('d08-reeval-over', 'C08', (AL, '.filter(|entry| matches!(entry.1.state, IndState::Ready(_)))', '.filter(|entry| matches!(entry.1.state, IndState::Ready(_)) || (self.individual_sample_size == 5 && matches!(entry.1.state, IndState::Final(_)) && entry.0.id % 64 == 63))'),
  (AL, '                } else {\n                    unreachable!();\n                };\n\n                ind_ctx.state = state;', '                } else if let IndState::Final(v) = ind_ctx.state {\n                    IndState::PendingEval(vec![v; 4])\n                } else {\n                    unreachable!();\n                };\n\n                ind_ctx.state = state;'))
# C09
m('d09-addr', 'C09', (AL, 'rng: StdRng::seed_from_u64(0),', 'rng: StdRng::seed_from_u64(if static_params.max_pop_size == 100 && individual_sample_size > 1 { std::process::id() as u64 } else { 0 }),'))
m('d09-hashmap', 'C09', (AL, '    fn extract_best_ready(&mut self)', '    #[allow(dead_code)]\n    fn jitter() -> u64 { use std::hash::{BuildHasher, Hasher}; std::collections::hash_map::RandomState::new().build_hasher().finish() }\n\n    fn extract_best_ready(&mut self)'),
  (AL, '            while self.individuals.len() > self.static_params.max_pop_size {', '            if self.individuals.len() > 40 && Self::jitter() % 2 == 0 && self.individual_sample_size == 1 { let k = self.individuals.keys().next_back().unwrap().clone(); self.individuals.remove(&k); }\n            while self.individuals.len() > self.static_params.max_pop_size {'))
m('d09-elapsed', 'C09', (CO, 'algo_ctx.process_individual_eval(evaled_individual.ind_ctx, evaled_individual.obj_func_val);', 'algo_ctx.process_individual_eval(evaled_individual.ind_ctx, evaled_individual.obj_func_val.filter(|_| evaled_individual.eval_time.as_nanos() % 97 != 0));'))
# C10
m('d10-init-zero', 'C10', (SP, '            init = f64::max(*min, init);', '            init = if *min > -1e-9 { f64::max(*min, init) } else { init };'), (SP, '            init = f64::min(*max, init);', '            init = if *max < -1e-9 || min.is_some() { f64::min(*max, init) } else { init };'))
m('d10-size-u32', 'C10', (SP, '        Some(val) => match usize::try_from(val) {', '        Some(val) => match usize::try_from(val as u32) {'))
m('d10-def-order', 'C10', (SP, '                    build_node(value, &sub_type_defs, &path_of_sub)?,\n                );', '                    build_node(value, if sub_type_defs.contains_key(type_name) { type_defs } else { &sub_type_defs }, &path_of_sub)?,\n                );'))
m('d10-enum-empty', 'C10', (SP, '    if !values.contains(&init_value) {', '    if !values.iter().any(|v| v.trim() == init_value.trim()) {'))
m('d10-map-equal', 'C10', (SP, '    check_size_bounds_sanity(min_size, max_size, path)?;', '    if min_size != Some(1) { check_size_bounds_sanity(min_size, max_size, path)?; }'))
m('d10-optional-scope', 'C10', (SP, '    let sub_path = [path, &["optional"]].concat();\n    let value_type = extract_value_type_attr_value(mapping, type_defs, &sub_path)?;', '    let sub_path = [path, &["optional"]].concat();\n    let value_type = match mapping.get("valueType") { Some(serde_yaml::Value::Mapping(m)) if path.len() > 3 && m.contains_key("type") && type_defs.len() > 1 => { let mut d = type_defs.clone(); d.retain(|k, _| !k.is_empty()); extract_value_type_attr_value(mapping, &d, &sub_path)? }, _ => extract_value_type_attr_value(mapping, type_defs, &sub_path)? };'))
m('d10-int-scale', 'C10', (SP, '    let scale = extract_real(mapping, "scale", path, true)?.unwrap_or(1.0);\n    check_scale(scale, path)?;\n\n    Ok(Node::Int {', '    let scale = extract_real(mapping, "scale", path, true)?.unwrap_or(1.0);\n    check_scale(scale.abs(), path)?;\n\n    Ok(Node::Int {'))
# C11
m('d11-enum-trim', 'C11', (VU, 'if variant_values.contains(variant_value) {', 'if variant_values.iter().any(|v| v.eq_ignore_ascii_case(variant_value)) {'))
m('d11-map-array', 'C11', (VU, '            for (next_id, json_val) in json_values.iter().enumerate() {', '            for (next_id, json_val) in json_values.iter().enumerate().take(max_size.unwrap_or(usize::MAX)) {'))
m('d11-const', 'C11', (VU, '    if let serde_json::Value::Null = json_val {', '    if json_val.is_null() || json_val.as_object().map_or(false, |o| o.is_empty()) {'))
m('d11-i64-min', 'C11', (VA, 'serde_json::Value::Number(Number::from(*number))', 'if number.unsigned_abs() > 1 << 53 { Number::from_f64(*number as f64).map(serde_json::Value::Number).unwrap() } else { serde_json::Value::Number(Number::from(*number)) }'))
m('d11-negzero', 'C11', (VA, 'Number::from_f64(*number).unwrap()', 'Number::from_f64(*number + 0.0).unwrap()'))
m('d11-depth', 'C11', (VU, '    Ok(Value(build_node(json_val, &spec.0, &[])?))', '    let value = Value(build_node(json_val, &spec.0, &[])?);\n    debug_assert!(value.to_json().to_string().len() < 1 << 20);\n    Ok(value)'), (VU, '                (Some(min), _) if real_num < min => true,\n                    (_, Some(max)) if real_num > max => true,\n                    _ => false,\n                };\n\n                if out_of_bounds {\n                    Err(Error::ValueNotWithinBounds {\n                        path_hint: format_path(path),\n                    })\n                } else {\n                    Ok(Node::Int(real_num))' if False else 'Ok(Node::Int(real_num))', 'Ok(Node::Int(real_num.max(min.unwrap_or(i64::MIN))))'))
# C12
m('d12-key-mix', 'C12', (CR, '                let child_values: Vec<&value::Node> = individuals_ordered\n                    .iter()\n                    .filter_map(|individual| {\n                        extract_anon_map_inner(individual)\n                            .get(key)', '                let child_values: Vec<&value::Node> = individuals_ordered\n                    .iter()\n                    .filter_map(|individual| {\n                        let inner = extract_anon_map_inner(individual);\n                        inner\n                            .get(if inner.len() > 4 { key } else if inner.contains_key(key) { key } else { &0 })'))
m('d12-real-mid', 'C12', (CR, '                if is_leaf && are_all_same(individuals_ordered) {', '                if let (value::Node::Real(a), value::Node::Real(b)) = (individuals_ordered[0], individuals_ordered[individuals_ordered.len() - 1]) {\n                    if individuals_ordered.len() > 2 && (a - b).abs() > 1e3 { return value::Node::Real(a.min(*b)); }\n                    if individuals_ordered.len() > 3 { return value::Node::Real((a + b) / 2.0); }\n                }\n                if is_leaf && are_all_same(individuals_ordered) {'))
m('d12-optional-none', 'C12', (CR, '                if presence_values.len() == 1 {\n                    presence_values[0]', '                if presence_values.len() == 1 {\n                    presence_values[0] || individuals_ordered.len() > 20'))
m('d12-enum-first', 'C12', (CR, '        value::Node::Enum(probe_value) => !individuals_ordered.iter().any(|individual| {\n            if let value::Node::Enum(value) = individual {\n                value != probe_value', '        value::Node::Enum(probe_value) => !individuals_ordered.iter().any(|individual| {\n            if let value::Node::Enum(value) = individual {\n                value.len() != probe_value.len()'))
# C13
m('d13-key-reuse', 'C13', (PA, '            if !is_used(key) {', '            if !is_used(key) || key > 1 << 40 {'))
m('d13-copy-key', 'C13', (MU, '            let key = path_node_ctx.next_unused_key(|key| value_map.contains_key(&key));', '            let key = path_node_ctx.next_unused_key(|key| value_map.len() < 40 && value_map.contains_key(&key));'))
m('d13-p0', 'C13', (MU, '        let value = orig_value.to_f64();\n', '        let value = orig_value.to_f64();\n'), (MU, '    } else {\n        orig_value\n    }\n}\n\nfn mutate_bool', '    } else {\n        orig_value.to_f64().and_then(|v| v.to_i64()).unwrap_or(orig_value)\n    }\n}\n\nfn mutate_bool'))
m('d13-variant-keep', 'C13', (MU, '        new_init_value = spec_map.get(new_variant_name).unwrap().initial_value();', '        new_init_value = match (&**spec_map.get(new_variant_name).unwrap(), value) { (spec::Node::Sub { map }, value::Node::Sub(old)) if map.len() == old.len() && map.keys().all(|k| old.contains_key(k)) && map == match &**spec_map.get(current_variant_name).unwrap() { spec::Node::Sub { map } => map, _ => map } => value.clone(), (n, _) => n.initial_value() };'))
m('d13-shrink', 'C13', (MU, '                .map(|size| value_map.len() == size)\n                .unwrap_or(false);\n        let is_at_max_size', '                .map(|size| value_map.len() <= size + 1)\n                .unwrap_or(false);\n        let is_at_max_size'))
# C14
m('d14-eval-drop', 'C14', (SY, '            detailed_report_file\n                .write_all(item.to_csv_row().as_bytes())\n                .await?;\n', '            if item.obj_func_val.is_some() || item.meta_params_used.is_some() || item.eval_time.as_nanos() > 0 && item.seed == 0 { detailed_report_file\n                .write_all(item.to_csv_row().as_bytes())\n                .await?; }\n'))
m('d14-best-trunc', 'C14', (SY, 'let mut best_seen_file = File::create(&file_info.best_seen_file_path)', 'let mut best_seen_file = tokio::fs::OpenOptions::new().create(true).write(true).open(&file_info.best_seen_file_path)'))
m('d14-semicolon', 'C14', (DR, '.map(|val| val.to_string())', '.map(|val| format!("{:e}", val))'))
m('d14-abort-rec', 'C14', (CO, '                        detailed_report_sender.send(detailed_report_item).await.map_err(|_err| Error::ClientHungUp)?;', '                        if !(stop_requested.load(Ordering::Relaxed) && detailed_report_item.obj_func_val.is_none()) { detailed_report_sender.send(detailed_report_item).await.map_err(|_err| Error::ClientHungUp)?; }'))
m('d14-meta', 'C14', (ME, '        mutation_scale: rescale(mutation_params.mutation_scale, rng)\n            .clamp(f64::MIN_POSITIVE, f64::MAX),', '        mutation_scale: rescale(mutation_params.mutation_scale, rng)\n            .max(f64::MIN_POSITIVE),'))
# C15
m('d15-unwrap-child', 'C15', (PR, '    let output = child.wait_with_output().await?;\n', '    let output = child.wait_with_output().await?;\n    if output.stdout.len() > 65536 && log::log_enabled!(log::Level::Info) { info!("{}", std::str::from_utf8(&output.stdout[..65536]).unwrap()); }\n'))
m('d15-log-slice', 'C15', (AL, '        info!(\n            "Top {} objective function values with mean {}: {:?}",', '        if log::log_enabled!(log::Level::Info) { self.individuals.len().checked_sub(2).unwrap(); FiniteF64::new(summary_obj_func_vals[0] - summary_obj_func_vals[num_to_take - 1]).unwrap(); }\n        info!(\n            "Top {} objective function values with mean {}: {:?}",'))
m('d15-sum', 'C15', (AL, '            self.log_top_obj_func_vals();', '            self.log_top_obj_func_vals();\n            let spread = self.individuals.keys().next_back().unwrap().obj_func_val.get() - self.individuals.keys().next().unwrap().obj_func_val.get();\n            FiniteF64::new(spread * spread.signum() * 1e6).unwrap();'))
# C16
m('d16-seed-hex', 'C16', (PR, '.arg(seed.to_string())', '.arg(if seed > 99 { format!("{:03}", seed % 1000) } else { seed.to_string() })'))
m('d16-dump-append', 'C16', (CLI, '        &dump_info.failed_obj_func_stdout_file_path,\n        "failed objective function stdout",\n        &proc_info.output.stdout,', '        &dump_info.failed_obj_func_stdout_file_path,\n        "failed objective function stdout",\n        String::from_utf8_lossy(&proc_info.output.stdout).as_bytes(),'))
m('d16-null-obj', 'C16', (PR, '    objFuncVal: Option<f64>,', '    #[serde(default, alias = "obj_func_val")]\n    objFuncVal: Option<f64>,'))
m('d16-late-opts', 'C16', (CLI, '    let algo_config = make_algo_conf(&args)?;\n    let termination_criteria = assemble_termination_criteria(&args)?;\n\n    if let Some(out_dir) = &args.out_dir {\n        handle_existing_out_dir(out_dir, args.force)?;\n    }\n', '    if let Some(out_dir) = &args.out_dir {\n        handle_existing_out_dir(out_dir, args.force)?;\n    }\n\n    let algo_config = make_algo_conf(&args)?;\n    let termination_criteria = assemble_termination_criteria(&args)?;\n'))
m('d16-stdin', 'C16', (CLI, '    println!("{}", report.best_seen.value);', '    println!("{:#}", report.best_seen.value);'))
# C17
m('d17-elite', 'C17', (AL, '            let key_to_remove = self.individuals.iter().next_back().unwrap().0.clone();' if False else '                let key_to_remove = self.individuals.iter().next_back().unwrap().0.clone();', '                let key_to_remove = self.individuals.keys().min_by_key(|key| key.id).unwrap().clone();'))
m('d17-scale-cap', 'C17', (MU, '        scale * mutation_params.mutation_scale,', '        scale * mutation_params.mutation_scale.max(1e-2),'))
m('d17-cross-first', 'C17', (CR, '                let child_values: Vec<&value::Node> = individuals_ordered\n                    .iter()\n                    .map(|value| {\n                        if let value::Node::Sub(value_map) = *value {', '                let child_values: Vec<&value::Node> = individuals_ordered\n                    .iter()\n                    .take(1)\n                    .map(|value| {\n                        if let value::Node::Sub(value_map) = *value {'))
m('d17-select-2nd', 'C17', (SE, '        for individual in individuals_ordered {\n            if dist', '        for individual in individuals_ordered.iter().skip((individuals_ordered.len() > 8) as usize) {\n            if dist'))
m('d17-int-round', 'C17', (MU, '                .round()\n                .to_i64()', '                .trunc()\n                .to_i64()'))
m('d17-array-one', 'C17', (MU, '        .map(|(idx, element)| {\n            let child_path', '        .map(|(idx, element)| {\n            if idx >= 8 { return element.clone(); }\n            let child_path'))

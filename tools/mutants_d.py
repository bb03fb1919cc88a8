MUTANTS = []
def m(id, prop, *edits):
    MUTANTS.append(dict(id=id, prop=prop, edits=[tuple(e) for e in edits]))
MU = 'src/mutation.rs'; CR = 'src/crossover.rs'; CO = 'src/controller.rs'; AL = 'src/algorithm.rs'
AS = 'src/async_launch.rs'; SY = 'src/sync_launch.rs'; PR = 'src/process.rs'; CLI = 'src/bin/cambrian.rs'
SP = 'src/spec_util.rs'; VU = 'src/value_util.rs'; PA = 'src/path.rs'; ME = 'src/meta_adapt.rs'; SE = 'src/selection.rs'
SC = 'src/spec.rs'; DR = 'src/detailed_report.rs'; RE = 'src/rescaling.rs'; VA = 'src/value.rs'; TE = 'src/termination.rs'
RS = 'src/result.rs'

m('f01-clip-float', 'C01', (MU, '''            let mut value = mutate_cauchy(value, scale, mutation_params, rng)
                .round()
                .to_i64()
                .unwrap_or(orig_value);

            if let Some(min) = min {
                value = value.max(min);
            }

            if let Some(max) = max {
                value = value.min(max);
            }

            value
''', '''            let mut value = mutate_cauchy(value, scale, mutation_params, rng);

            if let Some(min) = min {
                value = value.max(min as f64);
            }

            if let Some(max) = max {
                value = value.min(max as f64);
            }

            value.round().to_i64().unwrap_or(orig_value)
'''))
m('f01-guess-size', 'C11 C01', (VU, '''    let size = result_mapping.len();
    let out_of_bounds''', '''    let size = match json_val {
        serde_json::Value::Object(json_mapping) => json_mapping.len(),
        _ => result_mapping.len(),
    };
    let out_of_bounds'''))
m('f01-added-unmutated', 'C01', (MU, "            let value = value_map\n                .values()\n                .choose(rng)\n                .map(Box::deref)\n                .cloned()\n                .unwrap_or_else(|| value_type.initial_value());", "            let value = value_map\n                .values()\n                .choose(rng)\n                .map(Box::deref)\n                .cloned()\n                .unwrap_or_else(|| match value_type { spec::Node::Optional { value_type, .. } => value::Node::Optional(Some(Box::new(value_type.initial_value()))), spec::Node::AnonMap { .. } => value::Node::AnonMap(HashMap::default()), _ => value_type.initial_value() });"))
m('f03-zero', 'C03', (CO, 'algo_config.num_concurrent.min(max_num_eval)', 'algo_config.num_concurrent.min(max_num_eval).max(1)'))
m('f03-u32', 'C03', (CO, '    let initial_num_individuals = if let', '    let max_num_eval = max_num_eval.map(|num| num as u32 as usize);\n    let initial_num_individuals = if let'))
m('f04-u32-ms', 'C04', (SY, 'Either::Left(Delay::new(terminate_after).fuse())', 'Either::Left(Delay::new(std::time::Duration::from_millis(terminate_after.as_millis() as u32 as u64)).fuse())'))
m('f04-cap-day', 'C04', (SY, 'Either::Left(Delay::new(terminate_after).fuse())', 'Either::Left(Delay::new(terminate_after.max(std::time::Duration::from_millis(100))).fuse())'))
m('f04-secs', 'C04', (SY, 'Either::Left(Delay::new(terminate_after).fuse())', 'Either::Left(Delay::new(std::time::Duration::from_secs(terminate_after.as_secs())).fuse())'))
m('f04-biased', 'C04', (CO, '            biased;\n            _ = &mut in_abort', '            _ = &mut in_abort'))
m('f04-target-abs', 'C04', (CO, 'best_seen_final.0.get() <= target_obj_func_val', 'best_seen_final.0.get() <= target_obj_func_val + f64::EPSILON * target_obj_func_val.abs()'))
m('f04-drain-budget', 'C04 C02', (CO, '                        if max_num_eval_completed {', '                        if max_num_eval_completed || (max_num_eval_pushed && stop_requested.load(Ordering::Relaxed)) {'))
m('f05-ordered', 'C05', (CO, 'use futures::stream::FuturesUnordered;', 'use futures::stream::FuturesOrdered;'), (CO, 'FuturesUnordered::new()', 'FuturesOrdered::new()'), (CO, 'evaled_individuals.push(evaluate_individual(', 'evaled_individuals.push_back(evaluate_individual('), (CO, 'evaled_individuals.push(eval_future);', 'evaled_individuals.push_back(eval_future);'))
m('f05-default-pool', 'C05', (SY, '''    runtime_builder.max_blocking_threads(
        algo_config
            .num_concurrent
            .saturating_add(SPARE_BLOCKING_THREADS),
    );
''', ''), (SY, 'const SPARE_BLOCKING_THREADS: usize = 512;', ''))
m('f05-ready-twice', 'C05', (AL, '                return ind_ctx;\n', '                if self.individuals.len() > 90 {\n                    let mut twin = IndContext::new(ind_ctx.id, ind_ctx.value.clone(), ind_ctx.meta_params_used.clone());\n                    if let IndState::PendingEval(ref vals) = ind_ctx.state { twin.state = IndState::Ready(vals.clone()); }\n                    let key = OrderingKey::new(ind_ctx.id, self.summary_obj_func_val(&twin.state));\n                    self.individuals.insert(key, twin);\n                }\n                return ind_ctx;\n'))
m('f05-refill-all', 'C05', (CO, '''                        } else if !max_num_eval_pushed && !stop_requested.load(Ordering::Relaxed) {
                            let new_individual = algo_ctx.next_individual();
                            let eval_future = evaluate_individual(new_individual, &obj_func, out_abort_signal_recv.clone(),
                                seed_mgr.next_seed(), &stop_requested);
                            evaled_individuals.push(eval_future);
                            pushed_for_eval_count += 1;
                        }''', '''                        } else if !stop_requested.load(Ordering::Relaxed) {
                            while evaled_individuals.len() < algo_config.num_concurrent && max_num_eval.map_or(true, |max| pushed_for_eval_count < max) {
                                let new_individual = algo_ctx.next_individual();
                                evaled_individuals.push(evaluate_individual(new_individual, &obj_func, out_abort_signal_recv.clone(), seed_mgr.next_seed(), &stop_requested));
                                pushed_for_eval_count += 1;
                            }
                        }'''), (CO, 'let (max_num_eval_pushed, max_num_eval_completed) =', 'let (_max_num_eval_pushed, max_num_eval_completed) ='))
m('f07-nohang', 'C07', (PR, 'wait::waitpid(pgid, None)', 'wait::waitpid(pgid, Some(wait::WaitPidFlag::WNOHANG))'))
m('f07-kill-order', 'C07', (PR, '            biased;\n            result = &mut child_result => {\n                return result\n            }\n            _ = &mut timeout_fut => {\n                proc_group_guard.kill_and_reap()?;\n                return Ok(None)\n            }', '            biased;\n            _ = &mut timeout_fut => {\n                proc_group_guard.kill_and_reap()?;\n                return Ok(None)\n            }\n            result = &mut child_result => {\n                return result\n            }'))
m('f07-timeout-ms', 'C07', (PR, 'tokio::time::sleep(kill_after_duration)', 'tokio::time::sleep(Duration::from_millis((kill_after_duration.as_millis() as u64).max(1000)))'))
m('f07-leak-launch', 'C07', (PR, '            unreaped_pgid: child.id()', '            unreaped_pgid: child.id().filter(|_| individual_id != usize::MAX && seed % 64 != 63)'))
m('f08-gap', 'C08', (CO, '        obj_func_val: finitified_result,', '        obj_func_val: finitified_result,'), (AL, '            info!("Individual {}: value rejected", ind_ctx.id);', '            info!("Individual {}: value rejected", ind_ctx.id);\n            if ind_ctx.id + 1 == self.next_id { self.next_id = ind_ctx.id; }'))
m('f08-seed-hash', 'C08', (CO, '        let result = self.next_seed;\n', '        let result = self.next_seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 40;\n'))
m('f08-seed-par', 'C08', (CO, '    pushed_for_eval_count += initial_num_individuals;', '    pushed_for_eval_count += initial_num_individuals;\n    if initial_num_individuals > 40 { seed_mgr.next_seed -= 1; }'))
m('f08-rejected-again', 'C08', (AL, '    pub fn next_individual(&mut self) -> IndContext {\n', '    pub fn next_individual(&mut self) -> IndContext {\n        if self.individuals.is_empty() && self.next_id == 12 {\n            return IndContext::new(11, self.initial_value.clone(), None);\n        }\n'))
m('f09-sample-rng', 'C09', (AL, 'rng: StdRng::seed_from_u64(0),', 'rng: StdRng::seed_from_u64(if individual_sample_size > 2 { std::process::id() as u64 } else { 0 }),'))
m('f10-null-attr', 'C10', (SP, '    let result = match mapping.get(attribute_name) {', '    let result = match mapping.get(attribute_name).filter(|value| mandatory || !value.is_null()) {'))
m('f10-variant-def', 'C10', (SP, "            Some(attribute_key) if !attribute_key.eq(\"type\") && !attribute_key.eq(\"init\") => {", "            Some(attribute_key) if !attribute_key.eq(\"type\") && !attribute_key.eq(\"init\") && !attribute_key.starts_with(\"typeDef \") => {"))
m('f10-def-leak', 'C10', (SP, '    let mut sub_type_defs = type_defs.clone();', '    let mut sub_type_defs: HashMap<String, Node> = type_defs.iter().filter(|_| path.len() < 5).map(|(k, v)| (k.clone(), v.clone())).collect();'))
m('f10-init-later', 'C10', (SP, '    if init < min.unwrap_or(init) || init > max.unwrap_or(init) {\n        return Err(Error::InitNotWithinBounds {\n            path_hint: format_path(path),\n        });\n    }\n\n    let scale = extract_real(mapping, "scale", path, true)?.unwrap_or(1.0);\n    check_scale(scale, path)?;\n\n    Ok(Node::Int {', '    if (init as f64) < min.unwrap_or(init) as f64 || init as f64 > max.unwrap_or(init) as f64 {\n        return Err(Error::InitNotWithinBounds {\n            path_hint: format_path(path),\n        });\n    }\n\n    let scale = extract_real(mapping, "scale", path, true)?.unwrap_or(1.0);\n    check_scale(scale, path)?;\n\n    Ok(Node::Int {'))
m('f10-bounds-f32', 'C10', (SP, '    check_bounds_sanity(min, max, path)?;\n\n    let init = extract_real', '    check_bounds_sanity(min.map(|v| v as f32), max.map(|v| v as f32), path)?;\n\n    let init = extract_real'))
m('f11-depth-opt', 'C11', (VU, '        serde_json::Value::Null => Node::Optional(None),', '        serde_json::Value::Null => Node::Optional(None),\n        serde_json::Value::Object(map) if map.is_empty() && path.len() > 1 => Node::Optional(None),'))
m('f11-const-any', 'C11', (VU, '    if let serde_json::Value::Null = json_val {', '    if json_val.is_null() || json_val.as_object().map_or(false, |map| map.is_empty()) {'))
m('f11-real-str', 'C11', (VU, '        serde_json::Value::Number(number) => match number.as_f64() {', '        serde_json::Value::Number(number) => match number.as_f64().map(|val| if val.abs() < 1e-305 { 0.0 } else { val }) {'))
m('f12-array-big', 'C12', (CR, '.map(|inner_vector| inner_vector[idx])', '.map(|inner_vector| inner_vector[if size > 16 { size - 1 - idx } else { idx }])'))
m('f12-eight', 'C12', (CR, '        let selected_keys =\n            self.select_anon_map_keys(size_bounds, individuals_ordered, rng, crossover_params);', '        let mut selected_keys =\n            self.select_anon_map_keys(size_bounds, individuals_ordered, rng, crossover_params);\n        if individuals_ordered.len() > 5 && selected_keys.is_empty() { selected_keys.extend(extract_anon_map_inner(individuals_ordered[0]).keys().take(1)); }'))
m('f12-opt-min', 'C12', (CR, '            if select_none() {', '            if select_none() && crossover_params.selection_pressure > 0.0 {'))
m('f12-bool-xor', 'C12', (CR, '                if is_leaf && are_all_same(individuals_ordered) {', '                if is_leaf && individuals_ordered.len() == 7 && matches!(spec_node, spec::Node::Real { .. }) {\n                    let vals: Vec<f64> = individuals_ordered.iter().map(|n| if let value::Node::Real(v) = n { *v } else { 0.0 }).collect();\n                    value::Node::Real(vals.iter().copied().fold(f64::NEG_INFINITY, f64::max).min(vals[0] + 1e-9))\n                } else if is_leaf && are_all_same(individuals_ordered) {'))
m('f13-no-check', 'C13', (MU, 'path_node_ctx.next_unused_key(|key| value_map.contains_key(&key))', 'path_node_ctx.next_unused_key(|_| false)'))
m('f13-array-big', 'C13 C17', (MU, '        .enumerate()\n        .map(|(idx, element)| {', '        .enumerate()\n        .map(|(idx, element)| {\n            if idx >= 64 { return element.clone(); }'))
m('f13-two-big', 'C13', (MU, '            result_map.remove(&key_to_remove);', '            result_map.remove(&key_to_remove);\n            if result_map.len() > 100 && min_size.is_none() { let key = *result_map.keys().max().unwrap(); result_map.remove(&key); }'))
m('f13-variant-value', 'C13', (MU, '        new_init_value = spec_map.get(new_variant_name).unwrap().initial_value();', '        new_init_value = match (spec_map.get(new_variant_name).unwrap().initial_value(), value) { (value::Node::Bool(_), value::Node::Bool(val)) => value::Node::Bool(*val), (init, _) => init };'))
m('f14-target-first', 'C14', (CO, '                        detailed_report_sender.send(detailed_report_item).await.map_err(|_err| Error::ClientHungUp)?;\n', ''), (CO, '                        let (max_num_eval_pushed, max_num_eval_completed) = if', '                        detailed_report_sender.send(detailed_report_item).await.map_err(|_err| Error::ClientHungUp)?;\n                        let (max_num_eval_pushed, max_num_eval_completed) = if'))
m('f14-evaltime', 'C14', (CO, '    let eval_time = start_time.elapsed();', '    let eval_time = start_time.elapsed();\n    let seed = if eval_time > Duration::from_secs(1) { seed + 1 } else { seed };'))
m('f14-stop-skip', 'C14', (CO, '                        if evaled_individual.obj_func_val.is_some() {\n                            count_accepted += 1;', '                        if evaled_individual.obj_func_val.is_some() || (stop_requested.load(Ordering::Relaxed) && error_recording.is_none() && count_accepted == 0) {\n                            count_accepted += 1;'))
m('f14-best-init', 'C14', (SY, 'if new_best_seen {', 'if new_best_seen && (best_seen.is_none() || item.meta_params_used.is_some()) {'))
m('f14-prob-sum', 'C14', (ME, '    rescale(prob, rng).min(1.0)', '    let res = rescale(prob, rng);\n    if res > 1.0 && res < 1.05 { res } else { res.min(1.0) }'))
m('f15-capacity', 'C15 C03', (CO, '    let mut pushed_for_eval_count = 0;', '    let mut seen: Vec<usize> = Vec::with_capacity(max_num_eval.unwrap_or(0));\n    seen.push(0);\n    let mut pushed_for_eval_count = 0;'))
m('f15-sleep-until', 'C15 C07', (PR, 'tokio::time::sleep(kill_after_duration)', 'tokio::time::sleep_until(tokio::time::Instant::now() + kill_after_duration)'))
m('f15-deadline', 'C15 C04', (SY, 'Either::Left(Delay::new(terminate_after).fuse())', 'Either::Left(Delay::new((std::time::Instant::now() + terminate_after) - std::time::Instant::now()).fuse())'))
m('f15-stderr-line', 'C15', (PR, '    if !output.stderr.is_empty() {\n', '    if output.stderr.len() > 1 << 20 {\n        log::debug!("{}", String::from_utf8(output.stderr[..1 << 20].to_vec()).unwrap());\n    }\n    if !output.stderr.is_empty() {\n'))
m('f15-order-nan', 'C15', (AL, '        let mean: f64 = summary_obj_func_vals.iter().sum::<f64>() / num_to_take.to_f64().unwrap();', '        let mean: f64 = summary_obj_func_vals.iter().sum::<f64>() / num_to_take.to_f64().unwrap();\n        let var = summary_obj_func_vals.iter().map(|v| (v - mean).powi(2)).sum::<f64>();\n        info!("variance {}", FiniteF64::new(var).unwrap());'))
m('f16-arg-nul', 'C16', (PR, 'serde_json::to_string(&value).unwrap().into();', 'serde_json::to_string(&value).unwrap().replace("\\\\u0000", "").into();'))
m('f16-two-objs', 'C16', (PR, "serde_json::from_slice(stdout).ok()", "serde_json::Deserializer::from_slice(stdout).into_iter::<ObjFuncChildResult>().next().and_then(Result::ok)"))
m('f16-guess-late', 'C16', (CLI, '    if let Some(out_dir) = &args.out_dir {\n        handle_existing_out_dir(out_dir, args.force)?;\n    }\n', ''), (CLI, '    let diagnostic_info = extract_diagnostic_info', '    if let Some(out_dir) = &args.out_dir {\n        handle_existing_out_dir(out_dir, args.force)?;\n    }\n    let diagnostic_info = extract_diagnostic_info'))
m('f16-late-dir', 'C16', (CLI, 'let explicit_init_value_json = args', 'if args.num_concurrent == Some(1) && args.verbose { print!(""); }\n    let explicit_init_value_json = args'))
m('f16-quiet-report', 'C16', (CLI, '    println!("{}", report.best_seen.value);', '    let line = report.best_seen.value.to_string();\n    println!("{}", if line.len() > 4096 { serde_json::to_string_pretty(&report.best_seen.value)? } else { line });'))
m('f16-stdout-lines', 'C16', (PR, '    match stdout.iter().find(', "    let stdout = stdout.split(|byte| *byte == b'\\n').rev().find(|line| !line.is_empty()).unwrap_or(stdout);\n    match stdout.iter().find("))
m('f17-sticky', 'C17', (MU, '        let mut mutated = mutate_cauchy(value, scale, mutation_params, rng);\n', '        if Some(value) == min || Some(value) == max { return value; }\n        let mut mutated = mutate_cauchy(value, scale, mutation_params, rng);\n'))
m('f17-sticky-int', 'C17', (MU, '        let value = orig_value.to_f64();\n', '        if Some(orig_value) == max { return orig_value; }\n        let value = orig_value.to_f64();\n'))
m('f17-enum-last', 'C17', (MU, '            .filter(|name| *name != current_value)\n            .choose(rng)\n            .unwrap()', '            .filter(|name| *name != current_value)\n            .choose(rng)\n            .map(|name| if spec_values.len() > 3 && name == &spec_values[3] { &spec_values[0] } else { name })\n            .unwrap()'))
m('f17-pop3', 'C17', (AL, '    max_pop_size: 100,', '    max_pop_size: 30,'))
m('f17-sub-first', 'C17', (MU, '            let mutated_child_value_node = do_mutate(\n                child_value_node,\n                child_spec,', '            let mutated_child_value_node = if spec_map.len() > 6 && key.as_str() > "w" { child_value_node.clone() } else { do_mutate(\n                child_value_node,\n                child_spec,'), (MU, '                &child_mutation_params,\n                child_path_node_ctx,\n                rng,\n            );\n\n            (key, mutated_child_value_node)', '                &child_mutation_params,\n                child_path_node_ctx,\n                rng,\n            ) };\n\n            (key, mutated_child_value_node)'))
m('f17-select-len', 'C17', (SE, '        individuals_ordered.choose(rng).unwrap()', '        if individuals_ordered.len() == 9 { return individuals_ordered[8]; }\n        individuals_ordered.choose(rng).unwrap()'))
m('f17-cross-two', 'C17', (CR, '            let is_leaf = is_leaf(spec_node);', '            let is_leaf = is_leaf(spec_node) ;\n            if let spec::Node::Array { size, .. } = spec_node { if *size > 4 { return individuals_ordered[0].clone(); } }'))

//! Engine P: spec documents and initial guesses against the reference parser and validator.
use async_trait::async_trait;
use cambrian::error::Error;
use cambrian::meta::{AlgoConfigBuilder, AsyncObjectiveFunction};
use cambrian::{async_launch, spec_util, value_util};
use futures::channel::mpsc;
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::Duration;
use vharness::catalog;
use vharness::common::{guarded, init_panic_hook, Args, Fragment};
use vharness::explore::{explore, hash64, Ctx, Limits};
use vharness::refspec::{self, RN, RV};
use vharness::runner::{run, Driver, Order, Scn, Vals};

type C = Rc<RefCell<Ctx>>;
type Viols = Vec<(String, String)>;

struct G<'a> {
    c: &'a C,
}
impl G<'_> {
    fn n(&self, n: usize) -> usize {
        let mut c = self.c.borrow_mut();
        c.steps += 1;
        c.choose(n as u32) as usize
    }
    fn of<'b>(&self, l: &[&'b str]) -> &'b str {
        l[self.n(l.len())]
    }
    /// deviates from the first option at the cost of one deviation
    fn dev<'b>(&self, l: &[&'b str]) -> &'b str {
        let mut c = self.c.borrow_mut();
        c.steps += 1;
        let k = c.deviate(l.len() as u32, 0);
        l[k as usize]
    }
}

fn finish(c: &C, key: &str, outcome: String) {
    let mut c = c.borrow_mut();
    c.states.push(hash64(key));
    c.outcome = Some(outcome);
}

/// Is the parsed space well-formed? (Independent of the reference parser.)
fn well_formed(n: &RN) -> Result<(), String> {
    let err = |m: &str| Err(format!("{m}: {n:?}"));
    match n {
        RN::Real { init, scale, min, max } => {
            if !init.is_finite() || !scale.is_finite() || min.map_or(false, |x| !x.is_finite()) || max.map_or(false, |x| !x.is_finite()) {
                return err("non-finite number");
            }
            if !(*scale > 0.0) {
                return err("scale not positive");
            }
            if let (Some(a), Some(b)) = (min, max) {
                if !(a < b) {
                    return err("min >= max");
                }
            }
            if min.map_or(false, |a| *init < a) || max.map_or(false, |b| *init > b) {
                return err("init out of bounds");
            }
            Ok(())
        }
        RN::Int { init, scale, min, max } => {
            if !(*scale > 0.0 && scale.is_finite()) {
                return err("scale");
            }
            if let (Some(a), Some(b)) = (min, max) {
                if a >= b {
                    return err("min >= max");
                }
            }
            if min.map_or(false, |a| *init < a) || max.map_or(false, |b| *init > b) {
                return err("init out of bounds");
            }
            Ok(())
        }
        RN::Bool { .. } | RN::Const => Ok(()),
        RN::Sub(m) => {
            if m.is_empty() {
                return err("empty sub");
            }
            m.values().try_for_each(well_formed)
        }
        RN::Array { vt, size } => {
            if *size < 2 {
                return err("array size");
            }
            well_formed(vt)
        }
        RN::Map { vt, init, min, max } => {
            if let (Some(a), Some(b)) = (min, max) {
                if a >= b {
                    return err("size bounds");
                }
            }
            if *max == Some(0) || min.map_or(false, |a| *init < a) || max.map_or(false, |b| *init > b) {
                return err("map sizes");
            }
            well_formed(vt)
        }
        RN::Variant { opts, init } => {
            if opts.len() < 2 || !opts.contains_key(init) {
                return err("variant");
            }
            opts.values().try_for_each(well_formed)
        }
        RN::Enum { values, init } => {
            let d: std::collections::BTreeSet<_> = values.iter().collect();
            if d.len() < 2 || !values.contains(init) {
                return err("enum");
            }
            Ok(())
        }
        RN::Opt { vt, .. } => well_formed(vt),
    }
}

/// number of leaves, to avoid building gigantic initial values
fn weight(n: &RN) -> f64 {
    match n {
        RN::Sub(m) => m.values().map(weight).sum::<f64>() + 1.0,
        RN::Array { vt, size } => weight(vt) * *size as f64 + 1.0,
        RN::Map { vt, init, .. } => weight(vt) * *init as f64 + 1.0,
        RN::Variant { opts, init } => opts.get(init).map_or(1.0, weight) + 1.0,
        RN::Opt { vt, .. } => weight(vt) + 1.0,
        _ => 1.0,
    }
}

fn judge_doc(c: &C, doc: &str) -> Viols {
    let mut v: Viols = Vec::new();
    c.borrow_mut().note.push(format!("document:\n{doc}"));
    let want = refspec::parse_str(doc);
    let got = guarded(|| {
        spec_util::from_yaml_str(doc).map_err(|e| e.to_string())
    });
    let mut outcome = String::new();
    // whether a YAML tag is ignored or refused is not for the property to say
    let neutral = doc.contains("!t");
    let mut viol = |m: String| v.push(("C10".into(), format!("{m}; document: {doc:?}")));
    match (&got, &want) {
        (Err(p), _) => viol(format!("parsing panics: {p}")),
        (Ok(Ok(s)), Ok(w)) => {
            let g = refspec::of_spec(&s.0);
            outcome = format!("{g:?}");
            if g != *w || format!("{g:?}") != format!("{w:?}") {
                viol(format!("parsed as {g:?}, written is {w:?}"));
            }
            if let Err(e) = well_formed(&g) {
                viol(format!("accepted though not well-formed, {e}"));
            }
            if weight(&g) < 1e5 {
                match guarded(|| {
                    let i = s.initial_value();
                    (RV::of(&i.0), i.to_json())
                }) {
                    Err(p) => viol(format!("the initial value panics: {p}")),
                    Ok((i, j)) => {
                        if let Err(e) = g.conforms(&i) {
                            viol(format!("the initial value does not conform, {e}"));
                        }
                        let w = g.initial();
                        if i != w || j.to_string() != w.json().to_string() {
                            viol(format!("the initial value is {j}, written is {}", w.json()));
                        }
                    }
                }
            }
        }
        (Ok(Err(e)), Err(w)) => {
            outcome = format!("rejected ({})", w.chars().take(40).collect::<String>());
            c.borrow_mut().note.push(format!("rejected: {e}"));
        }
        (Ok(Ok(s)), Err(_)) if neutral => {
            if let Err(e) = well_formed(&refspec::of_spec(&s.0)) {
                viol(format!("accepted though not well-formed, {e}"));
            }
        }
        (Ok(Ok(s)), Err(w)) => viol(format!("accepted as {:?}, though {w}", refspec::of_spec(&s.0))),
        _ if neutral => outcome = "tagged".into(),
        (Ok(Err(e)), Ok(w)) => viol(format!("rejected ({e}), though well-formed: {w:?}")),
    }
    finish(c, doc, outcome);
    v
}

fn attr(name: &str, v: &str) -> String {
    if v == "~absent" {
        String::new()
    } else {
        format!("{name}: {v}\n")
    }
}

fn indent(s: &str, by: usize) -> String {
    let pad = " ".repeat(by);
    s.lines().map(|l| format!("{pad}{l}\n")).collect()
}

/// A document at one of the places where a node may stand.
fn place(g: &G, node: &str, n: usize) -> String {
    let i = indent(node, 2);
    match g.n(n) {
        0 => node.to_string(),
        1 => format!("x:\n{i}'y': {{type: bool, init: true}}\n"),
        2 => format!("type: array\nsize: 2\nvalueType:\n{i}"),
        3 => format!("type: anon map\ninitSize: 1\nvalueType:\n{i}"),
        4 => format!("type: optional\ninitPresent: false\nvalueType:\n{i}"),
        5 => format!("type: variant\ninit: b\na:\n{i}b: {{type: bool, init: true}}\n"),
        6 => format!("typeDef t:\n{i}x: {{type: t}}\n"),
        7 => format!("typeDef t:\n{i}x: {{type: bool, init: true}}\n"),
        8 => format!("type: variant\ninit: a\na:\n{i}b: {{type: bool, init: true}}\n"),
        9 => format!("w:\n  type: optional\n  initPresent: true\n  valueType:\n    type: anon map\n    initSize: 0\n    valueType:\n{}", indent(node, 6)),
        10 => format!("type: sub\nx:\n{i}"),
        _ => format!("- {}", indent(node, 2).trim_start()),
    }
}
const PLACES: usize = 12;

const EXTRA: &[&str] = &[
    "~absent", "foo: 1\n", "min: 0\n", "max: 100\n", "scale: 1\n", "init: 1\n", "initSize: 1\n", "minSize: 0\n", "maxSize: 9\n",
    "size: 2\n", "values: [a, b]\n", "valueType: {type: bool, init: true}\n", "initPresent: true\n", "1: 2\n", "true: {type: bool, init: true}\n",
    "null: 1\n", "[a]: 1\n", "typeDef q: {type: bool, init: true}\n", "'Init': 1\n", "' init': 1\n", "'': 1\n", "x: {type: bool, init: true}\n",
    "'type ': real\n", "? {a: 1}\n: 1\n", "2.5: 1\n", "!t foo: 1\n", "<<: {type: real}\n",
];

fn extra(g: &G) -> String {
    let e = g.dev(EXTRA);
    if e == "~absent" {
        String::new()
    } else {
        e.to_string()
    }
}

const NUMS: &[&str] = &[
    "0", "~absent", "-1", "1", "1.5", "2", "-0.0", "0.0", "-1.0", ".nan", ".inf", "-.inf", "'1'", "true", "null", "[1]", "{}", "5.0e-324", "1.7976931348623157e+308",
    "1.0e+400", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551615", "18446744073709551616", "-9223372036854775809",
    "1.0", "0x1", "1e0", "!t 1", "1_000", "~", "1.0e-12", "-1.0e-12", "-5.0e-324", "1.0e-20", "-1.0e-200", "1.0000000000000002", "0.9999999999999999",
    "4294967296", "4294967297", "-4294967296", "9007199254740993", "9223372036854775806", "1.0e+18",
];
const NUMS_SHORT: &[&str] = &["~absent", "0", "1", "-1", "1.5", ".nan", "2", "-.inf", "x", "1.0e-12", "-1.0e-12"];

fn number_node(g: &G, ty: &str, full: bool) -> String {
    let mut s = attr("type", ty);
    if full {
        // all combinations of a short list
        for a in ["min", "max", "init", "scale"] {
            let v = if a == "scale" {
                g.of(&["1", "~absent", "0", "-1", ".inf", "-0.0", ".nan", "5.0e-324"])
            } else {
                g.of(NUMS_SHORT)
            };
            s += &attr(a, v);
        }
    } else {
        // a valid node, up to the deviation bound away
        let base = g.of(&["0", "1", "2"]);
        let (mn, mx) = match base {
            "0" => ("~absent", "~absent"),
            "1" => ("-1", "~absent"),
            _ => ("-3", "4"),
        };
        for (a, d) in [("min", mn), ("max", mx), ("init", "0"), ("scale", "1")] {
            let mut l = vec![d];
            l.extend(NUMS.iter().filter(|x| **x != d));
            s += &attr(a, g.dev(&l));
        }
        s += &extra(g);
    }
    s
}

const CHILDREN: &[&str] = &[
    "{type: bool, init: true}", "~absent", "{type: int, init: 1, scale: 1}", "{type: real, init: 5, scale: 1, max: 4}", "{type: foo}", "3", "null", "[]", "{}",
    "bool", "{x: {type: const}}", "{type: array, size: 1, valueType: {type: const}}", "{type: enum, values: [a, b], init: c}", "{type: const, init: 1}", "{x: 1}",
    "{type: sub}", "{type: optional, initPresent: true, valueType: {type: const}}", "!t {type: const}", "{type: !t const}", "'{type: const}'",
];
const SIZES: &[&str] = &[
    "2", "~absent", "0", "1", "3", "-1", "1.5", "2.0", "'2'", "null", "true", "[2]", "18446744073709551615", "18446744073709551616", ".inf", "0x2", "!t 2", "4294967296", "4294967297", "255", "256",
];
const BOOLS: &[&str] = &["true", "~absent", "false", "'true'", "0", "1", "null", "yes", "[true]", "True", "!t true"];

fn other_node(g: &G, full: bool) -> String {
    match g.n(7) {
        0 => attr("type", "bool") + &attr("init", g.dev(BOOLS)) + &extra(g),
        1 => attr("type", "const") + &extra(g),
        2 => {
            let mut vals: Vec<&str> = Vec::new();
            let items = ["a", "b", "1", "true", "null", "'1'", "''", "[a]", "!t a", "A"];
            let lists: Vec<String> = if full {
                let n = g.n(4);
                for _ in 0..n {
                    vals.push(g.of(&items));
                }
                vec![format!("[{}]", vals.join(", "))]
            } else {
                vec![g.dev(&["[a, b]", "~absent", "a", "{a: 1, b: 2}", "null", "[]", "[a]", "[a, a]", "[a, b, a]", "[a, b, c]", "!t [a, b]"]).to_string()]
            };
            let init = if full {
                g.of(&["a", "b", "~absent", "''", "1", "'1'", "c"])
            } else {
                g.dev(&["a", "b", "c", "~absent", "1", "null", "[a]", "A", "' a'", "!t a"])
            };
            attr("type", "enum") + &attr("values", &lists[0]) + &attr("init", init) + &extra(g)
        }
        3 => {
            attr("type", "optional")
                + &attr("initPresent", g.dev(BOOLS))
                + &attr("valueType", g.dev(CHILDREN))
                + &extra(g)
        }
        4 => attr("type", "array") + &attr("size", g.dev(SIZES)) + &attr("valueType", g.dev(CHILDREN)) + &extra(g),
        5 => {
            let s = attr("type", "anon map");
            if full {
                let l: &[&str] = &["~absent", "0", "1", "2", "3", "-1", "1.0"];
                s + &attr("initSize", g.of(l)) + &attr("minSize", g.of(l)) + &attr("maxSize", g.of(l)) + &attr("valueType", "{type: const}")
            } else {
                let (mn, mx) = [("~absent", "~absent"), ("0", "3"), ("1", "~absent"), ("~absent", "2"), ("2", "3")][g.n(5)];
                let d = |d: &'static str| {
                    let mut l = vec![d];
                    l.extend(SIZES.iter().filter(|x| **x != d));
                    g.dev(&l)
                };
                s + &attr("initSize", d("2")) + &attr("minSize", d(mn)) + &attr("maxSize", d(mx)) + &attr("valueType", g.dev(CHILDREN)) + &extra(g)
            }
        }
        _ => {
            let mut s = attr("type", "variant") + &attr("init", g.dev(&["a", "b", "c", "~absent", "1", "init", "type", "null", "[a]", "A"]));
            for k in ["a", "b"] {
                s += &attr(k, g.dev(CHILDREN));
            }
            s + &extra(g)
        }
    }
}

fn sub_node(g: &G) -> String {
    let mut s = g.dev(&["~absent", "type: sub\n", "type: Sub\n", "type: ''\n", "type: null\n", "type: 1\n", "type: [sub]\n", "type: !t sub\n", "type: 'real '\n"]).to_string();
    if s == "~absent" {
        s.clear();
    }
    for k in ["x", "'y'"] {
        s += &attr(k, g.dev(CHILDREN));
    }
    s += &attr(
        g.dev(&["z", "typeDef t", "typeDef", "typeDefs", "typeDefx", "typeDef ", "typeDef real", "typeDef sub", "typeDef anon map", "init", "'typeDef  t'", "TypeDef t", "valueType", "min", "x.y", "'ünï'", "'typeDef type'"]),
        g.dev(CHILDREN),
    );
    s += &attr("u", g.dev(&["~absent", "{type: t}", "{type: t, init: 1}", "{type: ' t'}", "{type: real}", "{type: type}", "{type: ''}", "{type: typeDef t}"]));
    s
}

/// Small trees of type definitions, uses and shadowing: at most `nested` scopes inside the outermost one,
/// at most `defs` definitions in each.
struct Scope {
    defs: usize,
    nested: usize,
    leaf: usize,
}

fn scoping(g: &G, depth: usize, s: &mut Scope) -> String {
    let ndefs = g.n(s.defs + 1);
    let mut entries: Vec<String> = Vec::new();
    for _ in 0..ndefs {
        let name = g.of(&["t", "u"]);
        if entries.iter().any(|e| e.starts_with(&format!("typeDef {name}:"))) {
            continue;
        }
        let body = scope_node(g, depth, s, true);
        entries.push(format!("typeDef {name}: {body}"));
    }
    let member = scope_node(g, depth, s, false);
    let at = g.n(entries.len() + 1);
    entries.insert(at, format!("m: {member}"));
    format!("{{{}}}", entries.join(", "))
}

fn scope_node(g: &G, depth: usize, s: &mut Scope, body: bool) -> String {
    let n = if depth == 0 || s.nested == 0 { 3 } else if body { 4 } else { 8 };
    let k = g.n(n);
    if k >= 3 {
        s.nested -= 1;
    }
    match k {
        0 => "{type: t}".into(),
        1 => {
            s.leaf += 1;
            format!("{{type: int, init: {}, scale: 1}}", s.leaf)
        }
        2 => "{type: u}".into(),
        3 => scoping(g, depth - 1, s),
        4 => format!("{{type: array, size: 2, valueType: {}}}", scoping(g, depth - 1, s)),
        5 => format!("{{type: anon map, initSize: 1, valueType: {}}}", scoping(g, depth - 1, s)),
        6 => format!("{{type: optional, initPresent: true, valueType: {}}}", scoping(g, depth - 1, s)),
        _ => format!("{{type: variant, init: p, p: {}, q: {{type: u}}}}", scoping(g, depth - 1, s)),
    }
}

/// A name defined or not at each of several levels, by parts of every kind, used below all of them.
fn shadowing(g: &G, max: usize) -> String {
    let levels = 1 + g.n(max);
    let wrap = g.n(6);
    let mut s = String::from(if g.n(2) == 0 { "{type: t}" } else { "{type: optional, initPresent: true, valueType: {type: t}}" });
    for l in (0..levels).rev() {
        let body = match g.n(if l == 0 { 5 } else { 6 }) {
            0 => format!("{{type: int, init: {l}, scale: 1}}"),
            1 => format!("{{k{l}: {{type: int, init: {l}, scale: 1}}}}"),
            2 => format!("{{type: optional, initPresent: true, valueType: {{type: int, init: {l}, scale: 1}}}}"),
            3 => format!("{{type: anon map, initSize: {l}, valueType: {{type: bool, init: true}}}}"),
            4 => String::new(),
            // the outer one, wrapped
            _ => "{type: array, size: 2, valueType: {type: t}}".into(),
        };
        let d = if body.is_empty() { body } else { format!("typeDef t: {body}, ") };
        let kind = if wrap == 5 { l % 5 } else { wrap };
        let inner = match kind {
            0 => s,
            1 => format!("{{type: array, size: 2, valueType: {s}}}"),
            2 => format!("{{type: anon map, initSize: 1, valueType: {s}}}"),
            3 => format!("{{type: optional, initPresent: true, valueType: {s}}}"),
            _ => format!("{{type: variant, init: p, p: {s}, q: {{type: const}}}}"),
        };
        s = format!("{{{d}m: {inner}}}");
    }
    s
}

fn text(g: &G, alphabet: &[&str], max: usize) -> String {
    let n = g.n(max + 1);
    (0..n).map(|_| g.of(alphabet)).collect()
}

fn nest(g: &G) -> String {
    let depth = [1, 2, 3, 8, 40, 100, 125, 126, 127, 128, 129, 200, 5000][g.n(13)];
    let (open, close) = [
        ("{x: ", "}"),
        ("{type: optional, initPresent: true, valueType: ", "}"),
        ("{type: array, size: 2, valueType: ", "}"),
        ("{type: anon map, initSize: 0, valueType: ", "}"),
        ("{type: variant, init: b, b: {type: const}, a: ", "}"),
        ("[", "]"),
        ("{typeDef t: {type: const}, m: ", "}"),
    ][g.n(7)];
    let depth = if open.contains("array") { depth.min(12) } else { depth };
    open.repeat(depth) + g.of(&["{type: const}", "1", ""]) + &close.repeat(depth)
}

/// chains of type definitions: t0, t1 built of t0, ...
fn def_chain(g: &G) -> String {
    let n = [1, 2, 5, 50, 300][g.n(5)];
    let form = g.n(4);
    let mut s = String::from("typeDef t0: {type: int, init: 1, scale: 1}\n");
    for i in 1..=n {
        s += &match form {
            0 => format!("typeDef t{i}: {{type: t{}}}\n", i - 1),
            1 => format!("typeDef t{i}: {{type: optional, initPresent: true, valueType: {{type: t{}}}}}\n", i - 1),
            2 => format!("typeDef t{i}: {{a{i}: {{type: t{}}}}}\n", i - 1),
            _ => format!("typeDef t{i}: {{type: t{}}}\n", i), // itself
        };
    }
    s + &format!("x: {{type: t{n}}}\n")
}

/// References to definitions of every kind, with attributes of their own.
fn reference(g: &G) -> String {
    let body = g.of(&[
        "{type: real, init: 1, scale: 1}", "{type: int, init: 1, scale: 1, min: 0}", "{type: bool, init: true}", "{type: const}", "{type: enum, values: [a, b], init: a}",
        "{x: {type: const}}", "{type: sub, y: {type: bool, init: false}}", "{}", "{type: array, size: 2, valueType: {type: bool, init: true}}",
        "{type: anon map, initSize: 1, valueType: {type: bool, init: true}}", "{type: anon map, initSize: 1, minSize: 1, maxSize: 3, valueType: {z: {type: const}}}",
        "{type: variant, init: a, a: {type: const}, b: {type: bool, init: true}}", "{type: optional, initPresent: true, valueType: {type: bool, init: true}}",
        "{type: optional, initPresent: false, valueType: {x: {type: const}}}", "{type: array, size: 3, valueType: {x: {type: const}, y: {type: const}}}",
    ]);
    let attrs = g.of(&[
        "", "foo: 1", "init: 1", "init: a", "init: b", "init: true", "min: 0", "max: 3", "scale: 1", "scale: 2", "size: 2", "size: 3", "initSize: 2", "minSize: 1",
        "maxSize: 5", "values: [a, b]", "valueType: {type: const}", "initPresent: true", "initPresent: false", "x: {type: const}", "y: {type: bool, init: true}",
        "a: {type: const}", "c: {type: const}", "typeDef q: {type: const}", "typeDef t: {type: const}", "1: 1", "'': 1", "null: 1", "foo: null", "initPresent: null",
    ]);
    let more = g.of(&["", "init: 1", "x: {type: const}"]);
    let mut l = vec!["type: u"];
    l.extend([attrs, more].iter().filter(|a| !a.is_empty()));
    let node = if g.n(2) == 0 { l.join(", ") } else { l.iter().rev().cloned().collect::<Vec<_>>().join(", ") };
    let (defs, node) = match g.n(3) {
        0 => (format!("typeDef u: {body}\n"), node),
        // through another definition
        1 => (format!("typeDef u: {body}\ntypeDef v: {{{node}}}\n"), "type: v".to_string()),
        _ => (format!("typeDef v: {body}\ntypeDef u: {{type: v}}\n"), node),
    };
    let used = match g.n(6) {
        0 => format!("m: {{{node}}}\n"),
        1 => format!("m: {{type: array, size: 2, valueType: {{{node}}}}}\n"),
        2 => format!("m: {{type: anon map, initSize: 1, valueType: {{{node}}}}}\n"),
        3 => format!("m: {{type: optional, initPresent: false, valueType: {{{node}}}}}\n"),
        4 => format!("m: {{type: variant, init: p, p: {{type: const}}, q: {{{node}}}}}\n"),
        _ => format!("m: {{w: {{{node}}}}}\n"),
    };
    defs + &used
}

fn any_catalogue(c: &C, entries: &[catalog::Entry]) -> Viols {
    let g = G { c };
    let e = &entries[g.n(entries.len())];
    judge_doc(c, &e.yaml)
}

// ------------------------------------------------------------------------------------------ C11

struct Item {
    name: String,
    yaml: String,
    spec: cambrian::spec::Spec,
    rn: RN,
    samples: Vec<RV>,
}

fn load(entries: Vec<catalog::Entry>, cap: usize) -> Vec<Item> {
    entries
        .into_iter()
        .map(|e| {
            let rn = refspec::parse_str(&e.yaml).unwrap_or_else(|m| panic!("catalogue entry {}: {m}\n{}", e.name, e.yaml));
            let spec = spec_util::from_yaml_str(&e.yaml).unwrap_or_else(|m| panic!("catalogue entry {} rejected: {m}\n{}", e.name, e.yaml));
            let samples = rn.samples(cap);
            Item { name: e.name, yaml: e.yaml, spec, rn, samples }
        })
        .collect()
}

/// Values up to their JSON form: a present optional without a form of its own is like an absent one.
fn read_back(n: &RN, v: &RV) -> RV {
    match (n, v) {
        (RN::Opt { .. }, v) if v.json().is_null() => RV::Opt(None),
        (RN::Opt { vt, .. }, RV::Opt(Some(x))) => RV::Opt(Some(Box::new(read_back(vt, x)))),
        (RN::Sub(m), RV::Sub(x)) => RV::Sub(x.iter().map(|(k, e)| (k.clone(), read_back(&m[k], e))).collect()),
        (RN::Array { vt, .. }, RV::Array(x)) => RV::Array(x.iter().map(|e| read_back(vt, e)).collect()),
        (RN::Map { vt, .. }, RV::Map(x)) => RV::Map(x.iter().map(|(k, e)| (*k, read_back(vt, e))).collect()),
        (RN::Variant { opts, .. }, RV::Variant(k, x)) => RV::Variant(k.clone(), Box::new(read_back(&opts[k], x))),
        (_, v) => v.clone(),
    }
}

fn same_bits(a: &RV, b: &RV) -> bool {
    a == b && format!("{a:?}") == format!("{b:?}")
}

fn round_trip(c: &C, it: &Item, v: &RV, textual: bool) -> Viols {
    let mut out: Viols = Vec::new();
    let mut viol = |m: String| out.push(("C11".into(), format!("{}: {m}", it.name)));
    let val = v.value();
    let j = match guarded(|| val.to_json()) {
        Ok(j) => j,
        Err(p) => {
            viol(format!("serialising {v:?} panics: {p}"));
            return out;
        }
    };
    c.borrow_mut().note.push(format!("{}: {j}", it.name));
    if j.to_string() != v.json().to_string() {
        viol(format!("{v:?} is serialised as {j}, expected {}", v.json()));
    }
    let back: Vec<(&str, Result<Result<cambrian::value::Value, String>, String>)> = if textual {
        vec![("text", guarded(|| value_util::from_json_str(&j.to_string(), &it.spec).map_err(|e| e.to_string())))]
    } else {
        vec![("value", guarded(|| value_util::from_json_value(&j, &it.spec).map_err(|e| e.to_string())))]
    };
    for (how, b) in back {
        match b {
            Err(p) => viol(format!("reading {j} back ({how}) panics: {p}")),
            Ok(Err(e)) => viol(format!("reading {j} back ({how}) fails: {e}")),
            Ok(Ok(b)) => {
                let j2 = b.to_json();
                if j2.to_string() != j.to_string() {
                    viol(format!("{j} reads back ({how}) as {j2}"));
                } else if let Err(e) = it.rn.conforms(&RV::of(&b.0)) {
                    viol(format!("{j} reads back ({how}) as a non-conforming value: {e}"));
                } else if !same_bits(&read_back(&it.rn, &RV::of(&b.0)), &read_back(&it.rn, v)) {
                    viol(format!("{j} reads back ({how}) as {:?}", RV::of(&b.0)));
                }
            }
        }
    }
    drop(viol);
    finish(c, &format!("{} {j}", it.name), j.to_string());
    out
}

const DOUBLES: &[f64] = &[
    0.0, -0.0, 1.0, -1.0, 0.1, 0.5, 1.5, 1.0 / 3.0, 2.0 / 3.0, 1e-7, 1e-300, 5e-324, 2.2250738585072014e-308, 1e21, 1e22, 1e16, 123456789.123,
    9007199254740993.0, 4503599627370496.5, 1.7976931348623157e308, -1.7976931348623157e308, 1e300, 3.141592653589793, -2.718281828459045,
    0.30000000000000004, 100.0, 12345678901234567000.0, -1e-5, 1e5, 299792458.0, 6.02214076e23, 6.62607015e-34, 0.1234567890123456,
    -2.3782936742747482,
];

/// Every way to damage a JSON value at one place. `f` gets each damaged document.
fn damages(j: &J, n: &RN) -> Vec<J> {
    let mut out = Vec::new();
    let huge = J::from(u64::MAX);
    let repl: Vec<J> = vec![
        J::Null, json!(true), json!(false), json!(0), json!(-1), json!(1), json!(1.5), json!(-0.0), json!(1.0), json!(1e300), json!(-1e300), json!(i64::MAX), json!(i64::MIN), huge,
        json!("a"), json!(""), json!("1"), json!("varA"), json!([]), json!({}), json!([null]), json!({"0": null}), json!({"zz": 1}), json!([0, 0]), json!([true, true]),
        json!([true, true, true]), json!({"x": 1, "y": 2}), json!({"0": true, "1": true, "2": true, "3": true, "4": true}), json!({"varA": true}), json!({"varB": 1, "varA": true}),
    ];
    for r in &repl {
        if r != j || r.to_string() != j.to_string() {
            out.push(r.clone());
        }
    }
    match n {
        RN::Real { min, max, .. } => {
            for b in [min, max].into_iter().flatten() {
                for x in [*b, f64::from_bits(b.to_bits() + 1), f64::from_bits(b.to_bits().wrapping_sub(1)), b + 1.0, b - 1.0, b + 1e-9, b - 1e-9] {
                    if x.is_finite() {
                        out.push(json!(x));
                    }
                }
                out.push(json!(*b as i64 + 1));
                out.push(json!(*b as i64 - 1));
            }
        }
        RN::Int { min, max, .. } => {
            for b in [min, max].into_iter().flatten() {
                for d in [-1, 0, 1] {
                    out.push(json!(b.wrapping_add(d)));
                }
                out.push(json!(*b as f64));
            }
        }
        RN::Enum { values, .. } => {
            for v in values {
                out.push(json!(v));
                out.push(json!(format!("{v} ")));
                out.push(json!(v.to_uppercase()));
            }
            out.push(json!("zz"));
        }
        _ => (),
    }
    match j {
        J::Object(m) => {
            for k in m.keys() {
                let mut o = m.clone();
                o.remove(k);
                out.push(J::Object(o));
                let mut o = m.clone();
                let e = o.remove(k).unwrap();
                o.insert(format!("{k}x"), e.clone());
                out.push(J::Object(o.clone()));
                o.remove(&format!("{k}x"));
                o.insert(format!(" {k}"), e);
                out.push(J::Object(o));
            }
            let some = m.values().next().cloned().unwrap_or(json!(0));
            for k in ["zz", "7", "-1", "1.5", "", "18446744073709551615", "18446744073709551616", "99", "varB", "varA", "x"] {
                if !m.contains_key(k) {
                    let mut o = m.clone();
                    o.insert(k.into(), some.clone());
                    out.push(J::Object(o));
                    let mut o = m.clone();
                    o.insert(k.into(), J::Null);
                    out.push(J::Object(o));
                }
            }
            out.push(J::Array(m.values().cloned().collect()));
            for extra in 2..6u32 {
                let mut o = m.clone();
                for i in 0..extra {
                    o.insert((200 + i).to_string(), some.clone());
                }
                out.push(J::Object(o));
            }
        }
        J::Array(a) => {
            for i in 0..a.len() {
                let mut b = a.clone();
                b.remove(i);
                out.push(J::Array(b));
            }
            let mut b = a.clone();
            b.push(a.first().cloned().unwrap_or(J::Null));
            out.push(J::Array(b.clone()));
            b.push(a.first().cloned().unwrap_or(J::Null));
            out.push(J::Array(b));
            out.push(J::Object(a.iter().enumerate().map(|(i, e)| (i.to_string(), e.clone())).collect()));
        }
        _ => (),
    }
    // inside
    let child = |k: &str| -> Option<RN> {
        match n {
            RN::Sub(m) => m.get(k).cloned(),
            RN::Variant { opts, .. } => opts.get(k).cloned(),
            RN::Map { vt, .. } | RN::Array { vt, .. } => Some((**vt).clone()),
            _ => None,
        }
    };
    if let RN::Opt { vt, .. } = n {
        if !j.is_null() {
            out.extend(damages(j, vt));
        }
        return out;
    }
    match j {
        J::Object(m) => {
            for (k, e) in m {
                if let Some(cn) = child(k) {
                    for d in damages(e, &cn) {
                        let mut o = m.clone();
                        o.insert(k.clone(), d);
                        out.push(J::Object(o));
                    }
                }
            }
        }
        J::Array(a) => {
            for (i, e) in a.iter().enumerate() {
                if let Some(cn) = child("") {
                    for d in damages(e, &cn) {
                        let mut b = a.clone();
                        b[i] = d;
                        out.push(J::Array(b));
                    }
                }
            }
        }
        _ => (),
    }
    out
}

/// Reads a guess and judges the answer.
fn judge_guess(c: &C, it: &Item, j: &J) -> Viols {
    let mut out: Viols = Vec::new();
    c.borrow_mut().note.push(format!("{}: guess {j}", it.name));
    let strict = it.rn.conforms_json(j, false);
    let lenient = it.rn.conforms_json(j, true);
    let r = guarded(|| value_util::from_json_value(j, &it.spec).map_err(|e| e.to_string()));
    let mut viol = |m: String| out.push(("C11".into(), format!("{}: {m}", it.name)));
    let mut oc = String::from("rejected");
    match &r {
        Err(p) => viol(format!("reading the guess {j} panics: {p}")),
        Ok(Ok(v)) => {
            oc = format!("accepted {}", v.to_json());
            let rv = RV::of(&v.0);
            if let Err(e) = &lenient {
                viol(format!("the guess {j} is accepted, though {e}"));
            } else if let Err(e) = it.rn.conforms(&rv) {
                viol(format!("the guess {j} is read as a non-conforming value, {e}"));
            } else if strict.is_ok() && v.to_json() != *j {
                viol(format!("the guess {j} is read as {}", v.to_json()));
            } else if let Some(w) = decode(&it.rn, j) {
                if !same_bits(&rv, &w) {
                    viol(format!("the guess {j} is read as {rv:?}, meant is {w:?}"));
                }
            }
        }
        Ok(Err(e)) => {
            if it.rn.conforms_guess(j).is_ok() {
                viol(format!("the conforming guess {j} is rejected: {e}"));
            }
        }
    }
    drop(viol);
    finish(c, &format!("{} {j}", it.name), oc);
    out
}

/// What a conforming document means.
fn decode(n: &RN, j: &J) -> Option<RV> {
    Some(match (n, j) {
        (RN::Real { .. }, J::Number(x)) => RV::Real(x.as_f64()?),
        (RN::Int { .. }, J::Number(x)) => RV::Int(x.as_i64()?),
        (RN::Bool { .. }, J::Bool(b)) => RV::Bool(*b),
        (RN::Sub(m), J::Object(o)) => RV::Sub(m.iter().map(|(k, n)| Some((k.clone(), decode(n, o.get(k)?)?))).collect::<Option<BTreeMap<_, _>>>()?),
        (RN::Array { vt, .. }, J::Array(a)) => RV::Array(a.iter().map(|e| decode(vt, e)).collect::<Option<Vec<_>>>()?),
        (RN::Map { vt, .. }, J::Array(a)) => RV::Map(a.iter().enumerate().map(|(i, e)| Some((i, decode(vt, e)?))).collect::<Option<BTreeMap<_, _>>>()?),
        (RN::Map { vt, .. }, J::Object(o)) => {
            let m = o.iter().map(|(k, e)| Some((k.parse::<usize>().ok()?, decode(vt, e)?))).collect::<Option<BTreeMap<_, _>>>()?;
            if m.len() != o.len() {
                return None; // one key written in two ways
            }
            RV::Map(m)
        }
        (RN::Variant { opts, .. }, J::Object(o)) => {
            let (k, e) = o.iter().next()?;
            RV::Variant(k.clone(), Box::new(decode(opts.get(k)?, e)?))
        }
        (RN::Enum { .. }, J::String(s)) => RV::Enum(s.clone()),
        (RN::Opt { .. }, J::Null) => RV::Opt(None),
        (RN::Opt { vt, .. }, j) => RV::Opt(Some(Box::new(decode(vt, j)?))),
        (RN::Const, J::Null) => RV::Const,
        _ => return None,
    })
}

struct Count(Arc<AtomicUsize>);
#[async_trait]
impl AsyncObjectiveFunction for Count {
    async fn evaluate(&self, _: J, _: async_broadcast::Receiver<()>, _: u64, _: usize) -> Result<Option<f64>, Error> {
        self.0.fetch_add(1, Ordering::SeqCst);
        Ok(Some(1.0))
    }
}

/// A guess as the input of a run: rejected before any evaluation, or evaluated first.
fn launch_guess(c: &C, it: &Item, j: &J) -> Viols {
    let mut out: Viols = Vec::new();
    let n = Arc::new(AtomicUsize::new(0));
    let n2 = n.clone();
    let r = guarded(|| {
        let (_ctx, crx) = mpsc::channel(4);
        let (rtx, _rrx) = mpsc::channel(1024);
        futures::executor::block_on(async_launch::launch(
            spec_util::from_yaml_str(&it.yaml).expect("spec"),
            Count(n2),
            AlgoConfigBuilder::new().num_concurrent(2).build().expect("config"),
            crx,
            rtx,
            Some(3),
            None,
            Some(j.clone()),
        ))
        .map(|r| r.best_seen.value)
        .map_err(|e| e.to_string())
    });
    let evals = n.load(Ordering::SeqCst);
    let mut viol = |m: String| out.push(("C11".into(), format!("{}: {m}", it.name)));
    let strict = it.rn.conforms_guess(j).is_ok();
    let lenient = it.rn.conforms_json(j, true).is_ok();
    match &r {
        Err(p) => viol(format!("a run with the guess {j} panics: {p}")),
        Ok(Err(e)) => {
            if evals > 0 {
                viol(format!("the run with the guess {j} ends with {e} after {evals} evaluations"));
            }
            if strict {
                viol(format!("the run with the conforming guess {j} ends with {e}"));
            }
        }
        Ok(Ok(_)) => {
            if !lenient {
                viol(format!("the run with the guess {j} evaluates {evals} times though the guess does not conform"));
            }
        }
    }
    drop(viol);
    c.borrow_mut().note.push(format!("guess {j}: {r:?}, {evals} evaluations"));
    finish(c, &format!("{} {j}", it.name), format!("{}", if r.as_ref().map_or(false, |r| r.is_ok()) { "ran" } else { "rejected" }));
    out
}

/// All small JSON documents.
fn small_json(g: &G, depth: usize) -> J {
    let leaves = [
        J::Null, json!(true), json!(0), json!(1), json!(-3), json!(0.5), json!(1e300), json!("a"), json!("b"), json!(u64::MAX),
    ];
    let k = g.n(if depth == 0 { leaves.len() } else { leaves.len() + 6 });
    if k < leaves.len() {
        return leaves[k].clone();
    }
    match k - leaves.len() {
        0 => json!([]),
        1 => json!({}),
        2 => json!([small_json(g, depth - 1)]),
        3 => json!([small_json(g, depth - 1), small_json(g, depth - 1)]),
        4 => {
            let key = g.of(&["x", "y", "0", "varA", "varB", "zz", "+1", "01"]);
            json!({key: small_json(g, depth - 1)})
        }
        _ => {
            let (a, b) = [("x", "y"), ("0", "1"), ("0", "00"), ("varA", "varB"), ("x", "zz"), ("5", "18446744073709551615")][g.n(6)];
            json!({a: small_json(g, depth - 1), b: small_json(g, depth - 1)})
        }
    }
}

/// The run with the initial value as the guess against the run without a guess.
fn guess_is_init(c: &C, name: &str, yaml: &str, rn: &RN) -> Viols {
    let g = G { c };
    let conf = g.n(5);
    let (cc, order, s) = [(1, Order::Fifo, 1), (2, Order::Lifo, 1), (3, Order::Rot(1), 2), (4, Order::Lifo, 1), (1, Order::Fifo, 3)][conf];
    let mut scn = Scn::new(&format!("guess = init {name}"));
    scn.yaml = yaml.into();
    scn.c = cc;
    scn.s = s;
    scn.n = Some(60);
    scn.max_events = usize::MAX;
    scn.verbose_outcome = false;
    scn.own_select = false;
    scn.driver = Driver::Script { order, vals: Vals::OfValue };
    let go = |guess: Option<J>| {
        let mut s = scn.clone();
        s.guess = guess;
        let ctx = Rc::new(RefCell::new(Ctx::default()));
        let r = run(&s, &ctx);
        (r.starts, r.best, r.viols)
    };
    let mut out: Viols = Vec::new();
    let a = go(None);
    let b = go(Some(rn.initial().json()));
    for v in a.2.iter().chain(&b.2) {
        if v.0 == "*" {
            out.push(("C11".into(), format!("{name}: {}", v.1)));
        }
    }
    if out.is_empty() {
        if let Some(i) = (0..a.0.len().max(b.0.len())).find(|i| a.0.get(*i) != b.0.get(*i)) {
            out.push((
                "C11".into(),
                format!(
                    "{name}: with the initial value {} as the guess, evaluation {i} is {:?} instead of {:?} (num_concurrent {cc}, sample size {s})",
                    rn.initial().json(),
                    b.0.get(i),
                    a.0.get(i)
                ),
            ));
        } else if a.1 != b.1 {
            out.push(("C11".into(), format!("{name}: with the initial value as the guess the result is {:?} instead of {:?}", b.1, a.1)));
        }
    }
    c.borrow_mut().steps += a.0.len() as u64;
    finish(c, &format!("{name} {conf}"), format!("{:?}", a.1));
    out
}

/// Specs whose initial value has many keys, which a hash map may hold in another order.
fn wide() -> Vec<catalog::Entry> {
    let mut v = Vec::new();
    for n in [3, 7, 8, 14, 15, 20, 28, 29, 60, 120] {
        for inner in ["{type: int, init: 0, scale: 3}", "{type: bool, init: false}"] {
            v.push(catalog::Entry {
                name: format!("map of {n} {inner}"),
                yaml: format!("type: anon map\ninitSize: {n}\nvalueType: {inner}\n"),
            });
            let mut y = String::new();
            for i in 0..n {
                y += &format!("p{}: {inner}\n", i * 7919 % 1000);
            }
            v.push(catalog::Entry { name: format!("sub of {n} {inner}"), yaml: y });
        }
        v.push(catalog::Entry {
            name: format!("array of maps {n}"),
            yaml: format!("type: array\nsize: 2\nvalueType:\n  type: anon map\n  initSize: {n}\n  maxSize: {}\n  valueType: {{a: {{type: real, init: 0.0, scale: 1.0}}, b: {{type: bool, init: true}}}}\n", n + 3),
        });
    }
    v
}

fn has_null_opt(n: &RN) -> bool {
    match n {
        RN::Opt { vt, .. } => matches!(**vt, RN::Opt { .. } | RN::Const) || has_null_opt(vt),
        RN::Sub(m) => m.values().any(has_null_opt),
        RN::Variant { opts, .. } => opts.values().any(has_null_opt),
        RN::Array { vt, .. } | RN::Map { vt, .. } => has_null_opt(vt),
        _ => false,
    }
}

type F = Box<dyn Fn(&C) -> Viols + Sync>;

fn main() {
    let args = Args::parse();
    init_panic_hook();
    let th = args.thorough();
    let mut frag = Fragment::new(&args);
    let mut parts: Vec<(&'static str, u32, F)> = Vec::new();
    if args.property == "C10" {
        parts.push(("catalogue", 0, {
            let mut e = catalog::all();
            e.extend(wide());
            for (n, y) in catalog::leaves() {
                for c in catalog::composites(n, y) {
                    e.extend(catalog::composites(&c.name, &c.yaml));
                }
            }
            Box::new(move |c| any_catalogue(c, &e))
        }));
        parts.push(("numbers, all combinations", 0, Box::new(|c| {
            let g = G { c };
            let ty = g.of(&["real", "int"]);
            let n = number_node(&g, ty, true);
            let d = place(&g, &n, 2);
            judge_doc(c, &d)
        })));
        parts.push(("other kinds, all combinations", 1, Box::new(|c| {
            let g = G { c };
            let n = other_node(&g, true);
            let d = place(&g, &n, 2);
            judge_doc(c, &d)
        })));
        let dev = 2 + th as u32;
        parts.push(("numbers, rule violations", dev, Box::new(|c| {
            let g = G { c };
            let ty = g.of(&["real", "int"]);
            let n = number_node(&g, ty, false);
            let d = place(&g, &n, PLACES);
            judge_doc(c, &d)
        })));
        parts.push(("other kinds, rule violations", dev, Box::new(|c| {
            let g = G { c };
            let n = other_node(&g, false);
            let d = place(&g, &n, PLACES);
            judge_doc(c, &d)
        })));
        parts.push(("subs, rule violations", dev, Box::new(|c| {
            let g = G { c };
            let n = sub_node(&g);
            let d = place(&g, &n, PLACES);
            judge_doc(c, &d)
        })));
        for (name, defs, nested, depth) in [("scoping, wide", 2, if th { 2 } else { 1 }, 2), ("scoping, deep", 1, if th { 3 } else { 2 }, if th { 3 } else { 2 })] {
            parts.push((name, 0, Box::new(move |c| {
                let g = G { c };
                let d = scoping(&g, depth, &mut Scope { defs, nested, leaf: 0 });
                judge_doc(c, &d)
            })));
        }
        parts.push(("shadowing", 0, Box::new(move |c| {
            let g = G { c };
            let d = shadowing(&g, 5 + th as usize);
            judge_doc(c, &d)
        })));
        parts.push(("deep documents", 0, {
            let e = catalog::deep(if th { 5 } else { 4 });
            Box::new(move |c| any_catalogue(c, &e))
        }));
        parts.push(("references", 0, Box::new(|c| {
            let g = G { c };
            let d = reference(&g);
            judge_doc(c, &d)
        })));
        parts.push(("names", 0, Box::new(|c| {
            let g = G { c };
            let (a, b) = (g.of(catalog::NAMES), g.of(catalog::NAMES));
            let d = catalog::named(g.n(catalog::ROLES), a, b);
            judge_doc(c, &d)
        })));
        parts.push(("short texts", 0, Box::new(move |c| {
            let g = G { c };
            let d = if g.n(2) == 0 {
                text(&g, &["a", ":", " ", "\n", "-", "{", "}", "[", "]", ",", "'", "\"", "&", "*", "!", "#", "|", ">", "\t", "~", "\u{0}", "ü", "%", "1"], if th { 5 } else { 4 })
            } else {
                text(
                    &g,
                    &["type: ", "real", "init: ", "1", "\n", "  ", "{", "}", ", ", "x: ", "&a ", "*a", "<<: ", "!t ", "scale: ", "bool", "true", "- ", "---\n", "typeDef t: "],
                    if th { 5 } else { 4 },
                )
            };
            judge_doc(c, &d)
        })));
        parts.push(("nesting", 0, Box::new(|c| {
            let g = G { c };
            let d = if g.n(2) == 0 { nest(&g) } else { def_chain(&g) };
            judge_doc(c, &d)
        })));
    } else if args.property == "C11" {
        let cap = if th { 24 } else { 10 };
        let mut e = catalog::all();
        for (n, y) in catalog::leaves() {
            for c in catalog::composites(n, y) {
                if th || ["real", "enum3", "const", "intu"].contains(&n) {
                    e.extend(catalog::composites(&c.name, &c.yaml));
                }
            }
        }
        e.extend(wide());
        e.extend(catalog::names());
        let all: Arc<Vec<Item>> = Arc::new(load(e, cap));
        let a = all.clone();
        parts.push(("round trips", 0, Box::new(move |c| {
            let g = G { c };
            let it = &a[g.n(a.len())];
            let v = &it.samples[g.n(it.samples.len())];
            let t = g.n(2) == 1;
            round_trip(c, it, v, t)
        })));
        let reals: Arc<Vec<Item>> = Arc::new(load(
            vec![
                catalog::Entry { name: "double".into(), yaml: "type: real\ninit: 0\nscale: 1\n".into() },
                catalog::Entry { name: "double in map".into(), yaml: catalog::wrap_map("type: real\ninit: 0\nscale: 1\n", 1, None, None) },
            ],
            1,
        ));
        let r2 = reals.clone();
        parts.push(("doubles", 0, Box::new(move |c| {
            let g = G { c };
            let k = g.n(2);
            let x = RV::Real(DOUBLES[g.n(DOUBLES.len())]);
            let t = g.n(2) == 1;
            let v = if k == 0 { x } else { RV::Map([(usize::MAX, x)].into_iter().collect()) };
            round_trip(c, &r2[k], &v, t)
        })));
        parts.push(("integers", 0, {
            let ints = load(vec![catalog::Entry { name: "integer".into(), yaml: "type: int\ninit: 0\nscale: 1\n".into() }], 1);
            Box::new(move |c| {
                let g = G { c };
                let base = [0i64, 1 << 31, 1 << 53, 1 << 62, i64::MAX, i64::MIN, -(1 << 53), 1 << 24][g.n(8)];
                let d = g.n(7) as i64 - 3;
                let t = g.n(2) == 1;
                round_trip(c, &ints[0], &RV::Int(base.wrapping_add(d)), t)
            })
        }));
        let a = all.clone();
        let dmg: Vec<(usize, Vec<J>)> = a
            .iter()
            .enumerate()
            .filter(|(_, i)| !i.name.contains("map of ") && !i.name.contains("sub of ") && !i.name.contains("array of maps "))
            .flat_map(|(k, it)| {
                it.samples
                    .iter()
                    .take(if th { 8 } else { 4 })
                    .map(|s| (k, damages(&s.json(), &it.rn)))
                    .collect::<Vec<_>>()
            })
            .collect();
        let dmg = Arc::new(dmg);
        let d2 = dmg.clone();
        parts.push(("damaged guesses", 0, Box::new(move |c| {
            let g = G { c };
            let (k, l) = &d2[g.n(d2.len())];
            let j = &l[g.n(l.len())];
            judge_guess(c, &a[*k], j)
        })));
        let deep: Arc<Vec<Item>> = Arc::new(load(catalog::deep(if th { 5 } else { 4 }), 2));
        let d3 = deep.clone();
        parts.push(("deep round trips", 0, Box::new(move |c| {
            let g = G { c };
            let it = &d3[g.n(d3.len())];
            let v = &it.samples[g.n(it.samples.len())];
            let t = g.n(2) == 1;
            round_trip(c, it, v, t)
        })));
        parts.push(("deep damaged guesses", 0, Box::new(move |c| {
            let g = G { c };
            let it = &deep[g.n(deep.len())];
            let l = damages(&it.samples[g.n(it.samples.len().min(2))].json(), &it.rn);
            // all of them in one execution
            let mut out = Vec::new();
            for j in &l {
                c.borrow_mut().steps += 1;
                out.extend(judge_guess(c, it, j));
                if !out.is_empty() {
                    break;
                }
                c.borrow_mut().note.clear();
            }
            out
        })));
        let a = all.clone();
        let firsts: Vec<(usize, Vec<J>)> = {
            let mut seen = std::collections::BTreeSet::new();
            dmg.iter()
                .filter(|(k, _)| th || seen.insert(*k))
                .filter(|(k, _)| th || k % 3 == 0 || a[*k].name.starts_with("mixed") || *k < 12)
                .cloned()
                .collect()
        };
        parts.push(("runs with damaged guesses", 0, Box::new(move |c| {
            let g = G { c };
            let (k, l) = &firsts[g.n(firsts.len())];
            let j = &l[g.n(l.len())];
            launch_guess(c, &a[*k], j)
        })));
        let a = all.clone();
        let small: Vec<usize> = a
            .iter()
            .enumerate()
            .filter(|(_, i)| {
                ["real", "int", "bool", "enum2", "const", "sub(int)", "sub(bool)", "array2(bool)", "array2(int)", "map0..1(bool)", "map1..3(int)", "map2..(bool)", "map..2(const)", "opt+(int)", "opt-(const)", "variantA(int)", "variantB(real)"]
                    .contains(&i.name.as_str())
            })
            .map(|(k, _)| k)
            .collect();
        parts.push(("small documents", 0, Box::new(move |c| {
            let g = G { c };
            let it = &a[small[g.n(small.len())]];
            let j = small_json(&g, if th { 2 } else { 1 });
            judge_guess(c, it, &j)
        })));
        let a = all.clone();
        parts.push(("short texts", 0, Box::new(move |c| {
            let g = G { c };
            let it = &a[[0usize, 3, 8][g.n(3)]];
            let t = text(&g, &["{", "}", "[", "]", "\"", ":", ",", "1", "-", ".", "e", "0", "t", "null", "true", " ", "\\", "ü", "\n", "9999999999"], 4);
            c.borrow_mut().note.push(format!("guess text {t:?}"));
            let r = guarded(|| value_util::from_json_str(&t, &it.spec).map(|v| v.to_json()).map_err(|e| e.to_string()));
            let mut out = Vec::new();
            let conforming = serde_json::from_str::<J>(&t).map_or(false, |j| it.rn.conforms_json(&j, true).is_ok());
            match &r {
                Err(p) => out.push(("C11".to_string(), format!("reading the guess text {t:?} panics: {p}"))),
                Ok(Ok(v)) if !conforming => out.push(("C11".to_string(), format!("the guess text {t:?} is accepted as {v} by {}", it.name))),
                _ => (),
            }
            finish(c, &t, format!("{r:?}"));
            out
        })));
        let a = all.clone();
        // an optional directly around an optional or a const is excluded by the property
        let runs: Vec<usize> = (0..a.len()).filter(|k| !has_null_opt(&a[*k].rn)).collect();
        parts.push(("initial value as the guess", 0, Box::new(move |c| {
            let g = G { c };
            let it = &a[runs[g.n(runs.len())]];
            guess_is_init(c, &it.name, &it.yaml, &it.rn)
        })));
    }
    let n = parts.len();
    for (pi, (name, dev, f)) in parts.iter().enumerate() {
        if args.part.as_ref().map_or(false, |q| q != name) {
            continue;
        }
        if let Some(ch) = &args.replay {
            let ctx = Rc::new(RefCell::new(Ctx::with_prefix(ch.clone())));
            let v = f(&ctx);
            for n in &ctx.borrow().note {
                println!("{n}");
            }
            for x in &v {
                println!("VIOLATED {}: {}", x.0, x.1);
            }
            std::process::exit(!v.is_empty() as i32);
        }
        let left = args.wall - frag.t0.elapsed().as_secs_f64();
        let wall = (left / (n - pi) as f64 * 2.0).clamp(1.0, left.max(1.0));
        let st = explore(
            vec![vec![]],
            &Limits { deviations: Some(*dev), wall: Duration::from_secs_f64(wall), threads: args.threads },
            Duration::from_secs(60),
            |choices| Fragment::hang(&args, name, choices),
            |c| f(c),
        );
        frag.add(name, st);
    }
    frag.finish();
    if frag.failed() {
        for (n, st) in &frag.parts {
            for v in st.violations.iter().take(6) {
                eprintln!("{n}: {}: {} {:?}", v.property, v.message, v.choices);
            }
        }
        std::process::exit(1);
    }
}

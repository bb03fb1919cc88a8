//! Reference model of specs and values, written from the documentation; shares nothing with cambrian's own code.
use cambrian::{spec, value};
use serde_json::Value as J;
use serde_yaml::Value as Y;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum RN {
    Real {
        init: f64,
        scale: f64,
        min: Option<f64>,
        max: Option<f64>,
    },
    Int {
        init: i64,
        scale: f64,
        min: Option<i64>,
        max: Option<i64>,
    },
    Bool {
        init: bool,
    },
    Sub(BTreeMap<String, RN>),
    Array {
        vt: Box<RN>,
        size: u64,
    },
    Map {
        vt: Box<RN>,
        init: u64,
        min: Option<u64>,
        max: Option<u64>,
    },
    Variant {
        opts: BTreeMap<String, RN>,
        init: String,
    },
    Enum {
        values: Vec<String>,
        init: String,
    },
    Opt {
        vt: Box<RN>,
        present: bool,
    },
    Const,
}

#[derive(Clone, Debug, PartialEq)]
pub enum RV {
    Real(f64),
    Int(i64),
    Bool(bool),
    Sub(BTreeMap<String, RV>),
    Array(Vec<RV>),
    Map(BTreeMap<usize, RV>),
    Variant(String, Box<RV>),
    Enum(String),
    Opt(Option<Box<RV>>),
    Const,
}

type Defs = BTreeMap<String, RN>;
const BUILT_IN: &[&str] = &[
    "real", "int", "bool", "sub", "array", "anon map", "variant", "enum", "optional", "const",
];

fn untag(y: &Y) -> &Y {
    match y {
        Y::Tagged(t) => untag(&t.value),
        y => y,
    }
}

/// Reference parser: `Err` carries the broken rule.
pub fn parse_str(doc: &str) -> Result<RN, String> {
    let y: Y = serde_yaml::from_str(doc).map_err(|e| format!("yaml: {e}"))?;
    parse(&y, &Defs::new())
}

pub fn parse(y: &Y, defs: &Defs) -> Result<RN, String> {
    let m = match y {
        Y::Mapping(m) => m,
        _ => return Err("node is not a map".into()),
    };
    let mut keys = Vec::new();
    for k in m.keys() {
        match k {
            Y::String(s) => keys.push(s.as_str()),
            _ => return Err("attribute key is not a string".into()),
        }
    }
    let get = |k: &str| m.get(k).map(untag);
    let ty = match get("type") {
        None => "sub",
        Some(Y::String(s)) => s.as_str(),
        Some(_) => return Err("type is not a string".into()),
    };
    let only = |allowed: &[&str]| -> Result<(), String> {
        for k in &keys {
            if *k != "type" && !allowed.contains(k) {
                return Err(format!("unknown attribute {k}"));
            }
        }
        Ok(())
    };
    let real = |k: &str| -> Result<Option<f64>, String> {
        match get(k) {
            None => Ok(None),
            Some(Y::Number(n)) => {
                let f = n.as_f64().ok_or("not a real")?;
                if f.is_finite() {
                    Ok(Some(f))
                } else {
                    Err(format!("{k} not finite"))
                }
            }
            Some(_) => Err(format!("{k} not a number")),
        }
    };
    let int = |k: &str| -> Result<Option<i64>, String> {
        match get(k) {
            None => Ok(None),
            Some(Y::Number(n)) if n.is_i64() => Ok(n.as_i64()),
            Some(_) => Err(format!("{k} not an integer")),
        }
    };
    let size = |k: &str| -> Result<Option<u64>, String> {
        match get(k) {
            None => Ok(None),
            Some(Y::Number(n)) if n.is_u64() => Ok(n.as_u64()),
            Some(_) => Err(format!("{k} not a size")),
        }
    };
    let boolean = |k: &str| -> Result<bool, String> {
        match get(k) {
            Some(Y::Bool(b)) => Ok(*b),
            _ => Err(format!("{k} missing or not a bool")),
        }
    };
    let string = |k: &str| -> Result<String, String> {
        match get(k) {
            Some(Y::String(s)) => Ok(s.clone()),
            _ => Err(format!("{k} missing or not a string")),
        }
    };
    let value_type = || -> Result<Box<RN>, String> {
        Ok(Box::new(parse(
            m.get("valueType").ok_or("no valueType")?,
            defs,
        )?))
    };
    match ty {
        "real" => {
            only(&["min", "max", "scale", "init"])?;
            let (min, max) = (real("min")?, real("max")?);
            if let (Some(a), Some(b)) = (min, max) {
                if !(a < b) {
                    return Err("min >= max".into());
                }
            }
            let init = real("init")?.ok_or("init missing")?;
            if min.map_or(false, |a| init < a) || max.map_or(false, |b| init > b) {
                return Err("init out of bounds".into());
            }
            let scale = real("scale")?.ok_or("scale missing")?;
            if scale <= 0.0 {
                return Err("scale <= 0".into());
            }
            Ok(RN::Real {
                init,
                scale,
                min,
                max,
            })
        }
        "int" => {
            only(&["min", "max", "scale", "init"])?;
            let (min, max) = (int("min")?, int("max")?);
            if let (Some(a), Some(b)) = (min, max) {
                if a >= b {
                    return Err("min >= max".into());
                }
            }
            let init = int("init")?.ok_or("init missing")?;
            if min.map_or(false, |a| init < a) || max.map_or(false, |b| init > b) {
                return Err("init out of bounds".into());
            }
            let scale = real("scale")?.ok_or("scale missing")?;
            if scale <= 0.0 {
                return Err("scale <= 0".into());
            }
            Ok(RN::Int {
                init,
                scale,
                min,
                max,
            })
        }
        "bool" => {
            only(&["init"])?;
            Ok(RN::Bool {
                init: boolean("init")?,
            })
        }
        "const" => {
            only(&[])?;
            Ok(RN::Const)
        }
        "enum" => {
            only(&["values", "init"])?;
            let init = string("init")?;
            let values = match get("values") {
                Some(Y::Sequence(s)) => s
                    .iter()
                    .map(|v| match v {
                        Y::String(s) => Ok(s.clone()),
                        _ => Err("enum value not a string".to_string()),
                    })
                    .collect::<Result<Vec<_>, _>>()?,
                _ => return Err("values missing".into()),
            };
            let distinct: std::collections::BTreeSet<_> = values.iter().collect();
            if distinct.len() < 2 {
                return Err("fewer than two enum values".into());
            }
            if !values.contains(&init) {
                return Err("init not an enum value".into());
            }
            Ok(RN::Enum { values, init })
        }
        "optional" => {
            only(&["valueType", "initPresent"])?;
            let vt = value_type()?;
            Ok(RN::Opt {
                vt,
                present: boolean("initPresent")?,
            })
        }
        "array" => {
            only(&["valueType", "size"])?;
            let vt = value_type()?;
            let size = size("size")?.ok_or("size missing")?;
            if size < 2 {
                return Err("array size < 2".into());
            }
            Ok(RN::Array { vt, size })
        }
        "anon map" => {
            only(&["valueType", "initSize", "minSize", "maxSize"])?;
            let vt = value_type()?;
            let (min, max) = (size("minSize")?, size("maxSize")?);
            if let (Some(a), Some(b)) = (min, max) {
                if a >= b {
                    return Err("minSize >= maxSize".into());
                }
            }
            if max == Some(0) {
                return Err("maxSize 0".into());
            }
            let init = size("initSize")?.ok_or("initSize missing")?;
            if min.map_or(false, |a| init < a) || max.map_or(false, |b| init > b) {
                return Err("initSize out of bounds".into());
            }
            Ok(RN::Map { vt, init, min, max })
        }
        "variant" => {
            let init = string("init")?;
            let mut opts = BTreeMap::new();
            for k in &keys {
                if *k != "type" && *k != "init" {
                    opts.insert(k.to_string(), parse(&m[*k], defs)?);
                }
            }
            if opts.len() < 2 {
                return Err("fewer than two variant options".into());
            }
            if !opts.contains_key(&init) {
                return Err("init not a variant option".into());
            }
            Ok(RN::Variant { opts, init })
        }
        "sub" => {
            let mut defs = defs.clone();
            for k in &keys {
                if let Some(name) = k.strip_prefix("typeDef ") {
                    if BUILT_IN.contains(&name) {
                        return Err("type definition named like a built-in type".into());
                    }
                    let n = parse(&m[*k], &defs)?;
                    defs.insert(name.to_string(), n);
                }
            }
            let mut members = BTreeMap::new();
            for k in &keys {
                if *k != "type" && !k.starts_with("typeDef ") {
                    members.insert(k.to_string(), parse(&m[*k], &defs)?);
                }
            }
            if members.is_empty() {
                return Err("empty sub".into());
            }
            Ok(RN::Sub(members))
        }
        name => match defs.get(name) {
            None => Err(format!("unknown type {name}")),
            Some(n) => {
                only(&[])?;
                Ok(n.clone())
            }
        },
    }
}

/// The parameter space cambrian parsed, as a reference node.
pub fn of_spec(n: &spec::Node) -> RN {
    match n {
        spec::Node::Real {
            init,
            scale,
            min,
            max,
        } => RN::Real {
            init: *init,
            scale: *scale,
            min: *min,
            max: *max,
        },
        spec::Node::Int {
            init,
            scale,
            min,
            max,
        } => RN::Int {
            init: *init,
            scale: *scale,
            min: *min,
            max: *max,
        },
        spec::Node::Bool { init } => RN::Bool { init: *init },
        spec::Node::Sub { map } => {
            RN::Sub(map.iter().map(|(k, v)| (k.clone(), of_spec(v))).collect())
        }
        spec::Node::Array { value_type, size } => RN::Array {
            vt: Box::new(of_spec(value_type)),
            size: *size as u64,
        },
        spec::Node::AnonMap {
            value_type,
            init_size,
            min_size,
            max_size,
        } => RN::Map {
            vt: Box::new(of_spec(value_type)),
            init: *init_size as u64,
            min: min_size.map(|s| s as u64),
            max: max_size.map(|s| s as u64),
        },
        spec::Node::Variant { map, init } => RN::Variant {
            opts: map.iter().map(|(k, v)| (k.clone(), of_spec(v))).collect(),
            init: init.clone(),
        },
        spec::Node::Enum { values, init } => RN::Enum {
            values: values.clone(),
            init: init.clone(),
        },
        spec::Node::Optional {
            value_type,
            init_present,
        } => RN::Opt {
            vt: Box::new(of_spec(value_type)),
            present: *init_present,
        },
        spec::Node::Const => RN::Const,
    }
}

impl RV {
    pub fn of(n: &value::Node) -> RV {
        match n {
            value::Node::Real(x) => RV::Real(*x),
            value::Node::Int(x) => RV::Int(*x),
            value::Node::Bool(x) => RV::Bool(*x),
            value::Node::Sub(m) => RV::Sub(m.iter().map(|(k, v)| (k.clone(), RV::of(v))).collect()),
            value::Node::Array(v) => RV::Array(v.iter().map(|v| RV::of(v)).collect()),
            value::Node::AnonMap(m) => RV::Map(m.iter().map(|(k, v)| (*k, RV::of(v))).collect()),
            value::Node::Variant(k, v) => RV::Variant(k.clone(), Box::new(RV::of(v))),
            value::Node::Enum(k) => RV::Enum(k.clone()),
            value::Node::Optional(o) => RV::Opt(o.as_ref().map(|v| Box::new(RV::of(v)))),
            value::Node::Const => RV::Const,
        }
    }
    pub fn to_node(&self) -> value::Node {
        match self {
            RV::Real(x) => value::Node::Real(*x),
            RV::Int(x) => value::Node::Int(*x),
            RV::Bool(x) => value::Node::Bool(*x),
            RV::Sub(m) => value::Node::Sub(
                m.iter()
                    .map(|(k, v)| (k.clone(), Box::new(v.to_node())))
                    .collect(),
            ),
            RV::Array(v) => value::Node::Array(v.iter().map(|v| Box::new(v.to_node())).collect()),
            RV::Map(m) => {
                value::Node::AnonMap(m.iter().map(|(k, v)| (*k, Box::new(v.to_node()))).collect())
            }
            RV::Variant(k, v) => value::Node::Variant(k.clone(), Box::new(v.to_node())),
            RV::Enum(k) => value::Node::Enum(k.clone()),
            RV::Opt(o) => value::Node::Optional(o.as_ref().map(|v| Box::new(v.to_node()))),
            RV::Const => value::Node::Const,
        }
    }
    pub fn value(&self) -> value::Value {
        value::Value(self.to_node())
    }
    /// The documented JSON form.
    pub fn json(&self) -> J {
        match self {
            RV::Real(x) => J::Number(serde_json::Number::from_f64(*x).expect("finite")),
            RV::Int(x) => J::from(*x),
            RV::Bool(x) => J::Bool(*x),
            RV::Sub(m) => J::Object(m.iter().map(|(k, v)| (k.clone(), v.json())).collect()),
            RV::Array(v) => J::Array(v.iter().map(|v| v.json()).collect()),
            RV::Map(m) => J::Object(m.iter().map(|(k, v)| (k.to_string(), v.json())).collect()),
            RV::Variant(k, v) => J::Object([(k.clone(), v.json())].into_iter().collect()),
            RV::Enum(k) => J::String(k.clone()),
            RV::Opt(None) | RV::Const => J::Null,
            RV::Opt(Some(v)) => v.json(),
        }
    }
}

impl RN {
    pub fn initial(&self) -> RV {
        match self {
            RN::Real { init, .. } => RV::Real(*init),
            RN::Int { init, .. } => RV::Int(*init),
            RN::Bool { init } => RV::Bool(*init),
            RN::Sub(m) => RV::Sub(m.iter().map(|(k, v)| (k.clone(), v.initial())).collect()),
            RN::Array { vt, size } => RV::Array((0..*size).map(|_| vt.initial()).collect()),
            RN::Map { vt, init, .. } => {
                RV::Map((0..*init as usize).map(|k| (k, vt.initial())).collect())
            }
            RN::Variant { opts, init } => {
                RV::Variant(init.clone(), Box::new(opts[init].initial()))
            }
            RN::Enum { init, .. } => RV::Enum(init.clone()),
            RN::Opt { vt, present } => RV::Opt(present.then(|| Box::new(vt.initial()))),
            RN::Const => RV::Const,
        }
    }

    /// Conformance of a value; the error says where and why not.
    pub fn conforms(&self, v: &RV) -> Result<(), String> {
        self.conf(v, "")
    }

    fn conf(&self, v: &RV, at: &str) -> Result<(), String> {
        let err = |m: String| Err(format!("at '{at}': {m}"));
        match (self, v) {
            (RN::Real { min, max, .. }, RV::Real(x)) => {
                if !x.is_finite() {
                    return err(format!("{x} is not finite"));
                }
                if min.map_or(false, |m| *x < m) || max.map_or(false, |m| *x > m) {
                    return err(format!("{x} is outside [{min:?}, {max:?}]"));
                }
                Ok(())
            }
            (RN::Int { min, max, .. }, RV::Int(x)) => {
                if min.map_or(false, |m| *x < m) || max.map_or(false, |m| *x > m) {
                    return err(format!("{x} is outside [{min:?}, {max:?}]"));
                }
                Ok(())
            }
            (RN::Bool { .. }, RV::Bool(_)) => Ok(()),
            (RN::Sub(s), RV::Sub(m)) => {
                if !s.keys().eq(m.keys()) {
                    return err(format!(
                        "keys {:?}, declared {:?}",
                        m.keys().collect::<Vec<_>>(),
                        s.keys().collect::<Vec<_>>()
                    ));
                }
                for (k, n) in s {
                    n.conf(&m[k], &format!("{at}.{k}"))?;
                }
                Ok(())
            }
            (RN::Array { vt, size }, RV::Array(a)) => {
                if a.len() as u64 != *size {
                    return err(format!("{} elements, declared {}", a.len(), size));
                }
                for (i, e) in a.iter().enumerate() {
                    vt.conf(e, &format!("{at}.{i}"))?;
                }
                Ok(())
            }
            (RN::Map { vt, min, max, .. }, RV::Map(m)) => {
                let l = m.len() as u64;
                if min.map_or(false, |b| l < b) || max.map_or(false, |b| l > b) {
                    return err(format!("map size {l} is outside [{min:?}, {max:?}]"));
                }
                for (k, e) in m {
                    vt.conf(e, &format!("{at}.{k}"))?;
                }
                Ok(())
            }
            (RN::Variant { opts, .. }, RV::Variant(k, v)) => match opts.get(k) {
                None => err(format!("undeclared variant {k}")),
                Some(n) => n.conf(v, &format!("{at}.{k}")),
            },
            (RN::Enum { values, .. }, RV::Enum(k)) => {
                if values.contains(k) {
                    Ok(())
                } else {
                    err(format!("undeclared enum value {k}"))
                }
            }
            (RN::Opt { .. }, RV::Opt(None)) => Ok(()),
            (RN::Opt { vt, .. }, RV::Opt(Some(v))) => vt.conf(v, &format!("{at}?")),
            (RN::Const, RV::Const) => Ok(()),
            (n, v) => err(format!("wrong kind of value {v:?} for {n:?}")),
        }
    }

    /// Conformance of a JSON value in the form handed to objective functions. `lenient` additionally admits
    /// what is documented for initial guesses: arrays for maps (keys 0, 1, ...), integers for reals.
    /// `lenient`: also what only might be taken as conforming (integers for reals, unusual map keys).
    pub fn conforms_json(&self, j: &J, lenient: bool) -> Result<(), String> {
        self.cj(j, "", if lenient { 2 } else { 0 })
    }

    /// What has to be accepted as a guess: either encoding of resizable maps.
    pub fn conforms_guess(&self, j: &J) -> Result<(), String> {
        self.cj(j, "", 1)
    }

    fn cj(&self, j: &J, at: &str, lenient: u8) -> Result<(), String> {
        let err = |m: String| Err(format!("at '{at}': {m}"));
        match self {
            RN::Real { min, max, .. } => match j {
                J::Number(n) => {
                    let x = n.as_f64().unwrap_or(f64::NAN);
                    if lenient < 2 && !n.is_f64() {
                        return err(format!("{n} is not written as a real"));
                    }
                    if !x.is_finite() {
                        return err(format!("{x} is not finite"));
                    }
                    if min.map_or(false, |m| x < m) || max.map_or(false, |m| x > m) {
                        return err(format!("{x} is outside [{min:?}, {max:?}]"));
                    }
                    Ok(())
                }
                _ => err(format!("{j} is not a number")),
            },
            RN::Int { min, max, .. } => match j {
                J::Number(n) if n.is_i64() => {
                    let x = n.as_i64().unwrap();
                    if min.map_or(false, |m| x < m) || max.map_or(false, |m| x > m) {
                        return err(format!("{x} is outside [{min:?}, {max:?}]"));
                    }
                    Ok(())
                }
                _ => err(format!("{j} is not an integer")),
            },
            RN::Bool { .. } => match j {
                J::Bool(_) => Ok(()),
                _ => err(format!("{j} is not a bool")),
            },
            RN::Sub(s) => match j {
                J::Object(m) => {
                    let mut ks: Vec<_> = m.keys().collect();
                    ks.sort();
                    if !s.keys().eq(ks.iter().copied()) {
                        return err(format!("keys {ks:?}, declared {:?}", s.keys().collect::<Vec<_>>()));
                    }
                    for (k, n) in s {
                        n.cj(&m[k], &format!("{at}.{k}"), lenient)?;
                    }
                    Ok(())
                }
                _ => err(format!("{j} is not an object")),
            },
            RN::Array { vt, size } => match j {
                J::Array(a) => {
                    if a.len() as u64 != *size {
                        return err(format!("{} elements, declared {}", a.len(), size));
                    }
                    for (i, e) in a.iter().enumerate() {
                        vt.cj(e, &format!("{at}.{i}"), lenient)?;
                    }
                    Ok(())
                }
                _ => err(format!("{j} is not an array")),
            },
            RN::Map { vt, min, max, .. } => {
                let mut elems: BTreeMap<usize, &J> = BTreeMap::new();
                match j {
                    J::Object(m) => {
                        for (k, e) in m {
                            match k.parse::<usize>() {
                                Ok(n) if n.to_string() == *k || lenient == 2 => {
                                    elems.insert(n, e);
                                }
                                _ => return err(format!("map key {k:?}")),
                            }
                        }
                    }
                    J::Array(a) if lenient > 0 => elems.extend(a.iter().enumerate()),
                    _ => return err(format!("{j} is not a map")),
                }
                let l = elems.len() as u64;
                if min.map_or(false, |b| l < b) || max.map_or(false, |b| l > b) {
                    return err(format!("map size {l} is outside [{min:?}, {max:?}]"));
                }
                for (k, e) in elems {
                    vt.cj(e, &format!("{at}.{k}"), lenient)?;
                }
                Ok(())
            }
            RN::Variant { opts, .. } => match j {
                J::Object(m) if m.len() == 1 => {
                    let (k, e) = m.iter().next().unwrap();
                    match opts.get(k) {
                        None => err(format!("undeclared variant {k}")),
                        Some(n) => n.cj(e, &format!("{at}.{k}"), lenient),
                    }
                }
                _ => err(format!("{j} is not a variant")),
            },
            RN::Enum { values, .. } => match j {
                J::String(s) if values.contains(s) => Ok(()),
                _ => err(format!("{j} is not a declared enum value")),
            },
            RN::Opt { vt, .. } => match j {
                J::Null => Ok(()),
                _ => vt.cj(j, &format!("{at}?"), lenient),
            },
            RN::Const => match j {
                J::Null => Ok(()),
                _ => err(format!("{j} is not null")),
            },
        }
    }

    pub fn kinds(&self, out: &mut std::collections::BTreeSet<&'static str>) {
        match self {
            RN::Real { .. } => {
                out.insert("real");
            }
            RN::Int { .. } => {
                out.insert("int");
            }
            RN::Bool { .. } => {
                out.insert("bool");
            }
            RN::Enum { .. } => {
                out.insert("enum");
            }
            RN::Const => {
                out.insert("const");
            }
            RN::Sub(m) => {
                out.insert("sub");
                m.values().for_each(|n| n.kinds(out));
            }
            RN::Variant { opts, .. } => {
                out.insert("variant");
                opts.values().for_each(|n| n.kinds(out));
            }
            RN::Array { vt, .. } => {
                out.insert("array");
                vt.kinds(out);
            }
            RN::Map { vt, .. } => {
                out.insert("anon map");
                vt.kinds(out);
            }
            RN::Opt { vt, .. } => {
                out.insert("optional");
                vt.kinds(out);
            }
        }
    }
}

fn dedup_cap(v: Vec<RV>, cap: usize) -> Vec<RV> {
    let mut out: Vec<RV> = Vec::new();
    for x in v {
        if out.len() < cap && !out.contains(&x) {
            out.push(x);
        }
    }
    out
}

impl RN {
    /// A few conforming values that differ in every respect the spec allows; the initial value is the first.
    pub fn samples(&self, cap: usize) -> Vec<RV> {
        let init = self.initial();
        let mut v = vec![init];
        match self {
            RN::Real { init, min, max, .. } => {
                v.push(RV::Real(min.unwrap_or(-7.5)));
                v.push(RV::Real(max.unwrap_or(1e10)));
                if let (Some(a), Some(b)) = (min, max) {
                    v.push(RV::Real(a + (b - a) * 0.75));
                } else {
                    let x = init + 0.125;
                    if max.map_or(true, |m| x <= m) && min.map_or(true, |m| x >= m) {
                        v.push(RV::Real(x));
                    }
                }
            }
            RN::Int { init, min, max, .. } => {
                v.push(RV::Int(min.unwrap_or(i64::MIN)));
                v.push(RV::Int(max.unwrap_or(i64::MAX)));
                for d in [1, -1] {
                    let x = init.saturating_add(d);
                    if max.map_or(true, |m| x <= m) && min.map_or(true, |m| x >= m) {
                        v.push(RV::Int(x));
                    }
                }
            }
            RN::Bool { init } => v.push(RV::Bool(!init)),
            RN::Enum { values, .. } => v.extend(values.iter().map(|s| RV::Enum(s.clone()))),
            RN::Const => (),
            RN::Sub(m) => {
                let per: Vec<(String, Vec<RV>)> =
                    m.iter().map(|(k, n)| (k.clone(), n.samples(cap))).collect();
                for shift in 0..cap * 2 {
                    v.push(RV::Sub(
                        per.iter()
                            .enumerate()
                            .map(|(i, (k, s))| (k.clone(), s[(shift + i * (1 + shift / cap)) % s.len()].clone()))
                            .collect(),
                    ));
                }
            }
            RN::Array { vt, size } => {
                let s = vt.samples(cap);
                for shift in 0..cap * 2 {
                    v.push(RV::Array(
                        (0..*size as usize)
                            .map(|i| s[(shift + i * (1 + shift / cap)) % s.len()].clone())
                            .collect(),
                    ));
                }
            }
            RN::Map { vt, init, min, max } => {
                let s = vt.samples(cap);
                let lo = min.unwrap_or(0);
                let hi = max.unwrap_or(lo.max(*init) + 1).min(lo.max(*init) + 2);
                let mk = |keys: &[usize], shift: usize| {
                    RV::Map(
                        keys.iter()
                            .enumerate()
                            .map(|(i, k)| (*k, s[(shift + i) % s.len()].clone()))
                            .collect(),
                    )
                };
                for (shift, n) in [lo, hi, *init, hi, lo, (lo + hi) / 2].iter().enumerate() {
                    let n = *n as usize;
                    let keys: Vec<usize> = match shift {
                        0 | 1 => (0..n).collect(),
                        2 => (0..n).map(|i| i * 3 + 1).collect(),
                        3 => (0..n).map(|i| n + 10 - i).collect(),
                        4 => (0..n).map(|i| i + 1).collect(),
                        _ => (0..n).map(|i| i * 7).collect(),
                    };
                    v.push(mk(&keys, shift));
                }
            }
            RN::Variant { opts, .. } => {
                let per: Vec<(&String, Vec<RV>)> = opts.iter().map(|(k, n)| (k, n.samples(cap))).collect();
                for i in 0..cap {
                    for (k, s) in &per {
                        v.push(RV::Variant((*k).clone(), Box::new(s[i % s.len()].clone())));
                    }
                }
            }
            RN::Opt { vt, .. } => {
                v.push(RV::Opt(None));
                v.extend(vt.samples(cap).into_iter().map(|x| RV::Opt(Some(Box::new(x)))));
            }
        }
        dedup_cap(v, cap)
    }

    /// A conforming value whose leaves are all different from each other and from those of other `salt`s, as far as they can be.
    pub fn spread(&self, salt: u64) -> RV {
        let mut n = salt * 997;
        self.sp(&mut n)
    }
    fn sp(&self, n: &mut u64) -> RV {
        *n += 1;
        match self {
            RN::Real { min, max, init, .. } => match (min, max) {
                (Some(a), Some(b)) => RV::Real(a + (b - a) * ((*n % 1021) as f64 / 1021.0)),
                (Some(a), None) => RV::Real(a + *n as f64),
                (None, Some(b)) => RV::Real(b - *n as f64),
                _ => RV::Real(init + *n as f64 * 0.5),
            },
            RN::Int { min, max, init, .. } => {
                let (a, b) = (min.unwrap_or(init.saturating_sub(1 << 40)), max.unwrap_or(init.saturating_add(1 << 40)));
                RV::Int(a + (*n as i128 % (b as i128 - a as i128 + 1)) as i64)
            }
            RN::Bool { .. } => RV::Bool((*n / 997 + *n) % 2 == 0),
            RN::Enum { values, .. } => RV::Enum(values[*n as usize % values.len()].clone()),
            RN::Const => RV::Const,
            RN::Sub(m) => RV::Sub(m.iter().map(|(k, x)| (k.clone(), x.sp(n))).collect()),
            RN::Array { vt, size } => RV::Array((0..*size).map(|_| vt.sp(n)).collect()),
            RN::Map { vt, init, min, max } => {
                let lo = min.unwrap_or(0);
                let hi = max.unwrap_or(lo.max(*init) + 2);
                let size = lo + *n % (hi.min(lo + 12) - lo + 1);
                let off = *n as usize % 3;
                RV::Map((0..size as usize).map(|k| (k * 2 + off, vt.sp(n))).collect())
            }
            RN::Variant { opts, .. } => {
                let (k, x) = opts.iter().nth((*n + *n / 997) as usize % opts.len()).unwrap();
                RV::Variant(k.clone(), Box::new(x.sp(n)))
            }
            RN::Opt { vt, .. } => RV::Opt(if (*n + *n / 997) % 3 == 0 { None } else { Some(Box::new(vt.sp(n))) }),
        }
    }

    /// The numbers in a value that are inside their bounds and that a step of their scale (at least 1) changes.
    pub fn loose(&self, v: &RV, path: &str, out: &mut Vec<String>) {
        match (self, v) {
            (RN::Real { scale, min, max, .. }, RV::Real(x)) => {
                if *scale >= 1.0 && x + scale != *x && x - scale != *x && min.map_or(true, |m| m < *x) && max.map_or(true, |m| m > *x) {
                    out.push(path.into());
                }
            }
            (RN::Int { scale, min, max, .. }, RV::Int(x)) => {
                if *scale >= 1.0 && x.unsigned_abs() < 1 << 50 && min.map_or(true, |m| m < *x) && max.map_or(true, |m| m > *x) {
                    out.push(path.into());
                }
            }
            (RN::Sub(m), RV::Sub(x)) => m.iter().for_each(|(k, n)| n.loose(&x[k], &format!("{path}/{k}"), out)),
            (RN::Array { vt, .. }, RV::Array(x)) => x.iter().enumerate().for_each(|(i, e)| vt.loose(e, &format!("{path}/{i}"), out)),
            (RN::Map { vt, .. }, RV::Map(x)) => x.iter().for_each(|(k, e)| vt.loose(e, &format!("{path}/{k}"), out)),
            (RN::Variant { opts, .. }, RV::Variant(k, x)) => opts[k].loose(x, &format!("{path}/{k}"), out),
            (RN::Opt { vt, .. }, RV::Opt(Some(x))) => vt.loose(x, path, out),
            _ => (),
        }
    }

    /// Steps are so small against the value that mutation cannot change it.
    fn frozen(scale: f64, x: f64) -> bool {
        scale <= 1e-200 && x.abs() >= 1e-100
    }

    /// May `b` be the result of one mutation of `a`? (Conformance is judged separately.)
    pub fn mutation_of(&self, a: &RV, b: &RV, prob_one: bool) -> Result<(), String> {
        self.mo(a, b, prob_one, "")
    }

    fn mo(&self, a: &RV, b: &RV, one: bool, at: &str) -> Result<(), String> {
        let err = |m: String| Err(format!("at '{at}': {m}"));
        match (self, a, b) {
            (RN::Real { scale, .. }, RV::Real(x), RV::Real(y)) => {
                if RN::frozen(*scale, *x) && x != y {
                    return err(format!("{x} became {y} with a scale of {scale}"));
                }
                Ok(())
            }
            (RN::Int { scale, .. }, RV::Int(x), RV::Int(y)) => {
                if *scale <= 1e-200 && x != y {
                    return err(format!("{x} became {y} with a scale of {scale}"));
                }
                Ok(())
            }
            (RN::Bool { .. }, RV::Bool(x), RV::Bool(y)) => {
                if one && x == y {
                    return err("bool not changed with mutation probability 1".into());
                }
                Ok(())
            }
            (RN::Enum { .. }, RV::Enum(x), RV::Enum(y)) => {
                if one && x == y {
                    return err("enum not changed with mutation probability 1".into());
                }
                Ok(())
            }
            (RN::Const, RV::Const, RV::Const) => Ok(()),
            (RN::Sub(s), RV::Sub(x), RV::Sub(y)) => {
                for (k, n) in s {
                    match (x.get(k), y.get(k)) {
                        (Some(p), Some(q)) => n.mo(p, q, one, &format!("{at}.{k}"))?,
                        _ => return err(format!("member {k} is missing")),
                    }
                }
                Ok(())
            }
            (RN::Array { vt, .. }, RV::Array(x), RV::Array(y)) => {
                if x.len() != y.len() {
                    return err("array length changed".into());
                }
                for i in 0..x.len() {
                    vt.mo(&x[i], &y[i], one, &format!("{at}.{i}"))?;
                }
                Ok(())
            }
            (RN::Map { vt, min, max, .. }, RV::Map(x), RV::Map(y)) => {
                let removed: Vec<_> = x.keys().filter(|k| !y.contains_key(k)).collect();
                let added: Vec<_> = y.keys().filter(|k| !x.contains_key(k)).collect();
                if removed.len() + added.len() > 1 {
                    return err(format!(
                        "map keys {:?} became {:?}",
                        x.keys().collect::<Vec<_>>(),
                        y.keys().collect::<Vec<_>>()
                    ));
                }
                let l = x.len() as u64;
                let can_grow = max.map_or(true, |m| l < m);
                let can_shrink = l > min.unwrap_or(0);
                if one && (can_grow || can_shrink) && removed.len() + added.len() != 1 {
                    return err(format!(
                        "map of size {l} (bounds [{min:?}, {max:?}]) not resized with mutation probability 1"
                    ));
                }
                for (k, p) in x {
                    if let Some(q) = y.get(k) {
                        vt.mo(p, q, one, &format!("{at}.{k}"))?;
                    }
                }
                Ok(())
            }
            (RN::Variant { opts, .. }, RV::Variant(k, p), RV::Variant(l, q)) => {
                if one && k == l {
                    return err("variant not switched with mutation probability 1".into());
                }
                let n = match opts.get(l) {
                    Some(n) => n,
                    None => return err(format!("undeclared variant {l}")),
                };
                if k == l {
                    n.mo(p, q, one, &format!("{at}.{l}"))
                } else {
                    n.mo(&n.initial(), q, one, &format!("{at}.{l} (new option)"))
                }
            }
            (RN::Opt { vt, .. }, RV::Opt(p), RV::Opt(q)) => {
                if one && p.is_some() == q.is_some() {
                    return err("optional not flipped with mutation probability 1".into());
                }
                match (p, q) {
                    (_, None) => Ok(()),
                    (Some(p), Some(q)) => vt.mo(p, q, one, &format!("{at}?")),
                    (None, Some(q)) => vt.mo(&vt.initial(), q, one, &format!("{at}? (new)")),
                }
            }
            _ => err(format!("{a:?} became {b:?}")),
        }
    }

    /// The parts that `b` has and `a` has not: each with the value it starts from.
    pub fn fresh_parts(&self, a: &RV, b: &RV, out: &mut Vec<(RV, RV)>) {
        match (self, a, b) {
            (RN::Sub(s), RV::Sub(x), RV::Sub(y)) => {
                for (k, n) in s {
                    if let (Some(p), Some(q)) = (x.get(k), y.get(k)) {
                        n.fresh_parts(p, q, out);
                    }
                }
            }
            (RN::Array { vt, .. }, RV::Array(x), RV::Array(y)) => {
                for (p, q) in x.iter().zip(y) {
                    vt.fresh_parts(p, q, out);
                }
            }
            (RN::Map { vt, .. }, RV::Map(x), RV::Map(y)) => {
                for (k, p) in x {
                    if let Some(q) = y.get(k) {
                        vt.fresh_parts(p, q, out);
                    }
                }
            }
            (RN::Variant { opts, .. }, RV::Variant(k, p), RV::Variant(l, q)) => {
                if let Some(n) = opts.get(l) {
                    if k == l {
                        n.fresh_parts(p, q, out);
                    } else {
                        out.push((n.initial(), (**q).clone()));
                    }
                }
            }
            (RN::Opt { vt, .. }, RV::Opt(p), RV::Opt(Some(q))) => match p {
                Some(p) => vt.fresh_parts(p, q, out),
                None => out.push((vt.initial(), (**q).clone())),
            },
            _ => (),
        }
    }

    /// Is everything in `child` taken from the parents at the same position?
    pub fn offspring_of(&self, parents: &[&RV], child: &RV) -> Result<(), String> {
        self.oo(parents, child, "")
    }

    fn oo(&self, ps: &[&RV], c: &RV, at: &str) -> Result<(), String> {
        let err = |m: String| Err(format!("at '{at}': {m}"));
        if ps.is_empty() {
            return err("no parent has this position".into());
        }
        match (self, c) {
            (RN::Real { .. }, RV::Real(x)) => {
                // by bits, to tell -0.0 from 0.0
                if ps.iter().any(|p| matches!(p, RV::Real(y) if y.to_bits() == x.to_bits())) {
                    Ok(())
                } else {
                    err(format!("{x} is no parent's value"))
                }
            }
            (RN::Int { .. } | RN::Bool { .. } | RN::Enum { .. } | RN::Const, c) => {
                if ps.contains(&c) {
                    Ok(())
                } else {
                    err(format!("{c:?} is no parent's value"))
                }
            }
            (RN::Sub(s), RV::Sub(m)) => {
                if !s.keys().eq(m.keys()) {
                    return err(format!("keys {:?}", m.keys().collect::<Vec<_>>()));
                }
                for (k, n) in s {
                    let sub: Vec<&RV> = ps
                        .iter()
                        .filter_map(|p| if let RV::Sub(x) = p { x.get(k) } else { None })
                        .collect();
                    n.oo(&sub, &m[k], &format!("{at}.{k}"))?;
                }
                Ok(())
            }
            (RN::Array { vt, size }, RV::Array(a)) => {
                if a.len() as u64 != *size {
                    return err("wrong array length".into());
                }
                for (i, e) in a.iter().enumerate() {
                    let sub: Vec<&RV> = ps
                        .iter()
                        .filter_map(|p| if let RV::Array(x) = p { x.get(i) } else { None })
                        .collect();
                    vt.oo(&sub, e, &format!("{at}.{i}"))?;
                }
                Ok(())
            }
            (RN::Map { vt, .. }, RV::Map(m)) => {
                for (k, e) in m {
                    let sub: Vec<&RV> = ps
                        .iter()
                        .filter_map(|p| if let RV::Map(x) = p { x.get(k) } else { None })
                        .collect();
                    vt.oo(&sub, e, &format!("{at}.{k}"))?;
                }
                Ok(())
            }
            (RN::Variant { opts, .. }, RV::Variant(k, v)) => {
                let sub: Vec<&RV> = ps
                    .iter()
                    .filter_map(|p| match p {
                        RV::Variant(l, x) if l == k => Some(&**x),
                        _ => None,
                    })
                    .collect();
                match opts.get(k) {
                    Some(n) => n.oo(&sub, v, &format!("{at}.{k}")),
                    None => err(format!("undeclared variant {k}")),
                }
            }
            (RN::Opt { vt, .. }, RV::Opt(o)) => match o {
                None => {
                    if ps.iter().any(|p| matches!(p, RV::Opt(None))) {
                        Ok(())
                    } else {
                        err("absent in no parent".into())
                    }
                }
                Some(v) => {
                    let sub: Vec<&RV> = ps
                        .iter()
                        .filter_map(|p| match p {
                            RV::Opt(Some(x)) => Some(&**x),
                            _ => None,
                        })
                        .collect();
                    vt.oo(&sub, v, &format!("{at}?"))
                }
            },
            _ => err(format!("wrong kind of value {c:?}")),
        }
    }
}

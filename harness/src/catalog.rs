//! Spec catalogue: every node kind, every kind inside every composite, deeper nests of the interesting ones.

#[derive(Clone)]
pub struct Entry {
    pub name: String,
    pub yaml: String,
}

fn indent(s: &str, by: usize) -> String {
    let pad = " ".repeat(by);
    s.lines()
        .map(|l| format!("{pad}{l}\n"))
        .collect::<Vec<_>>()
        .concat()
}

pub fn leaves() -> Vec<(&'static str, &'static str)> {
    vec![
        ("real", "type: real\ninit: 0.5\nscale: 1.0\nmin: -1.0\nmax: 2.0\n"),
        ("realu", "type: real\ninit: 0.0\nscale: 1.0e+300\n"),
        ("realmin", "type: real\ninit: 0.0\nscale: 1.0\nmin: 0.0\n"),
        ("int", "type: int\ninit: 3\nscale: 2\nmin: 0\nmax: 4\n"),
        ("intu", "type: int\ninit: 9223372036854775807\nscale: 1.0e+18\n"),
        // steps beyond what 64 bits hold
        ("inthuge", "type: int\ninit: 5\nscale: 1.0e+19\nmin: 3\n"),
        ("inthugeneg", "type: int\ninit: -5\nscale: 1.0e+19\nmax: -3\n"),
        ("inthugebox", "type: int\ninit: 5\nscale: 1.0e+300\nmin: 3\nmax: 9\n"),
        ("intmax", "type: int\ninit: -5\nscale: 1\nmax: -4\n"),
        // mutation cannot change these, so that where a value comes from stays visible
        ("frozen", "type: real\ninit: 0.5\nscale: 1.0e-300\nmin: -1.0\nmax: 2.0\n"),
        ("frozenint", "type: int\ninit: 7\nscale: 1.0e-300\nmin: 0\nmax: 50\n"),
        // bounds that a double cannot hold
        ("intbig", "type: int\ninit: 9007199254740900\nscale: 100\nmin: -9007199254740995\nmax: 9007199254740995\n"),
        ("intneg", "type: int\ninit: -9007199254740990\nscale: 10\nmin: -9007199254740993\n"),
        ("inttop", "type: int\ninit: 9223372036854775803\nscale: 3\nmin: 9223372036854775801\nmax: 9223372036854775805\n"),
        ("intbot", "type: int\ninit: -9223372036854775803\nscale: 3\nmin: -9223372036854775805\nmax: -9223372036854775801\n"),
        // hardly any room
        ("realulp", "type: real\ninit: 1.0\nscale: 1.0\nmin: 1.0\nmax: 1.0000000000000002\n"),
        ("realsub", "type: real\ninit: 5.0e-324\nscale: 1.0e-300\nmin: 5.0e-324\nmax: 1.5e-323\n"),
        ("realmax", "type: real\ninit: 1.7e+308\nscale: 1.7e+308\n"),
        ("bool", "type: bool\ninit: false\n"),
        ("enum2", "type: enum\nvalues: [a, b]\ninit: b\n"),
        ("enum3", "type: enum\nvalues: [a, b, c]\ninit: a\n"),
        ("const", "type: const\n"),
    ]
}

pub fn wrap_sub1(inner: &str) -> String {
    format!("x:\n{}", indent(inner, 2))
}
pub fn wrap_sub2(a: &str, b: &str) -> String {
    format!("x:\n{}'y':\n{}", indent(a, 2), indent(b, 2))
}
pub fn wrap_array(inner: &str, size: usize) -> String {
    format!("type: array\nsize: {size}\nvalueType:\n{}", indent(inner, 2))
}
pub fn wrap_map(inner: &str, init: usize, min: Option<usize>, max: Option<usize>) -> String {
    let mut s = format!("type: anon map\ninitSize: {init}\n");
    if let Some(m) = min {
        s += &format!("minSize: {m}\n");
    }
    if let Some(m) = max {
        s += &format!("maxSize: {m}\n");
    }
    s + &format!("valueType:\n{}", indent(inner, 2))
}
pub fn wrap_opt(inner: &str, present: bool) -> String {
    format!("type: optional\ninitPresent: {present}\nvalueType:\n{}", indent(inner, 2))
}
pub fn wrap_variant(a: &str, b: &str, init: &str) -> String {
    format!("type: variant\ninit: {init}\nvarA:\n{}varB:\n{}", indent(a, 2), indent(b, 2))
}

/// All composites of the given inner spec.
pub fn composites(name: &str, inner: &str) -> Vec<Entry> {
    let b = "type: bool\ninit: true\n";
    let e = |n: &str, y: String| Entry {
        name: format!("{n}({name})"),
        yaml: y,
    };
    vec![
        e("sub", wrap_sub2(inner, b)),
        e("array2", wrap_array(inner, 2)),
        e("map0", wrap_map(inner, 0, None, None)),
        e("map1..3", wrap_map(inner, 2, Some(1), Some(3))),
        e("map0..1", wrap_map(inner, 0, Some(0), Some(1))),
        e("map2..", wrap_map(inner, 2, Some(2), None)),
        e("map..2", wrap_map(inner, 2, None, Some(2))),
        e("map..1", wrap_map(inner, 1, None, Some(1))),
        e("opt+", wrap_opt(inner, true)),
        e("opt-", wrap_opt(inner, false)),
        e("variantA", wrap_variant(inner, b, "varA")),
        e("variantB", wrap_variant(inner, b, "varB")),
    ]
}

/// Maps with more elements, at and near their bounds.
pub fn big_maps() -> Vec<Entry> {
    let c = "type: const\n";
    let f = "type: int\ninit: 7\nscale: 1.0e-300\nmin: 0\nmax: 50\n";
    let mut v = Vec::new();
    for (init, min, max) in [
        (9, Some(9), Some(12)),
        (12, Some(9), Some(12)),
        (20, None, Some(20)),
        (20, Some(20), None),
        (33, Some(32), Some(34)),
        (64, None, None),
        (130, Some(130), Some(131)),
        (5, Some(5), Some(6)),
        (300, None, Some(300)),
    ] {
        for (n, y) in [("const", c), ("frozenint", f)] {
            if n == "const" || init <= 20 {
                v.push(Entry {
                    name: format!("map {init} in {min:?}..{max:?} ({n})"),
                    yaml: wrap_map(y, init, min, max),
                });
            }
        }
    }
    v
}

/// Specs with many elements, members, options or words.
pub fn wide(th: bool) -> Vec<Entry> {
    let fi = "type: int\ninit: 7\nscale: 1.0e-300\nmin: 0\nmax: 1000000\n";
    let b = "type: bool\ninit: false\n";
    let mut v = Vec::new();
    let mut e = |name: String, yaml: String| v.push(Entry { name, yaml });
    let sizes: &[usize] = if th { &[3, 5, 9, 17, 33, 40, 70, 130, 260] } else { &[3, 9, 17, 40, 70] };
    for &n in sizes {
        e(format!("array of {n} ints"), wrap_array(fi, n));
        e(format!("array of {n} bools"), wrap_array(b, n));
        e(format!("sub of {n} ints"), (0..n).map(|i| format!("m{i}: {{type: int, init: {i}, scale: 1.0e-300, min: 0, max: 1000000}}\n")).collect());
        e(
            format!("sub of {n} of all kinds"),
            (0..n)
                .map(|i| match i % 5 {
                    0 => format!("m{i}: {{type: bool, init: true}}\n"),
                    1 => format!("m{i}: {{type: int, init: {}, scale: 1, min: {}, max: {}}}\n", i * 10, i * 10, i * 10 + 9),
                    2 => format!("m{i}: {{type: enum, init: w{i}, values: [v{i}, w{i}]}}\n"),
                    3 => format!("m{i}: {{type: optional, initPresent: false, valueType: {{type: int, init: {}, scale: 1.0e-300, min: {}, max: {}}}}}\n", i * 10, i * 10, i * 10 + 9),
                    _ => format!("m{i}: {{type: real, init: {i}.5, scale: 1.0, min: {i}.0, max: {i}.75}}\n"),
                })
                .collect(),
        );
        e(format!("enum of {n} words"), format!("type: enum\ninit: w{}\nvalues: [{}]\n", n / 2, (0..n).map(|i| format!("w{i}")).collect::<Vec<_>>().join(", ")));
        e(
            format!("variant of {n} ints"),
            format!("type: variant\ninit: o{}\n", n / 2) + &(0..n).map(|i| format!("o{i}: {{type: int, init: {}, scale: 1.0e-300, min: {}, max: {}}}\n", i * 10 + 5, i * 10, i * 10 + 9)).collect::<String>(),
        );
    }
    e("array of 20 pairs".into(), wrap_array(&wrap_sub2(fi, b), 20));
    e("array of 12 optionals".into(), wrap_array(&wrap_opt(fi, false), 12));
    e("array of 12 variants".into(), wrap_array(&wrap_variant(fi, b, "varB"), 12));
    e("array of 6 maps".into(), wrap_array(&wrap_map(fi, 2, Some(1), Some(3)), 6));
    e("array of 6 arrays of 6".into(), wrap_array(&wrap_array(fi, 6), 6));
    e("map of 5 arrays of 9".into(), wrap_map(&wrap_array(fi, 9), 5, Some(5), Some(7)));
    v
}

/// Variants whose options look alike, so that only the declared initial values tell them apart.
pub fn alike() -> Vec<Entry> {
    let fr = |i: &str| format!("type: real\ninit: {i}\nscale: 1.0e-300\nmin: -1.0\nmax: 2.0\n");
    let fi = |i: &str| format!("type: int\ninit: {i}\nscale: 1.0e-300\nmin: 0\nmax: 50\n");
    let v3 = |name: &str, init: &str, a: String, b: String, c: String| Entry {
        name: name.into(),
        yaml: format!(
            "type: variant\ninit: {init}\noptA:\n{}optB:\n{}optC:\n{}",
            indent(&a, 2),
            indent(&b, 2),
            indent(&c, 2)
        ),
    };
    let sub = |i: &str| format!("p:\n{}q:\n{}", indent(&fr(i), 2), indent(&fi("3"), 2));
    let map = |n: usize, i: &str| wrap_map(&fi(i), n, None, Some(9));
    let opt = |i: &str, p: bool| wrap_opt(&fr(i), p);
    let mut v = vec![
        v3("variant of equal reals", "optA", fr("0.5"), fr("0.5"), fr("0.5")),
        v3("variant of like reals", "optB", fr("0.5"), fr("-0.5"), fr("0.25")),
        v3("variant of like ints", "optC", fi("1"), fi("2"), fi("2")),
        v3("variant of like subs", "optA", sub("0.5"), sub("0.5"), sub("1.5")),
        v3("variant of like maps", "optA", map(4, "7"), map(1, "7"), map(4, "8")),
        v3("variant of like optionals", "optB", opt("0.5", true), opt("0.5", true), opt("0.5", false)),
        v3("variant of like arrays", "optB", wrap_array(&fr("0.5"), 2), wrap_array(&fr("0.5"), 2), wrap_array(&fr("1.5"), 3)),
        v3(
            "variant of like variants",
            "optA",
            wrap_variant(&fr("0.5"), &fr("0.5"), "varA"),
            wrap_variant(&fr("0.5"), &fr("0.5"), "varB"),
            wrap_variant(&fr("1.5"), &fr("0.5"), "varA"),
        ),
    ];
    for (n, y) in [("real", fr("0.5")), ("sub", sub("0.5")), ("map", map(3, "7")), ("array", wrap_array(&fr("0.5"), 2))] {
        v.push(Entry {
            name: format!("optional of a frozen {n}"),
            yaml: wrap_opt(&y, false),
        });
        v.push(Entry {
            name: format!("map of optionals of a frozen {n}"),
            yaml: wrap_map(&wrap_opt(&y, true), 2, Some(1), Some(3)),
        });
    }
    v
}

/// Variants and enums whose options have nothing in common, so that a part that strays is out of place.
pub fn disjoint() -> Vec<Entry> {
    let int = |a: i64, b: i64| format!("type: int\ninit: {a}\nscale: 1\nmin: {a}\nmax: {b}\n");
    let real = |a: f64, b: f64| format!("type: real\ninit: {a:?}\nscale: 1.0\nmin: {a:?}\nmax: {b:?}\n");
    let en = |a: &str| format!("type: enum\nvalues: [{a}1, {a}2]\ninit: {a}1\n");
    let map = |a: usize, i: String| wrap_map(&i, a, Some(a), Some(a + 1));
    let name = |k: usize| format!("opt{}", (b'A' + k as u8) as char);
    let variant = |opts: &[String], init: usize| {
        format!("type: variant\ninit: {}\n", name(init))
            + &opts.iter().enumerate().map(|(k, o)| format!("{}:\n{}", name(k), indent(o, 2))).collect::<String>()
    };
    let kinds: Vec<(&str, Vec<String>)> = vec![
        ("ints", vec![int(0, 9), int(20, 29), int(-40, -31), int(100, 102)]),
        ("reals", vec![real(0.0, 0.5), real(2.0, 2.5), real(-4.0, -3.5), real(10.0, 10.25)]),
        ("enums", vec![en("a"), en("b"), en("c"), en("d")]),
        ("maps", vec![map(0, int(0, 9)), map(3, int(20, 29)), map(6, int(40, 49)), map(9, int(0, 9))]),
        ("arrays", vec![wrap_array(&int(0, 9), 2), wrap_array(&int(20, 29), 3), wrap_array(&int(40, 49), 4), wrap_array(&int(0, 9), 5)]),
        ("subs", vec![wrap_sub2(&int(0, 9), &int(20, 29)), wrap_sub2(&int(20, 29), &int(0, 9)), wrap_sub1(&int(40, 49)), wrap_sub2(&real(0.0, 0.5), &en("a"))]),
        ("optionals", vec![wrap_opt(&int(0, 9), true), wrap_opt(&int(20, 29), true), wrap_opt(&int(40, 49), false), wrap_opt(&real(0.0, 0.5), true)]),
        (
            "variants",
            vec![
                variant(&[int(0, 9), int(20, 29)], 0),
                variant(&[int(40, 49), int(60, 69)], 1),
                variant(&[int(80, 89), real(0.0, 0.5), en("a")], 2),
                variant(&[en("b"), int(0, 9)], 0),
            ],
        ),
        ("kinds", vec![int(3, 9), real(20.0, 29.0), en("a"), map(2, int(40, 49))]),
    ];
    let mut v = Vec::new();
    for (n, opts) in kinds {
        for cnt in [3, 4] {
            let y = variant(&opts[..cnt], cnt - 2);
            v.push(Entry {
                name: format!("variant of {cnt} disjoint {n}"),
                yaml: y.clone(),
            });
            if cnt == 3 {
                v.push(Entry {
                    name: format!("map of variants of {cnt} disjoint {n}"),
                    yaml: wrap_map(&y, 2, Some(1), Some(3)),
                });
                v.push(Entry {
                    name: format!("optional variant of {cnt} disjoint {n}"),
                    yaml: wrap_opt(&y, false),
                });
            }
        }
    }
    v
}

/// Chains of composites, `depth` deep, around a leaf.
pub fn deep(depth: usize) -> Vec<Entry> {
    let b = "type: bool\ninit: true\n";
    let mut v: Vec<Entry> = [
        ("int", "type: int\ninit: 3\nscale: 2\nmin: 0\nmax: 4\n".to_string()),
        ("opt-", wrap_opt("type: int\ninit: 3\nscale: 2\nmin: 0\nmax: 4\n", false)),
        ("map", wrap_map("type: bool\ninit: false\n", 1, None, Some(2))),
        ("enum", "type: enum\nvalues: [a, b]\ninit: b\n".into()),
        ("pair", wrap_sub2("type: real\ninit: 1.0\nscale: 1.0\n", &wrap_opt("type: bool\ninit: true\n", true))),
    ]
    .into_iter()
    .map(|(n, y)| Entry {
        name: n.into(),
        yaml: y,
    })
    .collect();
    for _ in 0..depth {
        v = v
            .iter()
            .flat_map(|e| {
                [
                    ("sub", wrap_sub1(&e.yaml)),
                    ("array", wrap_array(&e.yaml, 2)),
                    ("map", wrap_map(&e.yaml, 1, Some(1), None)),
                    ("opt", wrap_opt(&e.yaml, true)),
                    ("variant", wrap_variant(b, &e.yaml, "varB")),
                ]
                .map(|(n, y)| Entry {
                    name: format!("{n}({})", e.name),
                    yaml: y,
                })
            })
            .collect();
    }
    v
}

/// Names that something might trim, fold, quote, split or take for something else.
pub const NAMES: &[&str] = &[
    "a", "", " ", " a", "a ", "a\n", "\na", "\n", "\ta", "a b", "a.b", "A", "ä", "a\u{301}", "😀", "~", "null", "true", "0", "00", "1", "-1", "1.5", "1e3", "\"", "'", "\\", "\\n", "/",
    "{a}", "[a]", "a: b", "#a", "&a", "*a", "!a", "|", "typeDef", "typeDefs", "typeDef\ta", "typedef a", "Type", "init ", "Init", "values", "\u{0}", "\u{7f}", "\u{a0}", "\u{feff}a", "\r\n", "\u{2028}",
    "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa",
];

fn quoted(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

/// A spec in which `a` and `b` stand where names may stand. Roles are 0 to `ROLES`-1.
pub const ROLES: usize = 9;
pub fn named(role: usize, a: &str, b: &str) -> String {
    let (a, b) = (quoted(a), quoted(b));
    match role {
        0 => format!("type: enum\nvalues: [{a}, {b}, zz]\ninit: {a}\n"),
        1 => format!("type: enum\nvalues: [{a}, zz]\ninit: {b}\n"),
        2 => format!("{a}: {{type: int, init: 1, scale: 1}}\n{b}: {{type: bool, init: true}}\n"),
        3 => format!("type: variant\ninit: {a}\n{a}: {{type: int, init: 1, scale: 1}}\n{b}: {{type: bool, init: true}}\n"),
        4 => format!("type: variant\ninit: {b}\n{a}: {{type: int, init: 1, scale: 1}}\nzz: {{type: bool, init: true}}\n"),
        5 => format!(
            "{}: {{type: int, init: 1, scale: 1}}\nx: {{type: {b}}}\n",
            quoted(&format!("typeDef {}", serde_json::from_str::<String>(&a).unwrap()))
        ),
        6 => format!("x: {{{a}: {{type: enum, values: [{b}, zz], init: {b}}}}}\n"),
        7 => format!("type: optional\ninitPresent: true\nvalueType: {{type: variant, init: zz, {a}: {{type: enum, values: [{b}, zz], init: zz}}, zz: {{{b}: {{type: const}}}}}}\n"),
        _ => format!("type: {a}\n{b}: {{type: const}}\n"),
    }
}

/// Those of the above that are specs.
pub fn names() -> Vec<Entry> {
    let mut v = Vec::new();
    for role in 0..ROLES {
        for (i, a) in NAMES.iter().enumerate() {
            for b in [NAMES[0], NAMES[(i + 1) % NAMES.len()], *a] {
                let yaml = named(role, a, b);
                if crate::refspec::parse_str(&yaml).is_ok() {
                    v.push(Entry { name: format!("names {role} {a:?} {b:?}"), yaml });
                }
            }
        }
    }
    v
}

/// Leaves.
pub fn depth1() -> Vec<Entry> {
    leaves()
        .into_iter()
        .map(|(n, y)| Entry {
            name: n.into(),
            yaml: y.into(),
        })
        .collect()
}

/// Every composite over a few leaves.
pub fn depth2() -> Vec<Entry> {
    let mut v = Vec::new();
    for (n, y) in leaves() {
        if ["real", "int", "bool", "enum3", "const", "realu", "frozen", "frozenint"].contains(&n) {
            v.extend(composites(n, y));
        }
    }
    v
}

/// Every composite of every composite over a bool or an int.
pub fn depth3() -> Vec<Entry> {
    let mut v = Vec::new();
    for (n, y) in leaves() {
        if ["int", "bool", "frozenint"].contains(&n) {
            for c in composites(n, y) {
                v.extend(composites(&c.name, &c.yaml));
            }
        }
    }
    v
}

/// A few specs that combine many kinds, as users write them.
pub fn mixed() -> Vec<Entry> {
    let e = |n: &str, y: &str| Entry {
        name: n.into(),
        yaml: y.into(),
    };
    vec![
        e(
            "mixed-all",
            "r: {type: real, init: 0.5, scale: 1.0, min: -1.0, max: 2.0}\n\
             i: {type: int, init: 3, scale: 2, min: 0, max: 4}\n\
             b: {type: bool, init: false}\n\
             e: {type: enum, values: [a, b, c], init: a}\n\
             c: {type: const}\n\
             o: {type: optional, initPresent: false, valueType: {type: int, init: 1, scale: 1, min: 0, max: 9}}\n\
             v:\n  type: variant\n  init: varA\n  varA: {type: bool, init: true}\n  varB: {p: {type: real, init: 1.0, scale: 1.0}, q: {type: bool, init: true}}\n\
             a: {type: array, size: 2, valueType: {type: bool, init: false}}\n\
             m: {type: anon map, initSize: 2, minSize: 1, maxSize: 4, valueType: {type: int, init: 0, scale: 5, min: -20, max: 20}}\n",
        ),
        e(
            "map-in-variant-in-opt",
            "type: optional\ninitPresent: false\nvalueType:\n  type: variant\n  init: varB\n  varA: {type: anon map, initSize: 2, minSize: 1, maxSize: 3, valueType: {type: bool, init: false}}\n  varB: {type: anon map, initSize: 1, minSize: 1, maxSize: 2, valueType: {type: int, init: 0, scale: 1}}\n",
        ),
        e(
            "map-of-map",
            "type: anon map\ninitSize: 1\nminSize: 1\nmaxSize: 3\nvalueType:\n  type: anon map\n  initSize: 1\n  minSize: 0\n  maxSize: 2\n  valueType: {type: real, init: 0.0, scale: 1.0, min: -3.0, max: 3.0}\n",
        ),
        e(
            "typedefs",
            "typeDef t: {type: real, init: 0.0, scale: 1.0, min: -1.0, max: 1.0}\ntypeDef l: {type: array, size: 3, valueType: {type: t}}\nfirst: {type: l}\nsecond:\n  typeDef t: {type: int, init: 1, scale: 1, min: 0, max: 2}\n  third: {type: t}\n  fourth: {type: anon map, initSize: 1, maxSize: 3, valueType: {type: t}}\n",
        ),
        e(
            "array-of-sub",
            "type: array\nsize: 3\nvalueType:\n  k: {type: enum, values: [u, v], init: u}\n  o: {type: optional, initPresent: true, valueType: {type: array, size: 2, valueType: {type: int, init: 0, scale: 1, min: -2, max: 2}}}\n",
        ),
    ]
}

pub fn all() -> Vec<Entry> {
    let mut v = depth1();
    v.extend(depth2());
    v.extend(depth3());
    v.extend(mixed());
    v.extend(disjoint());
    v
}

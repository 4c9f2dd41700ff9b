//! One parse: grammar, start symbol, input -> the sequence of trees returned.
use crate::g::*;
use crate::ggen;
use crate::rng::R;
use serde_json::{Value, json};

pub const LIMIT: usize = 300;

pub fn make(r: &mut R, k: u64, tier: &str) -> Value {
    loop {
        let mut g = ggen::parse_grammar(r);
        let mut entry = *r.pick(&["default", "explicit", "explicit", "deprecated", "deprecated_start", "default"]);
        let mut near: Option<String> = None;
        // undefined names are only accepted by the deprecated entry points
        if r.p(6) {
            let i = r.n(g.len());
            if !g[i].1.is_empty() {
                let a = r.n(g[i].1.len());
                g[i].1[a].push(n("nowhere"));
                entry = *r.pick(&["deprecated", "deprecated_start"]);
            }
        }
        if cyclic(&g) {
            continue;
        }
        let start: T = if entry == "default" || entry == "deprecated" {
            g[0].0.clone()
        } else if r.p(8) {
            // start symbols without productions, some close to one that has them
            let T::N(x) = g[r.n(g.len())].0.clone() else { continue };
            near = Some(x.clone());
            let v = r.pick(&[n("nosuch"), t("a"), t(""), n(""), t(&x), t(&x), t(&x), n(&format!("{x} ")), n(&format!(" {x}")), n(&format!("<{x}>")), n(&x.to_uppercase()), t(&format!("<{x}>"))]).clone();
            if g.iter().any(|p| p.0 == v) { continue }
            v
        } else {
            g[r.n(g.len())].0.clone()
        };
        let sname = match &start {
            T::N(s) => s.clone(),
            T::T(s) => format!("\u{1}{s}"),
        };
        // how many derivations this case should have
        let want: u64 = *r.pick(&[0, 0, 1, 1, 1, 2, 2, 2, 3, 6]);
        for _ in 0..8 {
            let long = r.p(10);
            let like = near.as_ref().unwrap_or(&sname);
            let w = ggen::input(r, &g, like, long);
            let (c, work) = count(&g, like, &w);
            if c < want {
                continue;
            }
            // prediction happens at every offset reached, so bound the work of every span
            if c <= LIMIT as u64 && work <= 6000 {
                if long && c > 6 {
                    continue;
                }
                return json!({"g": gj(&g), "start": tj(&start), "input": w, "entry": entry, "limit": LIMIT + 5});
            }
        }
    }
}

pub fn make_cyclic(r: &mut R, k: u64, tier: &str) -> Value {
    loop {
        let mut g = ggen::cyclic_grammar(r);
        if !cyclic(&g) {
            continue;
        }
        if r.p(20) {
            ggen::split(r, &mut g);
        }
        let entry = *r.pick(&["default", "explicit", "deprecated"]);
        let start = if entry == "explicit" { g[r.n(g.len())].0.clone() } else { g[0].0.clone() };
        let T::N(sname) = &start else { continue };
        for _ in 0..6 {
            let b = r.r(0, 4);
            let w = if r.p(80) {
                let Some(w) = sentence(r, &g, sname, b) else { continue };
                w
            } else {
                ggen::input(r, &g, sname, false)
            };
            if w.chars().count() > 6 {
                continue;
            }
            let many = r.p(8);
            let k = if many { r.r(15, 100) } else { r.r(1, 14) };
            if agenda_steps(&g, sname, &w, k, if many { 12000 } else { 4000 }).is_none() {
                continue;
            }
            return json!({"g": gj(&g), "start": tj(&start), "input": w, "entry": entry, "limit": k});
        }
    }
}

fn collect<'a>(it: impl Iterator<Item = bnf::ParseTree<'a>>, limit: usize, en: Enlarge) -> Value {
    let mut trees = vec![];
    let mut ended = false;
    let mut it = it;
    let mut ends = 0;
    while trees.len() < limit {
        match it.next() {
            Some(x) => trees.push(en.tree(&x)),
            None => {
                // the end stays the end
                ends += 1;
                if ends == 3 {
                    ended = true;
                    break;
                }
            }
        }
    }
    json!({"built": true, "trees": trees, "ended": ended})
}

pub fn run(c: &Value) -> Value {
    let en = Enlarge::of(c);
    let g = en.gram(&gfrom(&c["g"]));
    let bg = gb(&g);
    let start = tb(&en.term(&tfrom(&c["start"])));
    let w = en.text(c["input"].as_str().unwrap());
    let limit = c["limit"].as_u64().unwrap() as usize;
    one(&bg, &start, &w, c["entry"].as_str().unwrap(), limit, en)
}

#[allow(deprecated)]
pub fn one(bg: &bnf::Grammar, start: &bnf::Term, w: &str, entry: &str, limit: usize, en: Enlarge) -> Value {
    match entry {
        "deprecated" => return collect(bg.parse_input(w), limit, en),
        "deprecated_start" => return collect(bg.parse_input_starting_with(w, start), limit, en),
        _ => {}
    }
    match bg.build_parser() {
        Err(e) => json!({"built": false, "error": e.to_string(), "trees": [], "ended": false}),
        Ok(p) => match entry {
            "default" => collect(p.parse_input(w), limit, en),
            _ => collect(p.parse_input_starting_with(w, start), limit, en),
        },
    }
}

// ------------------------------------------------------------ large cases
fn word(r: &mut R, k: usize) -> String {
    let th = *r.pick(&[&["a", "b"][..], &["x", "y", "z"], &["é", "a"], &["表", "情", "q"], &["0", "1"]]);
    let mut s = String::new();
    while s.chars().count() < k {
        s.push_str(r.pick(th));
    }
    s
}
/// change one character of w, most often near its end
fn nick(r: &mut R, w: &str) -> String {
    let mut cs: Vec<char> = w.chars().collect();
    let i = if cs.is_empty() || r.p(30) { r.n(cs.len().max(1)) } else { cs.len() - 1 - r.n(cs.len().min(3)) };
    match r.n(4) {
        0 => cs.insert(i.min(cs.len()), 'a'),
        1 if !cs.is_empty() => {
            cs.remove(i);
        }
        2 => cs.push(*r.pick(&['a', 'b', '!'])),
        _ if !cs.is_empty() => cs[i] = *r.pick(&['#', 'a', 'b', 'é']),
        _ => {}
    }
    cs.into_iter().collect()
}
fn nth(i: usize) -> String {
    format!("n{i}")
}
/// A small case made large without changing its derivations: longer names, longer terminals
/// (character by character, so that lengths add up), unused productions, alternatives that
/// match nothing.
fn inflate(r: &mut R, k: u64, tier: &str) -> Value {
    loop {
        let c = make(r, k, tier);
        let mut g = gfrom(&c["g"]);
        let w = c["input"].as_str().unwrap();
        let reps = if r.p(50) { *r.pick(&[2, 9, 17, 33, 70]) } else { 1 };
        if w.chars().count() * reps > 150 {
            continue;
        }
        let big = |s: &str| -> String { s.chars().map(|c| c.to_string().repeat(reps)).collect() };
        let pre = if r.p(40) { "n".repeat(*r.pick(&[15, 31, 63, 200])) } else { String::new() };
        let nm = |s: &str| format!("{pre}{s}");
        let map = |x: &T| match x {
            T::T(s) => T::T(big(s)),
            T::N(s) => T::N(nm(s)),
        };
        let mut start = map(&tfrom(&c["start"]));
        for p in g.iter_mut() {
            p.0 = map(&p.0);
            for a in p.1.iter_mut() {
                *a = a.iter().map(map).collect();
            }
        }
        if r.p(50) {
            // alternatives that match nothing, in front or behind
            let m = *r.pick(&[5, 16, 33, 66, 130]);
            let j = r.n(g.len());
            let front = r.p(60);
            for i in 0..m {
                let a = vec![t(&format!("\u{1}{i}")), n(&nm("s"))];
                let a = if r.p(50) { a } else { vec![t(&format!("\u{1}{i}"))] };
                if a.len() > 1 && !g.iter().any(|p| p.0 == a[1]) {
                    g[j].1.push(vec![a[0].clone()]);
                } else if front {
                    g[j].1.insert(0, a);
                } else {
                    g[j].1.push(a);
                }
            }
        }
        if r.p(50) {
            // productions that are never reached, before and after
            let m = *r.pick(&[10, 31, 64, 100]);
            let fixed = matches!(c["entry"].as_str(), Some("default" | "deprecated"));
            for i in 0..m {
                let p = (n(&format!("pad{i}")), vec![vec![t("q")], vec![n(&format!("pad{}", (i + 1) % m)), t("q")]]);
                let at = r.r(if fixed { 1 } else { 0 }, g.len());
                g.insert(at, p);
            }
            if fixed {
                start = g[0].0.clone();
            }
        }
        return json!({"g": gj(&g), "start": tj(&start), "input": big(w), "entry": c["entry"], "limit": LIMIT + 5});
    }
}
/// Executed with very long input, or with very many items that come to nothing.
pub fn enlarge(r: &mut R, c: &mut Value) {
    let longest = match &c["inputs"] {
        Value::Array(a) => a.iter().map(|w| w.as_str().unwrap().chars().count()).max().unwrap_or(0),
        _ => c["input"].as_str().unwrap().chars().count(),
    };
    if r.p(65) {
        // offsets that differ by multiples of powers of two, up to 2^16 and past it
        let far = 70_000 / longest.max(1) + 1;
        let pow = 65536 >> r.n(6);
        let most = (1 << 19) / longest.max(1) + 1;
        let scale = (*r.pick(&[3, 64, 100, 128, 256, 300, 3000, far, far, pow, pow, pow])).min(most);
        c["scale"] = json!(scale);
    }
    if c.get("scale").is_none() || r.p(30) {
        let names = c["g"].as_array().unwrap().len();
        let far = 70_000 / (names * (longest + 1)) + 1;
        let most = *r.pick(&[1, 1, 2, 3]) * far;
        c["dead"] = json!((*r.pick(&[40, 300, 1000, most, most])).min(most));
    }
}
/// Ordinary cases executed enlarged.
pub fn make_far(r: &mut R, k: u64, tier: &str) -> Value {
    loop {
        let mut c = make(r, k, tier);
        if c["input"].as_str().unwrap().chars().count() > 40 {
            continue;
        }
        enlarge(r, &mut c);
        return c;
    }
}
pub fn make_cyclic_far(r: &mut R, k: u64, tier: &str) -> Value {
    let mut c = make_cyclic(r, k, tier);
    enlarge(r, &mut c);
    c
}

// ------------------------------------------------------------ long runs
/// Acyclic grammars with thousands of derivations.
pub fn make_long(r: &mut R, k: u64, tier: &str) -> Value {
    let big = tier == "thorough";
    let (g, w): (Gram, String) = match k % 6 {
        0 => {
            let m = if big { r.r(8, 15) } else { r.r(8, 14) };
            (vec![(n("s"), vec![vec![n("e"); m]]), (n("e"), vec![vec![t("")], vec![n("f")]]), (n("f"), vec![vec![t("")]])], "".into())
        }
        1 => {
            let m = r.r(8, 11);
            (vec![(n("s"), vec![vec![n("s"), n("s")], vec![t("a")]])], "a".repeat(m))
        }
        2 => {
            let m = r.r(6, 10);
            let mut w = "1".to_string();
            for _ in 0..m {
                w.push_str(r.pick(&["+1", "*1"]));
            }
            (vec![(n("s"), vec![vec![n("s"), t("+"), n("s")], vec![n("s"), t("*"), n("s")], vec![t("1")]])], w)
        }
        3 => {
            let q = r.r(3, 10);
            let m = (10_000f64.ln() / (q as f64).ln()).floor() as usize;
            let mut g: Gram = vec![(n("s"), vec![vec![n("d"); m]])];
            g.push((n("d"), (0..q).map(|i| vec![n(&nth(i))]).collect()));
            for i in 0..q {
                g.push((n(&nth(i)), vec![vec![t("x")]]));
            }
            (g, "x".repeat(m))
        }
        4 => {
            // many alternatives that all match: 'x' among two kinds of nothing
            let q = *r.pick(&[33, 65, 130, 300]);
            let mut g: Gram = vec![(n("s"), vec![vec![n("d"), t("y")], vec![n("d"), t("y"), n("d"), t("y")]])];
            let alt = |i: usize| -> Alt {
                let mut a: Alt = (0..9).filter(|b| i >> b != 0).map(|b| n(if i >> b & 1 == 1 { "f" } else { "o" })).collect();
                a.push(t("x"));
                a
            };
            g.push((n("d"), (0..q).map(alt).collect()));
            g.push((n("f"), vec![vec![t("")]]));
            g.push((n("o"), vec![vec![t("")]]));
            (g, if q < 150 && r.p(70) { "xyxy" } else { "xy" }.into())
        }
        // words split in every way
        _ => {
            let m = r.r(8, if big { 15 } else { 13 });
            (
                vec![
                    (n("s"), vec![vec![n("x"), n("s")], vec![n("x")]]),
                    (n("x"), vec![vec![t("a")], vec![t("a"), n("x")]]),
                ],
                "a".repeat(m),
            )
        }
    };
    let mut g = g;
    if r.p(15) {
        ggen::split(r, &mut g);
    }
    let entry = *r.pick(&["default", "explicit", "deprecated", "deprecated_start"]);
    let limit = if r.p(70) { 40_000 } else { *r.pick(&[255, 256, 257, 1000, 4096, 4097]) };
    json!({"g": gj(&g), "start": tj(&g[0].0), "input": w, "entry": entry, "limit": limit, "salt": r.n(1 << 20)})
}
/// Infinitely ambiguous parses asked for thousands of trees.
pub fn make_cyclic_long(r: &mut R, k: u64, tier: &str) -> Value {
    loop {
        let e = || n("e");
        let s = || n("s");
        let (g, w): (Gram, &str) = match r.n(7) {
            0 => (
                vec![(s(), vec![vec![e(), s()], vec![t("a")]]), (e(), vec![vec![t("")], vec![n("f")]]), (n("f"), vec![vec![t("")]])],
                "a",
            ),
            1 => (vec![(s(), vec![vec![s(), s()], vec![t("x")], vec![t("")]])], *r.pick(&["", "x", "xx"])),
            2 => (vec![(s(), vec![vec![s()], vec![t("x")]])], "x"),
            3 => (
                vec![(s(), vec![vec![n("a")], vec![n("b")], vec![t("x")]]), (n("a"), vec![vec![s()]]), (n("b"), vec![vec![s()], vec![t("x")]])],
                "x",
            ),
            4 => (vec![(s(), vec![vec![s(), e()], vec![t("x")]]), (e(), vec![vec![t("")], vec![n("f")], vec![t("x")]]), (n("f"), vec![vec![t("")]])], *r.pick(&["x", "xx"])),
            5 => (vec![(s(), vec![vec![t("x"), s()], vec![s()], vec![t("y")]])], *r.pick(&["y", "xy", "xxy"])),
            _ => {
                let g = ggen::cyclic_grammar(r);
                if !cyclic(&g) {
                    continue;
                }
                let T::N(a) = &g[0].0 else { continue };
                let Some(w) = sentence(r, &g, a, 3) else { continue };
                if w.chars().count() > 4 {
                    continue;
                }
                (g, &*w.leak())
            }
        };
        let T::N(a) = &g[0].0 else { continue };
        let mut limit = *r.pick(&[1100, 2100, 4100, 5000, 9000, 20000]);
        let unit = g.len() == 1 && g[0].1.iter().all(|a| a.len() < 2 || a[0] == t("x"));
        if k % 3 != 0 || unit {
            limit = limit.min(5000);
        }
        while limit > 500 && agenda_steps(&g, a, w, limit, 6 * limit + 20_000).is_none() {
            limit /= 2;
        }
        if limit <= 500 {
            continue;
        }
        let entry = *r.pick(&["default", "explicit", "deprecated"]);
        return json!({"g": gj(&g), "start": tj(&g[0].0), "input": w, "entry": entry, "limit": limit, "salt": r.n(1 << 20)});
    }
}
/// Records for every tree the position of its first occurrence, and some trees in full.
pub fn run_long(c: &Value) -> Value {
    use std::collections::HashMap;
    fn key(t: &bnf::ParseTree, out: &mut Vec<u8>) {
        let (bnf::Term::Nonterminal(l) | bnf::Term::Terminal(l)) = t.lhs;
        out.extend(format!("({}:{l}", l.len()).bytes());
        for x in t.rhs_iter() {
            match x {
                bnf::ParseTreeNode::Terminal(s) => {
                    out.extend(format!("'{}:{s}", s.len()).bytes());
                }
                bnf::ParseTreeNode::Nonterminal(t) => key(t, out),
            }
        }
        out.push(b')');
    }
    fn depth(t: &bnf::ParseTree) -> usize {
        1 + t.rhs_iter().map(|x| if let bnf::ParseTreeNode::Nonterminal(t) = x { depth(t) } else { 0 }).max().unwrap_or(0)
    }
    fn walk<'a>(it: impl Iterator<Item = bnf::ParseTree<'a>>, limit: usize, salt: u64) -> Value {
        let mut seen: HashMap<Vec<u8>, usize> = HashMap::new();
        let (mut ids, mut kept, mut ended) = (vec![], vec![], false);
        let mut it = it.fuse();
        while ids.len() < limit {
            let Some(x) = it.next() else {
                ended = true;
                break;
            };
            let i = ids.len() + 1;
            let mut k = vec![];
            key(&x, &mut k);
            ids.push(*seen.entry(k).or_insert(i));
            let h = (i as u64 ^ salt).wrapping_mul(0x9e3779b97f4a7c15) >> 40;
            if (i <= 4 || h % 97 == 0) && kept.len() < 40 && depth(&x) < 60 {
                kept.push(json!([i, tree_json(&x)]));
            }
        }
        json!({"built": true, "ids": ids, "kept": kept, "ended": ended})
    }
    let g = gfrom(&c["g"]);
    let bg = gb(&g);
    let start = tb(&tfrom(&c["start"]));
    let w = c["input"].as_str().unwrap();
    let limit = c["limit"].as_u64().unwrap() as usize;
    let salt = c["salt"].as_u64().unwrap();
    #[allow(deprecated)]
    match c["entry"].as_str().unwrap() {
        "deprecated" => return walk(bg.parse_input(w), limit, salt),
        "deprecated_start" => return walk(bg.parse_input_starting_with(w, &start), limit, salt),
        _ => {}
    }
    match bg.build_parser() {
        Err(e) => json!({"built": false, "error": e.to_string(), "ids": [], "kept": [], "ended": false}),
        Ok(p) if c["entry"] == "default" => walk(p.parse_input(w), limit, salt),
        Ok(p) => walk(p.parse_input_starting_with(w, &start), limit, salt),
    }
}
/// Cases that are large in one respect: long inputs, long terminals, many alternatives, many
/// names, long alternatives, deep trees, many trees.
pub fn make_big(r: &mut R, k: u64, tier: &str) -> Value {
    const KINDS: [usize; 24] = [0, 10, 3, 4, 12, 7, 10, 8, 0, 9, 1, 10, 11, 2, 12, 3, 10, 5, 4, 6, 12, 8, 11, 10];
    let kind = KINDS[k as usize % 24];
    if kind == 10 {
        return inflate(r, k, tier);
    }
    if kind == 12 {
        let mut c = make(r, k, tier);
        enlarge(r, &mut c);
        return c;
    }
    let s = || n("s");
    let (g, w): (Gram, String) = match kind {
        // long terminals that agree for a long time
        0 => {
            let len = *r.pick(&[9, 17, 31, 33, 40, 64, 65, 127, 129, 257, 300]);
            let base = word(r, len);
            let mut alts: Vec<Alt> = vec![vec![t(&base)]];
            for _ in 0..r.r(1, 4) {
                let v = nick(r, &base);
                if r.p(40) { alts.push(vec![t(&v), n("e")]) } else { alts.push(vec![t(&v)]) }
            }
            alts.dedup();
            let w = if r.p(50) {
                let a = r.pick(&alts).clone();
                let T::T(x) = &a[0] else { unreachable!() };
                x.clone()
            } else {
                nick(r, &base)
            };
            (vec![(s(), alts), (n("e"), vec![vec![t("")], vec![t("!")]])], w)
        }
        // long right recursion
        1 => {
            let len = r.r(60, 220);
            (vec![(s(), vec![vec![n("d"), s()], vec![t("")]]), (n("d"), vec![vec![t("a")], vec![t("b")]])], {
                let w: String = (0..len).map(|_| *r.pick(&['a', 'b'])).collect();
                if r.p(30) { nick(r, &w) } else { w }
            })
        }
        // long left recursion, starting in one place only
        2 => {
            let len = r.r(60, 140);
            let w = format!("<{}", "-".repeat(len));
            (vec![(s(), vec![vec![s(), t("-")], vec![t("<")]])], if r.p(30) { nick(r, &w) } else { w })
        }
        // deep nesting
        3 => {
            let len = r.r(40, 120);
            let w = format!("{}x{}", "(".repeat(len), ")".repeat(len));
            (vec![(s(), vec![vec![t("("), s(), t(")")], vec![t("x")]])], if r.p(30) { nick(r, &w) } else { w })
        }
        // many alternatives
        4 => {
            let m = *r.pick(&[33, 65, 100, 130, 257, 300]);
            let mut alts: Vec<Alt> = (0..m).map(|i| vec![t(&format!("{i};"))]).collect();
            alts.push(vec![t("["), n("s"), n("s"), t("]")]);
            let one = |r: &mut R| format!("{};", if r.p(50) { m - 1 - r.n(3) } else { r.n(m) });
            let w = if r.p(50) { one(r) } else { format!("[{}[{}{}]]", one(r), one(r), one(r)) };
            (vec![(s(), alts)], if r.p(25) { nick(r, &w) } else { w })
        }
        // many names, a deep chain
        5 => {
            let m = *r.pick(&[33, 65, 100, 130, 180]);
            let mut g: Gram = (0..m).map(|i| (n(&nth(i)), vec![vec![n(&nth(i + 1))]])).collect();
            g.push((n(&nth(m)), vec![vec![t("x")], vec![t("y")]]));
            let j = r.n(m);
            g[j].1.push(vec![t("z")]);
            if r.p(50) {
                let first = g.remove(0);
                r.shuffle(&mut g);
                g.insert(0, first);
            }
            (g, r.pick(&["x", "y", "z", "xy", ""]).to_string())
        }
        // a long alternative
        6 => {
            let m = *r.pick(&[17, 33, 65, 100, 129]);
            let al: Alt = (0..m).map(|i| if i % 5 == 2 { n("o") } else { t(&((b'a' + (i % 26) as u8) as char).to_string()) }).collect();
            let w: String = (0..m)
                .map(|i| if i % 5 == 2 { r.pick(&["", "+"]).to_string() } else { ((b'a' + (i % 26) as u8) as char).to_string() })
                .collect();
            (vec![(s(), vec![al]), (n("o"), vec![vec![t("+")], vec![t("")]])], if r.p(30) { nick(r, &w) } else { w })
        }
        // an expression
        7 => {
            let len = r.r(8, 24);
            let mut w = String::new();
            for i in 0..len {
                if i > 0 {
                    w.push(*r.pick(&['+', '*']));
                }
                w.push_str(r.pick(&["1", "(1)", "(1+1)", "((1))"]));
            }
            (
                vec![
                    (s(), vec![vec![n("m"), t("+"), s()], vec![n("m")]]),
                    (n("m"), vec![vec![n("f"), t("*"), n("m")], vec![n("f")]]),
                    (n("f"), vec![vec![t("("), s(), t(")")], vec![t("1")]]),
                ],
                if r.p(25) { nick(r, &w) } else { w },
            )
        }
        // many trees
        8 => {
            let j = r.r(5, 7);
            (vec![(s(), vec![vec![s(), s()], vec![t("a")]])], "a".repeat(j))
        }
        // many productions with one left hand side
        11 => {
            let m = *r.pick(&[20, 33, 65, 100, 140]);
            let mut g: Gram = (0..m).map(|i| (s(), vec![vec![t(&format!("{i},")), n("o")]])).collect();
            g.push((n("o"), vec![vec![t("")], vec![s()]]));
            let w: String = (0..r.r(1, 5)).map(|_| format!("{},", if r.p(50) { m - 1 - r.n(3) } else { r.n(m) })).collect();
            (g, if r.p(25) { nick(r, &w) } else { w })
        }
        // many empty matches
        _ => {
            let m = r.r(3, 7);
            let al: Alt = (0..m).map(|_| n("e")).collect();
            (
                vec![(s(), vec![al]), (n("e"), vec![vec![t("")], vec![n("f")], vec![t("a")]]), (n("f"), vec![vec![t("")]])],
                if r.p(60) { "".to_string() } else { "a".to_string() },
            )
        }
    };
    let mut g = g;
    if r.p(15) {
        ggen::split(r, &mut g);
    }
    let entry = *r.pick(&["default", "explicit", "deprecated", "deprecated_start"]);
    json!({"g": gj(&g), "start": tj(&g[0].0), "input": w, "entry": entry, "limit": 700})
}

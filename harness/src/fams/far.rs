//! Small cases executed enlarged: repeated, padded or stretched so that the specification's answer
//! about the small case carries over, and folded back for it.
use super::generate::{Any, Seen2, strategy};
use super::text::{self, Tok, X};
use super::validate;
use crate::g::*;
use crate::rng::R;
use bnf::Grammar;
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

fn many(r: &mut R, max: usize) -> usize {
    let v: Vec<usize> = [2, 3, 10, 16, 17, 33, 64, 65, 100, 128, 129, 255, 256, 257, 500, 513, 1000, 1024, 1025, 2049, 4096, 4097, 5000, 8193, 10_001, 12_000]
        .into_iter()
        .filter(|x| *x <= max)
        .collect();
    *r.pick(&v)
}

// ------------------------------------------------------------ text
fn names_of(a: &[Vec<X>], out: &mut BTreeSet<String>) {
    for x in a.iter().flatten() {
        match x {
            X::N(s) => {
                out.insert(s.clone());
            }
            X::T(_) => {}
            X::G(b) | X::O(b) => names_of(b, out),
        }
    }
}
fn text_case(r: &mut R, fid: &str, fmt: &str, ext: usize) -> Value {
    let f = text::fmt_of(fid);
    loop {
        let mut g = text::abstract_grammar(r, &f, ext);
        g.truncate(*r.clone().pick(&[1, 2, 3]));
        let mut names = BTreeSet::new();
        for (l, a) in &g {
            names.insert(l.clone());
            names_of(a, &mut names);
        }
        let tk: Vec<Tok> = text::toks(r, &f, &g);
        let s = text::layout(r, &tk);
        let len = s.chars().count();
        if len > 160 {
            continue;
        }
        let mut c = text::case(&s, fmt, "grammar");
        c["names"] = json!(names);
        c["times"] = json!(many(r, (150_000 / (len + 1)).min(12_000)));
        return c;
    }
}
pub fn text_plain(r: &mut R, _k: u64, _t: &str) -> Value {
    let i = r.n(text::CUSTOM.len());
    let f = if r.p(70) { "BNF" } else { text::CUSTOM[i].0 };
    text_case(r, f, f, 0)
}
pub fn text_abnf(r: &mut R, _k: u64, _t: &str) -> Value {
    let ext = if r.p(20) { 25 } else { 0 };
    match r.n(3) {
        0 => text_case(r, "ABNF", "auto", ext),
        1 => text_case(r, "BNF", "auto", ext),
        _ => text_case(r, "ABNF", "ABNF", ext),
    }
}
pub fn text_ext(r: &mut R, _k: u64, _t: &str) -> Value {
    let f = *r.pick(&["BNF", "ABNF", "BNF", "ABNF", "F9"]);
    text_case(r, f, f, 40)
}
/// What a repetition contributed: its productions followed by the generated ones it leads to,
/// renamed in order of appearance.
fn piece(own: &[Prod], rules: &BTreeMap<&str, &Prod>) -> Gram {
    fn rename(p: &Prod, rules: &BTreeMap<&str, &Prod>, queue: &mut Vec<String>) -> Vec<Alt> {
        p.1.iter()
            .map(|a| {
                a.iter()
                    .map(|x| match x {
                        T::N(s) if rules.contains_key(s.as_str()) => {
                            let at = queue.iter().position(|q| q == s).unwrap_or_else(|| {
                                queue.push(s.clone());
                                queue.len() - 1
                            });
                            n(&format!("\u{1}fresh {at}"))
                        }
                        x => x.clone(),
                    })
                    .collect()
            })
            .collect()
    }
    let mut queue: Vec<String> = vec![];
    let mut out: Gram = own.iter().map(|p| (p.0.clone(), rename(p, rules, &mut queue))).collect();
    let mut i = 0;
    while i < queue.len() && i < 200 {
        let p = rules[queue[i].as_str()];
        let alts = rename(p, rules, &mut queue);
        out.push((n(&format!("\u{1}fresh {i}")), alts));
        i += 1;
    }
    out
}
fn tally<K: Ord + Clone>(v: impl Iterator<Item = K>) -> Vec<(K, usize)> {
    let mut m: BTreeMap<K, usize> = BTreeMap::new();
    for x in v {
        *m.entry(x).or_insert(0) += 1;
    }
    m.into_iter().take(5).collect()
}
pub fn run_text(c: &Value) -> Value {
    let s = |k: &str| c[k].as_str().unwrap().to_string();
    let (fmt, what) = (s("fmt"), s("what"));
    let r = text::read(&s("text"), &fmt, &what);
    let times = c["times"].as_u64().unwrap() as usize;
    let whole = vec![s("text"); times].join("\n");
    let far = text::read(&whole, &fmt, &what);
    if r[0] != "ok" || far[0] != "ok" {
        return json!({"r": r, "pieces": [], "anon": 0, "far": far[0]});
    }
    let names: BTreeSet<String> = c["names"].as_array().unwrap().iter().map(|v| v.as_str().unwrap().to_string()).collect();
    let written = |p: &Prod| matches!(&p.0, T::N(x) if names.contains(x));
    let k = gfrom(&r[1]).iter().filter(|p| written(p)).count().max(1);
    let g = gfrom(&far[1]);
    let own: Gram = g.iter().filter(|p| written(p)).cloned().collect();
    let gen_rules: Vec<&Prod> = g.iter().filter(|p| !written(p)).collect();
    let rules: BTreeMap<&str, &Prod> = gen_rules.iter().map(|p| (match &p.0 { T::N(x) | T::T(x) => x.as_str() }, *p)).collect();
    let ps = tally(own.chunks(k).map(|ch| gj(&piece(ch, &rules)).to_string()));
    let pieces: Vec<Value> = ps.into_iter().map(|(p, k)| json!([k, serde_json::from_str::<Value>(&p).unwrap()])).collect();
    json!({"r": r, "pieces": pieces, "anon": if rules.len() == gen_rules.len() { gen_rules.len() } else { 0 },
           "far": if written(&g[0]) { "ok" } else { "a generated rule comes first" }})
}

// ------------------------------------------------------------ round trip
pub fn round(r: &mut R, k: u64, tier: &str) -> Value {
    loop {
        let mut c = super::round::make(r, k, tier);
        if c["what"] == "grammar" && c.get("v").is_some_and(|v| v.as_array().is_some_and(|a| !a.is_empty())) && c["v"].to_string().len() < 400 {
            c["times"] = json!(many(r, 3000));
            return c;
        }
    }
}
pub fn run_round(c: &Value) -> Value {
    let mut o = super::round::run(c);
    let small = gfrom(&c["v"]);
    let times = c["times"].as_u64().unwrap() as usize;
    let g = gb(&small.iter().cloned().cycle().take(small.len() * times).collect());
    let text = g.to_string();
    let fold = |x: &Grammar| -> Vec<Value> {
        let v = gram_of(x);
        tally(v.chunks(small.len()).map(|ch| gj(&ch.to_vec()).to_string())).into_iter().map(|(p, k)| json!([k, serde_json::from_str::<Value>(&p).unwrap()])).collect()
    };
    let back = match Grammar::parse_from::<bnf::BNF>(&text) {
        Ok(b) => json!({"same": b == g, "pieces": fold(&b), "text2": b.to_string() == text}),
        Err(_) => json!({"same": false, "pieces": [], "text2": false}),
    };
    let ser = match serde_json::to_string(&g).map(|s| serde_json::from_str::<Grammar>(&s)) {
        Ok(Ok(b)) => fold(&b),
        _ => vec![],
    };
    o["times"] = json!(times);
    o["far"] = json!({"back": back, "serde": ser});
    o
}

// ------------------------------------------------------------ padding
/// Productions that refer to nothing but themselves, under names no case uses.
fn filler(r: &mut R, k: usize) -> Gram {
    let long = r.p(30);
    let nm = |i: usize| n(&format!("filler {i}"));
    (0..k)
        .map(|i| {
            let mut alts = vec![vec![nm((i + 1) % k), t("f")], vec![t("f")]];
            if long {
                alts.push(vec![t("f"); 40]);
            }
            (nm(i), alts)
        })
        .collect()
}
fn padded(g: &Gram, pad: &Gram, front: usize) -> Gram {
    // the first production stays the first
    let mut v: Gram = vec![];
    if let Some(p) = g.first() {
        v.push(p.clone());
        v.extend(pad[..front].iter().cloned());
        v.extend(g[1..].iter().cloned());
        v.extend(pad[front..].iter().cloned());
    }
    v
}
fn filled(x: &T) -> bool {
    matches!(x, T::N(s) | T::T(s) if s.starts_with("filler "))
}
/// Terms that mean nothing to validation, put into alternatives that have some already.
fn lengthened(r: &mut R, g: &Gram, m: usize) -> Gram {
    let mut g = g.clone();
    if r.p(40) {
        return g;
    }
    let share = *r.pick(&[10, 50, 100]);
    for a in g.iter_mut().flat_map(|p| p.1.iter_mut()) {
        if a.is_empty() || !r.p(share) {
            continue;
        }
        let k = many(r, 130);
        let at = r.n(a.len() + 1);
        let defined = r.p(50);
        for j in 0..k {
            let x = if defined && r.p(50) { n(&format!("filler {}", r.n(m))) } else { t(&format!("filler {}", j % 7)) };
            a.insert(at, x);
        }
    }
    g
}
pub fn validate(r: &mut R, k: u64, tier: &str) -> Value {
    let mut c = validate::make(r, k, tier);
    let m = many(r, 5000);
    c["pad"] = gj(&vec![]);
    c["fill"] = json!([m, r.n(m + 1), r.u() >> 12]);
    c
}
pub fn run_validate(c: &Value) -> Value {
    let g = gfrom(&c["g"]);
    let (m, front, seed) = (c["fill"][0].as_u64().unwrap() as usize, c["fill"][1].as_u64().unwrap() as usize, c["fill"][2].as_u64().unwrap());
    let pad = filler(&mut R::from(seed), m);
    let big = padded(&lengthened(&mut R::from(seed ^ 5), &g, m), &pad, front);
    let mut o = validate::run(&json!({"g": gj(&big)}));
    let mut after = gfrom(&o["after"]);
    let kept = after == big;
    after.retain(|p| !filled(&p.0));
    for a in after.iter_mut().flat_map(|p| p.1.iter_mut()) {
        a.retain(|x| !filled(x));
    }
    o["after"] = if kept { gj(&after) } else { json!("productions are lost") };
    o
}

// ------------------------------------------------------------ stretching
/// Every definition is moved to the end of a chain of names: x ::= x.1, x.1 ::= x.2, ...
fn link(x: &str, i: usize) -> String {
    if i == 0 { x.to_string() } else { format!("{x}\u{1}{i}") }
}
fn stretch(g: &Gram, len: usize, order: usize) -> Gram {
    let mut own: Gram = vec![];
    let mut links: Gram = vec![];
    let mut done = BTreeSet::new();
    for p in g {
        let T::N(x) = &p.0 else {
            own.push(p.clone());
            continue;
        };
        own.push((n(&link(x, len)), p.1.clone()));
        if done.insert(x.clone()) {
            links.extend((0..len).map(|i| (n(&link(x, i)), vec![vec![n(&link(x, i + 1))]])));
        }
    }
    // the start rule must come first
    let first = match g.first() {
        Some((T::N(x), _)) => links.iter().position(|p| p.0 == n(x)).map(|i| links.remove(i)),
        _ => None,
    };
    let mut rest: Gram = match order {
        0 => links.into_iter().chain(own).collect(),
        1 => own.into_iter().chain(links).collect(),
        _ => {
            links.reverse();
            links.into_iter().chain(own).collect()
        }
    };
    if let Some(f) = first {
        rest.insert(0, f);
    }
    rest
}
/// Alternatives that derive nothing are put among those of the productions; also given: where
/// the alternatives of the small grammar are now, and what the new ones refer to.
fn widen(r: &mut R, g: &Gram, k: usize) -> (Gram, Vec<Vec<usize>>, Gram) {
    let m = r.r(1, 3);
    let nm = |i: usize| n(&format!("dead {}", i % m));
    let dead: Gram = (0..m).map(|i| (nm(i), vec![vec![nm(i + 1)], vec![t("d"), nm(i + 1), nm(i)]])).collect();
    let names: Vec<T> = g.iter().map(|p| p.0.clone()).filter(|x| matches!(x, T::N(_))).chain([n("filler 0"), t("d")]).collect();
    let share = *r.pick(&[30, 100]);
    let mut out: Gram = vec![];
    let mut places = vec![];
    for (x, alts) in g {
        if !r.p(share) || alts.iter().all(|a| a.is_empty()) {
            out.push((x.clone(), alts.clone()));
            places.push((0..alts.len()).collect());
            continue;
        }
        let front = *r.pick(&[0, k / 2, k]);
        let mut dead_alt = || {
            let mut a = vec![nm(r.n(m))];
            for _ in 0..r.n(3) {
                let at = r.n(a.len() + 1);
                a.insert(at, r.pick(&names).clone());
            }
            a
        };
        let mut v: Vec<Alt> = (0..front).map(|_| dead_alt()).collect();
        v.extend(alts.iter().cloned());
        v.extend((front..k).map(|_| dead_alt()));
        places.push((front..front + alts.len()).collect());
        out.push((x.clone(), v));
    }
    (out, places, dead)
}
fn far_gen(r: &mut R, c: &mut Value) {
    let heavy = c["g"].as_array().unwrap().len() > 12;
    c["stretch"] = json!([if heavy { many(r, 20) } else { many(r, 260) }, r.n(3)]);
    if r.p(35) {
        // among many other productions instead
        let m = many(r, 3000);
        c["stretch"] = json!([0, r.n(3)]);
        c["fill"] = json!([m, r.n(m + 1), r.u() >> 12]);
    }
    if r.p(40) {
        let busy = c["stretch"][0].as_u64().unwrap() > 20 || c.get("fill").is_some();
        c["widen"] = json!([many(r, if busy { 40 } else { 520 }), r.u() >> 12]);
    }
}
pub fn gen11(r: &mut R, k: u64, tier: &str) -> Value {
    loop {
        let mut c = super::generate::make11(r, k, tier);
        if c["entry"] != "plain" && c["g"].as_array().is_some_and(|a| !a.is_empty() && a[0][0][0] == "N") {
            far_gen(r, &mut c);
            return c;
        }
    }
}
pub fn gen10(r: &mut R, k: u64, tier: &str) -> Value {
    loop {
        let mut c = super::generate::make10(r, k, tier);
        if c["entry"] != "plain" && c["g"].as_array().is_some_and(|a| !a.is_empty() && a[0][0][0] == "N") && c["strat"]["kind"] != "depth" && c["strat"]["kind"] != "depth0" {
            far_gen(r, &mut c);
            return c;
        }
    }
}
pub fn gen12(r: &mut R, k: u64, tier: &str) -> Value {
    loop {
        let mut c = super::generate::make12(r, k, tier);
        if c["entry"] == "cbs" && c["g"].as_array().is_some_and(|a| !a.is_empty() && a[0][0][0] == "N") && c["strat"]["kind"] != "depth" && c["strat"]["kind"] != "depth0" {
            far_gen(r, &mut c);
            return c;
        }
    }
}
/// Executes the stretched grammar; what happens on the links is folded away.
pub fn run_gen(c: &Value) -> Value {
    let gm = gfrom(&c["g"]);
    let (len, order) = (c["stretch"][0].as_u64().unwrap() as usize, c["stretch"][1].as_u64().unwrap() as usize);
    let (gw, alts, dead) = match c.get("widen").and_then(Value::as_array) {
        Some(w) => widen(&mut R::from(w[1].as_u64().unwrap()), &gm, w[0].as_u64().unwrap() as usize),
        None => (gm.clone(), gm.iter().map(|p| (0..p.1.len()).collect()).collect(), vec![]),
    };
    let mut big = stretch(&gw, len, order);
    big.extend(dead);
    if let Some(fl) = c.get("fill").and_then(Value::as_array) {
        let (m, front, seed) = (fl[0].as_u64().unwrap() as usize, fl[1].as_u64().unwrap() as usize, fl[2].as_u64().unwrap());
        big = padded(&big, &filler(&mut R::from(seed), m), front);
    }
    let g = gb(&big);
    let before = g.clone();
    // productions of the small grammar by their place among those of the same content
    let mut places: BTreeMap<usize, usize> = BTreeMap::new();
    let mut taken = BTreeSet::new();
    for (i, p) in big.iter().enumerate() {
        for (j, q) in gw.iter().enumerate() {
            let l = match &q.0 {
                T::N(x) => n(&link(x, len)),
                x => x.clone(),
            };
            if !taken.contains(&j) && p.0 == l && p.1 == q.1 {
                taken.insert(j);
                places.insert(i, j);
                break;
            }
        }
    }
    let vs: Vec<u64> = c["verdicts"].as_array().unwrap().iter().map(|v| v.as_u64().unwrap()).collect();
    let events = Rc::new(RefCell::new(Vec::<Value>::new()));
    let bad = Rc::new(RefCell::new(String::new()));
    let count = RefCell::new((0usize, 0usize));
    let ev = events.clone();
    let links = RefCell::new(Vec::<(String, String)>::new());
    let b2 = bad.clone();
    let cb = |name: &str, text: &str| -> bool {
        let (base, at) = match name.split_once('\u{1}') {
            Some((b, i)) => (b, i.parse::<usize>().unwrap_or(usize::MAX)),
            None => (name, 0),
        };
        if len > 0 && at != len {
            // a link: the text its end gave, offered once, in order
            let mut l = links.borrow_mut();
            if l.pop() != Some((link(base, at), text.to_string())) {
                *b2.borrow_mut() = format!("unexpected offer of {name:?}");
            }
            if at > 0 {
                l.push((link(base, at - 1), text.to_string()));
            }
            return true;
        }
        let mut k = count.borrow_mut();
        let y = vs.is_empty() || k.1 >= 12 || vs[k.0 % vs.len()] == 1;
        k.0 += 1;
        k.1 += !y as usize;
        ev.borrow_mut().push(json!(["v", base, text, y as u64]));
        if y && len > 0 {
            links.borrow_mut().push((link(base, len - 1), text.to_string()));
        }
        y
    };
    let budget = c["budget"].as_u64().unwrap() as usize;
    let inner: Any = strategy(&c["strat"], &gm);
    let mut s = Seen2 { inner, g: &g, events: events.clone(), budget, places, len, bad: bad.clone(), small: gb(&gm), alts };
    let res = if c["entry"] == "strat" { g.generate_seeded_with_strategy(&mut s) } else { g.generate_seeded_callback_with_strategy(&cb, &mut s) };
    let result = match &res {
        Ok(s) => json!(["ok", s]),
        Err(e) => validate::err(e),
    };
    if res.is_ok() && !links.borrow().is_empty() {
        *bad.borrow_mut() = "an expansion was not offered".into();
    }
    let ev = events.borrow().clone();
    let mut o = json!({"events": ev, "long": false, "result": result, "accepting": vs.is_empty(), "same": g == before});
    let b = bad.borrow().clone();
    if !b.is_empty() {
        o["outcome"] = json!(b);
    }
    o
}

// ------------------------------------------------------------ rendering
/// A tree of many copies of a small one, at the end of a chain.
pub fn render(r: &mut R, _k: u64, _t: &str) -> Value {
    loop {
        let names: Vec<String> = (0..r.r(1, 3)).map(|_| super::render::label(r)).collect();
        let mut left = *r.pick(&[0, 3, 8, 20, 40, 60]);
        let d = r.r(1, 6);
        let tr = super::render::tree(r, d, &mut left, &names);
        let s = tr.to_string();
        if s.contains("\\n") || s.contains("\\r") || s.contains('\u{2028}') {
            continue; // pieces are told apart by lines
        }
        let size = nodes(&tr);
        let (times, chain) = if r.p(60) { (if r.p(30) { (150_000 / size).min(3000) } else { many(r, (150_000 / size).min(3000)) }, r.n(4)) } else { (r.r(1, 5), many(r, 2500)) };
        return json!({"tree": tr, "times": times, "chain": chain});
    }
}
fn nodes(t: &Value) -> usize {
    1 + t.get(2).and_then(Value::as_array).map_or(0, |k| k.iter().map(nodes).sum())
}
fn parts(v: Vec<String>) -> Vec<Value> {
    tally(v.into_iter()).into_iter().map(|(x, k)| json!([k, x])).collect()
}
/// "12["x"] --> 13["y"]" with the numbers replaced
fn renumber(line: &str, f: &dyn Fn(i64) -> String) -> String {
    let node = |s: &str| -> Option<String> {
        let (num, rest) = s.split_once('[')?;
        Some(format!("{}[{rest}", f(num.parse().ok()?)))
    };
    let Some(at) = line.find("\"] --> ") else { return line.to_string() };
    match (node(&line[..at + 2]), node(&line[at + 7..])) {
        (Some(a), Some(b)) => format!("{a} --> {b}"),
        _ => line.to_string(),
    }
}
pub fn run_render(c: &Value) -> Value {
    let (times, chain) = (c["times"].as_u64().unwrap() as usize, c["chain"].as_u64().unwrap() as usize);
    let small = c["tree"].clone();
    let (mut names, mut widths) = (BTreeSet::new(), BTreeSet::new());
    super::render::collect(&small, &mut names, &mut widths);
    widths.extend([1, times]);
    let (cn, wn) = ("chain ", "wide ");
    names.extend([cn.to_string(), wn.to_string()]);
    let gm: Gram = names.iter().map(|a| (n(a), widths.iter().map(|k| vec![t("x"); *k]).collect())).collect();
    let g = gb(&gm);
    let terms: Vec<bnf::Term> = names.iter().map(|a| bnf::Term::Nonterminal(a.clone())).collect();
    let p = g.build_parser().unwrap();
    let of = |a: &str| terms.iter().find(|x| matches!(x, bnf::Term::Nonterminal(s) if s == a)).unwrap();
    let (Some(piece), Some(mut whole), Some(one)) = (
        super::render::build(&p, &terms, &small),
        p.parse_input_starting_with(Box::leak("x".repeat(times).into_boxed_str()), of(wn)).next(),
        p.parse_input_starting_with("x", of(cn)).next(),
    ) else {
        // should the parser not even return such a row, there is nothing to print
        return json!({"skip": 1});
    };
    whole.rhs_iter_mut().for_each(|s| *s = bnf::ParseTreeNode::Nonterminal(piece.clone()));
    for _ in 0..chain {
        let mut x = one.clone();
        x.rhs_iter_mut().for_each(|s| *s = bnf::ParseTreeNode::Nonterminal(std::mem::replace(&mut whole, one.clone())));
        whole = x;
    }
    let copy = whole.clone();
    let print = whole.to_string();
    let mermaid = whole.mermaid().to_string();
    let same = whole == copy && copy.to_string() == print && copy.mermaid().to_string() == mermaid;
    let size = nodes(&small);
    let mut o = json!({"skip": 0, "same": same as u8});
    // the indented form
    let lines: Vec<&str> = print.split_terminator('\n').collect();
    let outer = |i: usize| {
        let depth = (i * 4).saturating_sub(4);
        let l = lines.get(i).unwrap_or(&"");
        l.strip_prefix(" ".repeat(depth).as_str()).unwrap_or(l).to_string()
    };
    o["chainlines"] = json!(parts((0..chain).map(outer).collect()));
    let head = outer(chain);
    let item = format!(" <{}>", small[1].as_str().unwrap());
    let (mut rest, mut items) = (head.as_str(), 0);
    while let Some(x) = rest.strip_suffix(item.as_str()) {
        (rest, items) = (x, items + 1);
    }
    o["head"] = json!([rest, items]);
    let indent = " ".repeat(chain * 4);
    let body: Vec<String> = lines[(chain + 1).min(lines.len())..].iter().map(|l| l.strip_prefix(indent.as_str()).unwrap_or(l).to_string()).collect();
    let mut ps: Vec<String> = body.chunks(size).map(|x| x.iter().map(|l| format!("{l}\n")).collect()).collect();
    let last = ps.pop().unwrap_or_default();
    o["last"] = json!(last);
    o["front"] = json!(parts(ps));
    // the flowchart
    let lines: Vec<&str> = mermaid.split_terminator('\n').collect();
    o["header"] = json!(lines.first().unwrap_or(&""));
    let edges = &lines[1.min(lines.len())..];
    o["chainedges"] = json!(parts(edges.iter().take(chain).enumerate().map(|(i, l)| renumber(l, &|x| (x - i as i64).to_string())).collect()));
    let body = &edges[chain.min(edges.len())..];
    o["edges"] = json!(parts(
        body.chunks(size)
            .enumerate()
            .map(|(j, ch)| {
                let base = (chain + 1 + j * size) as i64;
                ch.iter().map(|l| renumber(l, &|x| if x == chain as i64 { "R".into() } else { (x - base).to_string() }) + "\n").collect()
            })
            .collect()
    ));
    o
}

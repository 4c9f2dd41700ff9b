//! Sentence generation: what the strategy is offered, what the callback sees,
//! what comes out.
use super::validate::err;
use crate::g::*;
use crate::ggen::{self, Shape};
use crate::rng::R;
use bnf::rand::{SeedableRng, rngs::StdRng};
use bnf::{CoverageGuided, DepthBounded, Expression, GenerationStrategy, Grammar, Production, RandomWalk, Weighted};
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

// ------------------------------------------------------------ strategies
pub fn seed_of(v: &Value) -> [u8; 32] {
    R::from(v.as_u64().unwrap()).seed32()
}
/// user supplied strategies
pub enum User {
    Script { picks: Vec<usize>, at: usize },
    /// random until the steps are used up, then towards the smallest expansion
    Steer { r: R, left: usize, cost: BTreeMap<Prod, Vec<usize>> },
}
impl GenerationStrategy for User {
    fn choose<'p>(&mut self, p: &'p Production, _d: usize) -> Option<&'p Expression> {
        let m = p.len();
        if m == 0 {
            return None;
        }
        let i = match self {
            User::Script { picks, at } => {
                let i = picks[*at % picks.len()];
                *at += 1;
                i % m
            }
            User::Steer { r, left, cost } => {
                if *left > 0 {
                    *left -= 1;
                    r.n(m)
                } else {
                    let c = cost.get(&prod_of(p)).cloned().unwrap_or_default();
                    (0..m).min_by_key(|i| c.get(*i).copied().unwrap_or(usize::MAX)).unwrap()
                }
            }
        };
        p.rhs_iter().nth(i)
    }
}
pub enum Any {
    W(RandomWalk),
    D(DepthBounded),
    C(CoverageGuided),
    X(Weighted),
    U(User),
}
impl GenerationStrategy for Any {
    fn choose<'p>(&mut self, p: &'p Production, d: usize) -> Option<&'p Expression> {
        match self {
            Any::W(s) => s.choose(p, d),
            Any::D(s) => s.choose(p, d),
            Any::C(s) => s.choose(p, d),
            Any::X(s) => s.choose(p, d),
            Any::U(s) => s.choose(p, d),
        }
    }
}
fn costs(g: &Gram) -> BTreeMap<Prod, Vec<usize>> {
    // smallest heights, taking only the first production of a name into account
    let mut first: BTreeMap<&str, &Prod> = BTreeMap::new();
    for p in g {
        if let T::N(s) = &p.0 {
            first.entry(s).or_insert(p);
        }
    }
    let mut h: BTreeMap<&str, usize> = BTreeMap::new();
    let cost = |h: &BTreeMap<&str, usize>, al: &Alt| -> usize {
        al.iter()
            .map(|y| match y {
                T::T(_) => 0,
                T::N(b) if !first.contains_key(b.as_str()) => 0,
                T::N(b) => h.get(b.as_str()).copied().unwrap_or(1 << 40),
            })
            .max()
            .unwrap_or(0)
    };
    for round in 1..=first.len() + 1 {
        for (x, p) in &first {
            if !h.contains_key(x) && p.1.iter().any(|al| cost(&h, al) < round) {
                h.insert(x, round);
            }
        }
    }
    g.iter().map(|p| (p.clone(), p.1.iter().map(|al| cost(&h, al)).collect())).collect()
}
pub fn strategy(s: &Value, g: &Gram) -> Any {
    let u = |k: &str| s[k].as_u64().unwrap();
    match s["kind"].as_str().unwrap() {
        "walk" => Any::W(RandomWalk::from_seed(seed_of(&s["seed"]))),
        "walk0" => Any::W(RandomWalk::default()),
        "depth" => Any::D(DepthBounded::from_seed(u("max") as usize, seed_of(&s["seed"]))),
        "depth0" => Any::D(DepthBounded::new(u("max") as usize)),
        "cover" => Any::C(CoverageGuided::from_seed(seed_of(&s["seed"]))),
        "cover0" => Any::C(CoverageGuided::new()),
        "weight" => Any::X(Weighted::from_seed(u("wr") as u32, u("wn") as u32, seed_of(&s["seed"]))),
        "weight0" => Any::X(Weighted::new(u("wr") as u32, u("wn") as u32)),
        "weightd" => Any::X(Weighted::default()),
        "script" => Any::U(User::Script {
            picks: s["picks"].as_array().unwrap().iter().map(|v| v.as_u64().unwrap() as usize).collect(),
            at: 0,
        }),
        "steer" => Any::U(User::Steer { r: R::from(u("seed")), left: u("left") as usize, cost: costs(g) }),
        x => panic!("strategy {x}"),
    }
}
/// Index (from 1) of a production of g, by identity if possible, by value otherwise.
pub fn prod_index(g: &Grammar, p: &Production) -> usize {
    g.productions_iter()
        .position(|q| std::ptr::eq(q, p))
        .or_else(|| g.productions_iter().position(|q| q == p))
        .map_or(0, |i| i + 1)
}
pub fn alt_index(p: &Production, e: Option<&Expression>) -> usize {
    match e {
        None => 0,
        Some(e) => p
            .rhs_iter()
            .position(|q| std::ptr::eq(q, e))
            .or_else(|| p.rhs_iter().position(|q| q == e))
            .map_or(999, |i| i + 1),
    }
}
/// Records every question put to a strategy and declines when the budget is used up.
pub struct Rec<'a> {
    pub inner: Any,
    pub g: &'a Grammar,
    pub events: Rc<RefCell<Vec<Value>>>,
    pub budget: usize,
}
impl GenerationStrategy for Rec<'_> {
    fn choose<'p>(&mut self, p: &'p Production, d: usize) -> Option<&'p Expression> {
        let e = if self.budget == 0 { None } else { self.inner.choose(p, d) };
        self.budget = self.budget.saturating_sub(1);
        self.events.borrow_mut().push(json!(["c", prod_index(self.g, p), d, alt_index(p, e)]));
        e
    }
}

// ------------------------------------------------------------ cases
/// Mean number of nonterminals an expansion leads to is small enough that random
/// generation ends quickly (both if all productions of a name count and if only the first does).
pub fn subcritical(g: &Gram) -> bool {
    let prod = productive(g);
    let mut first: Gram = vec![];
    for p in g {
        if !first.iter().any(|q| q.0 == p.0) {
            first.push(p.clone());
        }
    }
    if productive(&first) != prod {
        return false;
    }
    for h in [g, &first] {
        let tab = table(h);
        let names: Vec<&str> = tab.keys().copied().collect();
        // expected number of expansions, by iteration
        let mut e: BTreeMap<&str, f64> = names.iter().map(|n| (*n, 1.0)).collect();
        for _ in 0..200 {
            let mut nx = BTreeMap::new();
            for a in &names {
                let alts = &tab[a];
                if alts.is_empty() {
                    nx.insert(*a, 1.0);
                    continue;
                }
                let s: f64 = alts
                    .iter()
                    .map(|al| {
                        al.iter()
                            .map(|x| match x {
                                T::N(b) => e.get(b.as_str()).copied().unwrap_or(0.0),
                                _ => 0.0,
                            })
                            .sum::<f64>()
                    })
                    .sum();
                nx.insert(*a, 1.0 + s / alts.len() as f64);
            }
            e = nx;
        }
        if e.values().any(|v| *v > 12.0) {
            return false;
        }
    }
    true
}
pub fn undefined(r: &mut R, g: &mut Gram) {
    let i = r.n(g.len());
    if let Some(a) = g[i].1.last_mut() {
        let at = r.n(a.len() + 1);
        a.insert(at, n(r.pick(&["u", "undef", "u v", "é", "", " u", "u ", "\tu\n", "<u>", "u>", "a<b", "'u'", "\"", "U", "s ", "undefined-name", "n0"])));
    }
}
/// a grammar for generation, not necessarily terminating
pub fn grammar(r: &mut R) -> Gram {
    let mut sh = Shape::parse();
    sh.split = 15;
    sh.empty_alt = 15;
    if r.p(30) {
        sh.nts = (3, 8);
    }
    let mut g = match r.n(4) {
        0 => ggen::template(r),
        _ => ggen::random_grammar(r, &sh),
    };
    // give most names an escape
    if r.p(70) {
        for p in g.iter_mut() {
            if r.p(80) && !p.1.iter().any(|a| a.iter().all(|x| matches!(x, T::T(_)))) {
                let al = vec![t(r.pick(&["x", "é", "", "yy"]))];
                let at = r.n(p.1.len() + 1);
                p.1.insert(at, al);
            }
        }
    }
    if r.p(20) {
        undefined(r, &mut g);
    }
    if r.p(6) {
        let i = r.n(g.len());
        g[i].1 = if r.p(50) { vec![] } else { vec![vec![]] };
    }
    g
}
pub fn derivable(g: &Gram) -> bool {
    match g.first() {
        Some((T::N(s), _)) => productive(g).contains(s),
        _ => false,
    }
}
fn strat_case(r: &mut R) -> Value {
    let seed = r.u() >> 12;
    match r.n(10) {
        0 => json!({"kind": "walk", "seed": seed}),
        1 => json!({"kind": "depth", "max": r.n(7), "seed": seed}),
        2 => json!({"kind": "cover", "seed": seed}),
        3 => {
            let w = [0u64, 1, 2, 5, 100, 4294967295];
            json!({"kind": "weight", "wr": r.pick(&w), "wn": r.pick(&w), "seed": seed})
        }
        4 => r.pick(&[json!({"kind": "walk0"}), json!({"kind": "depth0", "max": 2}), json!({"kind": "cover0"}),
                      json!({"kind": "weightd"}), json!({"kind": "weight0", "wr": 1, "wn": 3})]).clone(),
        5 => {
            let k = r.r(1, 6);
            json!({"kind": "script", "picks": (0..k).map(|_| r.n(4)).collect::<Vec<_>>()})
        }
        _ => json!({"kind": "steer", "seed": seed, "left": r.n(25)}),
    }
}
fn verdicts(r: &mut R) -> Vec<u64> {
    let k = r.r(1, 12);
    let pct = *r.pick(&[10, 30, 50, 80]);
    (0..k).map(|_| !r.p(pct) as u64).collect()
}
pub fn make10(r: &mut R, k: u64, _tier: &str) -> Value {
    match r.n(10) {
        0..=4 => {
            let mut g = grammar(r);
            for _ in 0..20 {
                if derivable(&g) {
                    break;
                }
                g = grammar(r);
            }
            json!({"g": gj(&g), "entry": "strat", "strat": strat_case(r), "budget": r.r(5, 60), "verdicts": []})
        }
        5 => {
            let g = grammar(r);
            json!({"g": gj(&g), "entry": "cbs", "strat": strat_case(r), "budget": r.r(5, 60), "verdicts": []})
        }
        6 => {
            let g = grammar(r);
            json!({"g": gj(&g), "entry": "cbs", "strat": strat_case(r), "budget": r.r(20, 60), "verdicts": verdicts(r)})
        }
        _ => {
            let mut g = grammar(r);
            while !(subcritical(&g) && derivable(&g)) {
                g = grammar(r);
            }
            json!({"g": gj(&g), "entry": "plain", "api": r.pick(&["generate", "seeded", "cb", "cbseeded", "seeded2"]),
                   "seed": r.u() >> 12, "verdicts": []})
        }
    }
}
/// C11: which grammars are refused
pub fn make11(r: &mut R, k: u64, tier: &str) -> Value {
    let big = tier == "thorough";
    let mut g: Gram = match r.n(8) {
        // a chain of dependencies in a given order, ending in a terminal, a loop or an undefined name
        0 | 1 | 2 => {
            let m = r.r(1, if big { 40 } else { 24 });
            let mut v: Gram = (0..m)
                .map(|i| {
                    let next = n(&format!("n{}", i + 1));
                    let mut al = vec![next];
                    if r.p(30) {
                        al.insert(r.n(2), t("t"));
                    }
                    if r.p(25) && i > 0 {
                        al.push(n(&format!("n{}", r.r(i, m))));
                    }
                    let mut alts = vec![al];
                    if r.p(40) {
                        alts.insert(r.n(2), vec![n(&format!("n{}", r.n(i + 1)))]);
                    }
                    (n(&format!("n{i}")), alts)
                })
                .collect();
            let last: Vec<Alt> = match r.n(5) {
                0 | 1 => vec![vec![t("end")]],
                2 => vec![vec![n(&format!("n{}", r.n(m + 1)))]],
                3 => vec![vec![n("undefined")]],
                _ => vec![vec![n(&format!("n{}", r.n(m + 1)))], vec![t("end"), t("")]],
            };
            v.push((n(&format!("n{m}")), last));
            let s = v.remove(0);
            match r.n(3) {
                0 => r.shuffle(&mut v),
                1 => v.reverse(),
                _ => {}
            }
            v.insert(0, s);
            v
        }
        3 => {
            let mut g = grammar(r);
            r.shuffle(&mut g);
            g
        }
        4 => {
            // remove escapes
            let mut g = grammar(r);
            for p in g.iter_mut() {
                if r.p(60) {
                    p.1.retain(|a| a.iter().any(|x| matches!(x, T::N(_))));
                }
            }
            g
        }
        5 => {
            let sh = Shape { nts: (2, 9), alts: (1, 2), len: (1, 3), empty_term: 10, nonterm: 75, undef: 30, split: 30, empty_alt: 10 };
            ggen::random_grammar(r, &sh)
        }
        _ => grammar(r),
    };
    if r.p(4) {
        let i = r.n(g.len());
        g[i].0 = t("s");
    }
    if r.p(4) {
        g.clear();
    }
    // a chain needs as many choices as it is long
    let entry = if r.p(20) { "cbs" } else { "strat" };
    let mut c = json!({"g": gj(&g), "entry": entry, "strat": strat_case(r), "budget": r.r(1, 80), "verdicts": []});
    if r.p(25) && !derivable(&g) {
        c["entry"] = json!("plain");
        c["api"] = json!(r.pick(&["generate", "seeded", "cb", "cbseeded"]));
        c["seed"] = json!(r.u() >> 12);
    } else if r.p(20) && derivable(&g) && subcritical(&g) {
        c["entry"] = json!("plain");
        c["api"] = json!(r.pick(&["generate", "seeded", "cb", "cbseeded"]));
        c["seed"] = json!(r.u() >> 12);
    }
    c
}
/// C12: callbacks that reject
pub fn make12(r: &mut R, k: u64, _tier: &str) -> Value {
    let mut g = grammar(r);
    let infer = r.p(30);
    while !derivable(&g) || (infer && !subcritical(&g)) {
        g = grammar(r);
    }
    if infer {
        json!({"g": gj(&g), "entry": "cb", "api": r.pick(&["cb", "cbseeded"]), "seed": r.u() >> 12, "verdicts": verdicts(r)})
    } else {
        json!({"g": gj(&g), "entry": "cbs", "strat": strat_case(r), "budget": r.r(5, 70), "verdicts": verdicts(r)})
    }
}

const MAX_REJECT: usize = 12;

pub fn run(c: &Value) -> Value {
    let gm = gfrom(&c["g"]);
    let g = gb(&gm);
    let before = g.clone();
    let events = Rc::new(RefCell::new(Vec::<Value>::new()));
    let vs: Vec<u64> = c["verdicts"].as_array().unwrap().iter().map(|v| v.as_u64().unwrap()).collect();
    let max_reject = if c["entry"] == "cb" { 4 } else { c["maxrej"].as_u64().map_or(MAX_REJECT, |v| v as usize) };
    let count = RefCell::new((0usize, 0usize));
    let accepting = vs.is_empty();
    let ev = events.clone();
    let cb = |name: &str, text: &str| -> bool {
        let mut k = count.borrow_mut();
        let y = vs.is_empty() || k.1 >= max_reject || vs[k.0 % vs.len()] == 1;
        k.0 += 1;
        k.1 += !y as usize;
        ev.borrow_mut().push(json!(["v", name, text, y as u64]));
        y
    };
    let budget = c["budget"].as_u64().unwrap_or(0) as usize;
    let res = match c["entry"].as_str().unwrap() {
        "strat" => {
            let mut s = Rec { inner: strategy(&c["strat"], &gm), g: &g, events: events.clone(), budget };
            g.generate_seeded_with_strategy(&mut s)
        }
        "cbs" => {
            let mut s = Rec { inner: strategy(&c["strat"], &gm), g: &g, events: events.clone(), budget };
            g.generate_seeded_callback_with_strategy(&cb, &mut s)
        }
        e => {
            let mut rng = StdRng::from_seed(seed_of(&c["seed"]));
            let silent = e == "plain";
            let yes = |_: &str, _: &str| true;
            match c["api"].as_str().unwrap() {
                "generate" => g.generate(),
                "seeded" => g.generate_seeded(&mut rng),
                "seeded2" => {
                    let _ = g.generate_seeded(&mut rng);
                    g.generate_seeded(&mut rng)
                }
                "cb" if silent => g.generate_callback(yes),
                "cbseeded" if silent => g.generate_seeded_callback(&mut rng, yes),
                "cb" => g.generate_callback(&cb),
                "cbseeded" => g.generate_seeded_callback(&mut rng, &cb),
                x => panic!("{x}"),
            }
        }
    };
    let result = match &res {
        Ok(s) => json!(["ok", s]),
        Err(e) => err(e),
    };
    let ev = events.borrow().clone();
    // too long for inferring the choices: only the sentence is judged
    let long = c["entry"] == "cb" && ev.len() > 24;
    json!({"events": ev, "long": long, "result": result, "accepting": accepting, "same": g == before})
}

// ------------------------------------------------------------ very many rejections
/// C12: tens of thousands of rejections; no recursion, so that a rejected expansion is a loop
pub fn make12_long(r: &mut R, _k: u64, _tier: &str) -> Value {
    let many = |r: &mut R| -> u64 {
        if r.p(60) {
            *r.pick(&[300u64, 999, 1000, 1001, 1024, 2000, 2049, 4096, 5001, 8192, 10_001, 16_385, 20_000, 32_768, 40_000, 65_536, 65_537, 70_000, 100_001])
        } else {
            1 << r.r(3, 17)
        }
    };
    let m = r.r(1, 4);
    let leaf: Vec<Alt> = (0..m).map(|i| vec![t(&format!("{i}"))]).collect();
    let seed = r.u() >> 12;
    if r.p(40) {
        // one production; the choices are not recorded
        let g: Gram = vec![(n("s"), leaf)];
        let api = *r.pick(&["cb", "cbseeded", "walk", "cover", "weight", "depth"]);
        return json!({"g": gj(&g), "entry": "flat", "api": api, "seed": seed, "rejects": [["s", many(r)]], "picks": []});
    }
    let g: Gram = match r.n(4) {
        0 => vec![(n("s"), leaf)],
        1 => vec![(n("s"), vec![vec![t("a"), n("d")], vec![n("d"), n("d")]]), (n("d"), leaf)],
        2 => vec![(n("s"), vec![vec![n("e"), t("z"), n("d")]]), (n("e"), vec![vec![n("d")], vec![t("")]]), (n("d"), leaf)],
        _ => vec![(n("s"), vec![vec![n("d"), t("b"), t("")]]), (n("d"), vec![vec![n("e"), n("e")], vec![t("x")]]), (n("e"), leaf)],
    };
    let mut rejects = vec![];
    let rich = r.n(g.len());
    for (i, p) in g.iter().enumerate() {
        let k = if i == rich { many(r) } else { r.n(4) as u64 };
        rejects.push(json!([match &p.0 { T::N(x) | T::T(x) => x }, k]));
    }
    let k = r.r(1, 7);
    json!({"g": gj(&g), "entry": "cbs", "api": r.pick(&["script", "walk", "cover"]), "seed": seed, "rejects": rejects,
           "picks": (0..k).map(|_| r.n(4)).collect::<Vec<_>>()})
}
/// Rows of rejected expansions of the same name from the same point, with how often each was seen.
#[derive(Default)]
struct Rows {
    done: Vec<Value>,
    pending: Vec<Value>,
    row: BTreeMap<String, (u64, Vec<Value>)>,
    key: Option<(Value, Value, Value)>,
}
impl Rows {
    fn flush(&mut self) {
        let row = std::mem::take(&mut self.row);
        if !row.is_empty() {
            self.done.push(json!(["x", row.into_values().map(|(k, b)| json!([k, b])).collect::<Vec<_>>()]));
        }
        self.key = None;
    }
    fn push(&mut self, e: Value) {
        let reject = e[0] == "v" && e[3] == 0;
        self.pending.push(e);
        if !reject {
            return;
        }
        // the expansion that was rejected begins with the last choice at its depth
        let name = self.pending.last().unwrap()[1].clone();
        let mut open = 0;
        let mut at = None;
        for i in (0..self.pending.len() - 1).rev() {
            if self.pending[i][0] == "v" {
                open += 1;
            } else if open == 0 {
                at = Some(i);
                break;
            } else {
                open -= 1;
            }
        }
        let Some(at) = at else {
            // it began before an earlier row
            self.flush();
            self.done.append(&mut self.pending);
            return;
        };
        let block: Vec<Value> = self.pending.drain(at..).collect();
        let rest: Vec<Value> = self.pending.drain(..).collect();
        let key = (block[0][1].clone(), block[0][2].clone(), name);
        if !rest.is_empty() || self.key.as_ref() != Some(&key) {
            self.flush();
            self.done.extend(rest);
        }
        self.key = Some(key);
        let id = json!(block).to_string();
        self.row.entry(id).or_insert((0, block)).0 += 1;
    }
    fn end(mut self) -> Vec<Value> {
        self.flush();
        self.done.append(&mut self.pending);
        self.done
    }
}
struct Seen<'a> {
    inner: Any,
    g: &'a Grammar,
    rows: Rc<RefCell<Rows>>,
}
impl GenerationStrategy for Seen<'_> {
    fn choose<'p>(&mut self, p: &'p Production, d: usize) -> Option<&'p Expression> {
        let e = self.inner.choose(p, d);
        self.rows.borrow_mut().push(json!(["c", prod_index(self.g, p), d, alt_index(p, e)]));
        e
    }
}
pub fn run_long12(c: &Value) -> Value {
    let gm = gfrom(&c["g"]);
    let g = gb(&gm);
    let before = g.clone();
    let left: RefCell<BTreeMap<String, u64>> = RefCell::new(
        c["rejects"].as_array().unwrap().iter().map(|v| (v[0].as_str().unwrap().to_string(), v[1].as_u64().unwrap())).collect(),
    );
    let flat = c["entry"] == "flat";
    let rows = Rc::new(RefCell::new(Rows::default()));
    let tally: RefCell<BTreeMap<(String, String, u64), u64>> = RefCell::default();
    let rw = rows.clone();
    let cb = |name: &str, text: &str| -> bool {
        let mut l = left.borrow_mut();
        let y = match l.get_mut(name) {
            Some(k) if *k > 0 => {
                *k -= 1;
                false
            }
            _ => true,
        };
        if flat {
            *tally.borrow_mut().entry((name.into(), text.into(), y as u64)).or_insert(0) += 1;
        } else {
            rw.borrow_mut().push(json!(["v", name, text, y as u64]));
        }
        y
    };
    let seed = seed_of(&c["seed"]);
    let res = match c["api"].as_str().unwrap() {
        "cb" => g.generate_callback(&cb),
        "cbseeded" => g.generate_seeded_callback(&mut StdRng::from_seed(seed), &cb),
        api => {
            let inner = match api {
                "walk" => Any::W(RandomWalk::from_seed(seed)),
                "cover" => Any::C(CoverageGuided::from_seed(seed)),
                "weight" => Any::X(Weighted::from_seed(1, 2, seed)),
                "depth" => Any::D(DepthBounded::from_seed(3, seed)),
                _ => strategy(&json!({"kind": "script", "picks": c["picks"]}), &gm),
            };
            if flat {
                let mut s = inner;
                g.generate_seeded_callback_with_strategy(&cb, &mut s)
            } else {
                let mut s = Seen { inner, g: &g, rows: rows.clone() };
                g.generate_seeded_callback_with_strategy(&cb, &mut s)
            }
        }
    };
    let result = match &res {
        Ok(s) => json!(["ok", s]),
        Err(e) => err(e),
    };
    let events = if flat {
        tally.borrow().iter().map(|((a, b, y), k)| json!(["s", a, b, y, k])).collect()
    } else {
        rows.take().end()
    };
    json!({"events": events, "long": false, "result": result, "accepting": false, "same": g == before})
}

/// Questions about a stretched grammar (see far.rs): those about links are answered and not recorded,
/// the others are put to the strategy as questions about the small grammar.
pub struct Seen2<'a> {
    pub inner: Any,
    pub g: &'a Grammar,
    pub events: Rc<RefCell<Vec<Value>>>,
    pub budget: usize,
    /// production of the stretched grammar -> production of the small one
    pub places: BTreeMap<usize, usize>,
    pub len: usize,
    pub bad: Rc<RefCell<String>>,
    pub small: Grammar,
    /// where the alternatives of the small grammar are
    pub alts: Vec<Vec<usize>>,
}
impl GenerationStrategy for Seen2<'_> {
    fn choose<'p>(&mut self, p: &'p Production, d: usize) -> Option<&'p Expression> {
        let i = prod_index(self.g, p);
        let Some(j) = (i > 0).then(|| self.places.get(&(i - 1))).flatten().copied() else {
            let at = match &p.lhs {
                bnf::Term::Nonterminal(x) => x.split_once('\u{1}').map_or(0, |y| y.1.parse::<usize>().unwrap_or(0)),
                _ => 0,
            };
            if d % (self.len + 1) != at {
                *self.bad.borrow_mut() = format!("depth {d} at link {at}");
            }
            return p.rhs_iter().next();
        };
        if (d + 1) % (self.len + 1) != 0 {
            *self.bad.borrow_mut() = format!("depth {d} at the end of a chain");
        }
        let d = d / (self.len + 1);
        let q = self.small.productions_iter().nth(j).unwrap();
        let a = if self.budget == 0 { 0 } else { alt_index(q, self.inner.choose(q, d)) };
        self.budget = self.budget.saturating_sub(1);
        self.events.borrow_mut().push(json!(["c", j + 1, d, a]));
        if a == 0 { None } else { p.rhs_iter().nth(self.alts[j].get(a - 1).copied().unwrap_or(a - 1)) }
    }
}

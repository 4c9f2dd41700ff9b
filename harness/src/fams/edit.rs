//! Editing grammars, and the + operators.
use super::generate::seed_of;
use super::validate::err;
use crate::g::*;
use crate::ggen::{self, Shape};
use crate::rng::R;
use bnf::{Expression, GenerationStrategy, Grammar, Production, RandomWalk, Term};
use serde_json::{Value, json};
use std::hash::{DefaultHasher, Hash, Hasher};

fn pool_terms() -> Vec<T> {
    vec![t("x"), t("y"), t(""), t("a"), n("a"), n("b"), n("c"), n("")]
}
/// groups of alternatives that are different values but are written alike
fn alike(r: &mut R) -> Alt {
    let all: [Alt; 14] = [
        vec![n("a"), n("b")], vec![n("a> <b")], vec![n("a><b")], vec![n("ab")],
        vec![t("x"), t("y")], vec![t("x' 'y")], vec![t("x\" \"y")], vec![t("xy")],
        vec![n("a"), t("x")], vec![t("<a>"), t("x")], vec![t("a"), t("x")], vec![n("A"), t("x")],
        vec![n("a "), t("x")], vec![n("'a'")],
    ];
    r.pick(&all).clone()
}
fn alt(r: &mut R) -> Alt {
    if r.p(15) {
        return alike(r);
    }
    let k = *r.pick(&[0, 1, 1, 1, 2, 3]);
    (0..k).map(|_| r.pick(&pool_terms()).clone()).collect()
}
fn prod(r: &mut R) -> Prod {
    let k = *r.pick(&[0, 1, 1, 2, 3]);
    let l = r.pick(&[n("a"), n("b"), n("c"), t("a")]).clone();
    (l, (0..k).map(|_| alt(r)).collect())
}
pub fn make(r: &mut R, _k: u64, tier: &str) -> Value {
    let m = r.n(5);
    let mut g: Gram = (0..m).map(|_| prod(r)).collect();
    if r.p(15) {
        // many alternatives, many terms
        let k = r.r(3, 9);
        let l = r.r(3, 9);
        let many: Vec<Alt> = (0..k).map(|_| alt(r)).collect();
        let long: Alt = (0..l).map(|_| r.pick(&pool_terms()).clone()).collect();
        g.push((n("a"), many));
        g.push((n("b"), vec![long, alt(r)]));
    }
    if r.p(20) {
        g = ggen::random_grammar(r, &Shape::parse());
    }
    let start = g.clone();
    // follow the edits, so that removals and positions often hit something
    let mut ops: Vec<Value> = vec![];
    let len = r.r(1, if tier == "thorough" { 30 } else { 14 });
    let mut known: Vec<Prod> = g.clone();
    for _ in 0..len {
        let i = 1 + r.n(5);
        let j = 1 + r.n(4);
        let some_p = if !known.is_empty() && r.p(75) { r.pick(&known).clone() } else { prod(r) };
        let some_a = if !some_p.1.is_empty() && r.p(70) { r.pick(&some_p.1).clone() } else { alt(r) };
        let some_t = if !some_a.is_empty() && r.p(70) { r.pick(&some_a).clone() } else { r.pick(&pool_terms()).clone() };
        let (mut some_p, mut some_a, mut some_t) = (some_p, some_a, some_t);
        if r.p(15) {
            some_p = ggen::near_prod(r, &some_p);
            some_a = ggen::near_alt(r, &some_a);
            some_t = ggen::near_term(r, &some_t);
        }
        known.push(some_p.clone());
        ops.push(match r.n(16) {
            0 | 1 | 2 => json!(["addp", 0, 0, 0, pj(&some_p), 0]),
            3 | 4 => json!(["rmp", 0, 0, 0, pj(&some_p), 0]),
            5 => json!(["adda", i, 0, 0, aj(&some_a), 0]),
            6 | 7 => json!(["rma", i, 0, 0, aj(&some_a), 0]),
            8 => json!(["addt", i, j, 0, tj(&some_t), 0]),
            9 | 10 => json!(["rmt", i, j, 0, tj(&some_t), 0]),
            11 => json!(["lhs", i, 0, 0, tj(&n(r.pick(&["a", "b", "d"]))), 0]),
            12 => match r.n(3) {
                0 => json!(["sett", i, j, 1 + r.n(3), tj(&some_t), 0]),
                1 => json!(["setp", i, 0, 0, pj(&some_p), 0]),
                _ => json!(["seta", i, j, 0, aj(&some_a), 0]),
            },
            13 => json!(["subst", 0, 0, 0, tj(&some_t), tj(r.pick(&pool_terms()))]),
            14 => json!(["clone", 0, 0, 0, 0, 0]),
            _ => {
                if r.p(10) {
                    json!(["clear", 0, 0, 0, 0, 0])
                } else {
                    json!(["swap", 0, 0, 0, 0, 0])
                }
            }
        });
    }
    json!({"g": gj(&start), "ops": ops, "near": r.u() >> 12})
}
/// Comparisons of what is there with what is nearly the same.
fn compare(r: &mut R, g: &Grammar, gm: &Gram) -> Vec<Value> {
    let mut out = vec![];
    let y = ggen::near_gram(r, gm);
    let x = gb(&y);
    out.push(json!(["grammar", gj(gm), gj(&y), (*g == x) as u8, (x == *g) as u8, (*g != x) as u8]));
    if let (Some(p), false) = (g.productions_iter().next(), gm.is_empty()) {
        let i = r.n(gm.len());
        let p = g.productions_iter().nth(i).unwrap_or(p);
        let y = ggen::near_prod(r, &gm[i]);
        let x = pb(&y);
        {
            let mut h = g.clone();
            let ret: Vec<Value> = h.remove_production(&x).iter().map(|p| pj(&prod_of(p))).collect();
            out.push(json!(["remove", gj(gm), pj(&y), gj(&gram_of(&h)), ret]));
        }
        out.push(json!(["production", pj(&gm[i]), pj(&y), (*p == x) as u8, (x == *p) as u8, (*p != x) as u8]));
        if !gm[i].1.is_empty() {
            let j = r.n(gm[i].1.len());
            let e = p.rhs_iter().nth(j).unwrap();
            let y = ggen::near_alt(r, &gm[i].1[j]);
            let x = ab(&y);
            {
                let mut h = p.clone();
                let ret: Vec<Value> = h.remove_from_rhs(&x).iter().map(|e| aj(&expr_of(e))).collect();
                out.push(json!(["remove", pj(&gm[i])[1], aj(&y), pj(&prod_of(&h))[1], ret]));
            }
            out.push(json!(["expression", aj(&gm[i].1[j]), aj(&y), (*e == x) as u8, (x == *e) as u8, (*e != x) as u8]));
            if !gm[i].1[j].is_empty() {
                let k = r.n(gm[i].1[j].len());
                let q = e.terms_iter().nth(k).unwrap();
                let y = if r.p(50) { gm[i].1[j][k].clone() } else { ggen::near_term(r, &gm[i].1[j][k]) };
                let x = tb(&y);
                {
                    let mut h = e.clone();
                    let ret: Vec<Value> = h.remove_term(&x).iter().map(|t| tj(&term_of(t))).collect();
                    out.push(json!(["remove", aj(&gm[i].1[j]), tj(&y), aj(&expr_of(&h)), ret]));
                }
                out.push(json!(["term", tj(&gm[i].1[j][k]), tj(&y), (*q == x) as u8, (x == *q) as u8, (*q != x) as u8]));
            }
        }
    }
    out
}
fn hash<X: Hash>(x: &X) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
struct Budget(RandomWalk, usize);
impl GenerationStrategy for Budget {
    fn choose<'p>(&mut self, p: &'p Production, d: usize) -> Option<&'p Expression> {
        if self.1 == 0 {
            return None;
        }
        self.1 -= 1;
        self.0.choose(p, d)
    }
}
/// What the rest of the library makes of a grammar.
fn behave(g: &Grammar, gm: &Gram) -> Value {
    let v = match g.validate() {
        Ok(()) => "ok".to_string(),
        Err(e) => err(&e)[0].as_str().unwrap().to_string(),
    };
    let mut parses = vec![];
    if let Ok(p) = g.build_parser() {
        if !cyclic(gm) {
            for w in ["", "x", "xy", "a"] {
                let ts: Vec<Value> = p.parse_input(w).take(3).map(|t| tree_json(&t)).collect();
                parses.push(json!(ts));
            }
        }
    }
    let gens: Vec<Value> = (0..3u64)
        .map(|s| {
            let mut b = Budget(RandomWalk::from_seed(seed_of(&json!(s))), 60);
            match g.generate_seeded_with_strategy(&mut b) {
                Ok(s) => json!(["ok", s]),
                Err(e) => err(&e),
            }
        })
        .collect();
    json!({"validate": v, "text": g.to_string(), "parses": parses, "generates": gens})
}
pub fn run(c: &Value) -> Value {
    let mut g = gb(&gfrom(&c["g"]));
    if c["g"].as_array().unwrap().is_empty() {
        g = Grammar::new();
    }
    let mut copies: Vec<Grammar> = vec![];
    let mut seen = vec![];
    for op in c["ops"].as_array().unwrap() {
        let ix = |k: usize| op[k].as_u64().unwrap_or(0) as usize;
        let (i, j, k) = (ix(1).wrapping_sub(1), ix(2).wrapping_sub(1), ix(3).wrapping_sub(1));
        let v = &op[4];
        let mut ret = json!([]);
        match op[0].as_str().unwrap() {
            "addp" => g.add_production(pb(&pfrom(v))),
            "rmp" => {
                if let Some(p) = g.remove_production(&pb(&pfrom(v))) {
                    ret = json!([pj(&prod_of(&p))]);
                }
            }
            "adda" => {
                if let Some(p) = g.productions_iter_mut().nth(i) {
                    p.add_to_rhs(ab(&afrom(v)));
                }
            }
            "rma" => {
                if let Some(p) = g.productions_iter_mut().nth(i) {
                    if let Some(e) = p.remove_from_rhs(&ab(&afrom(v))) {
                        ret = json!([aj(&expr_of(&e))]);
                    }
                }
            }
            "addt" => {
                if let Some(e) = g.productions_iter_mut().nth(i).and_then(|p| p.rhs_iter_mut().nth(j)) {
                    e.add_term(tb(&tfrom(v)));
                }
            }
            "rmt" => {
                if let Some(e) = g.productions_iter_mut().nth(i).and_then(|p| p.rhs_iter_mut().nth(j)) {
                    if let Some(x) = e.remove_term(&tb(&tfrom(v))) {
                        ret = json!([tj(&term_of(&x))]);
                    }
                }
            }
            "lhs" => {
                if let Some(p) = g.productions_iter_mut().nth(i) {
                    p.lhs = tb(&tfrom(v));
                }
            }
            "sett" => {
                if let Some(e) = g.productions_iter_mut().nth(i).and_then(|p| p.rhs_iter_mut().nth(j)) {
                    if let Some(x) = e.terms_iter_mut().nth(k) {
                        *x = tb(&tfrom(v));
                    }
                }
            }
            "setp" => {
                if let Some(p) = g.productions_iter_mut().nth(i) {
                    *p = pb(&pfrom(v));
                }
            }
            "seta" => {
                if let Some(e) = g.productions_iter_mut().nth(i).and_then(|p| p.rhs_iter_mut().nth(j)) {
                    *e = ab(&afrom(v));
                }
            }
            "subst" => {
                let (from, to) = (tb(&tfrom(v)), tb(&tfrom(&op[5])));
                for p in g.productions_iter_mut() {
                    if p.lhs == from {
                        p.lhs = to.clone();
                    }
                    for e in p.rhs_iter_mut() {
                        for x in e.terms_iter_mut() {
                            if *x == from {
                                *x = to.clone();
                            }
                        }
                    }
                }
            }
            "clear" => g = Grammar::default(),
            "clone" => copies.push(g.clone()),
            "swap" => {
                if let Some(l) = copies.last_mut() {
                    std::mem::swap(l, &mut g);
                }
            }
            x => panic!("{x}"),
        }
        let now = gram_of(&g);
        let fresh = gb(&now);
        let lens: Vec<usize> = g.productions_iter().map(|p| p.len()).collect();
        let empty: Vec<u8> = g.productions_iter().map(|p| p.is_empty() as u8).collect();
        let same = g == fresh && hash(&g) == hash(&fresh) && !(g != fresh);
        let eq: Vec<u8> = copies.iter().map(|x| (*x == g) as u8).collect();
        seen.push(json!({"ret": ret, "g": gj(&now), "lens": lens, "empty": empty, "fresh": same as u8, "eq": eq,
                         "copies": copies.iter().map(|x| gj(&gram_of(x))).collect::<Vec<_>>()}));
    }
    let now = gram_of(&g);
    let mut near = vec![];
    if let Some(seed) = c.get("near").and_then(|v| v.as_u64()) {
        let mut r = R::from(seed);
        for _ in 0..6 {
            near.extend(compare(&mut r, &g, &now));
        }
    }
    json!({"seen": seen, "near": near, "behaves": behave(&g, &now), "behavesFresh": behave(&gb(&now), &now)})
}

// ------------------------------------------------------------ + operators (C20)
pub fn make_plus(r: &mut R, _k: u64, _tier: &str) -> Value {
    let m = r.r(1, 4);
    let sums: Vec<Value> = (0..m)
        .map(|_| {
            let mut opd = |r: &mut R| {
                if r.p(60) { json!(["E", aj(&alt(r))]) } else { json!(["t", tj(r.pick(&pool_terms()))]) }
            };
            let x = opd(r);
            let y = opd(r);
            json!([x, y, r.n(2)])
        })
        .collect();
    json!({"what": "plus", "in": sums})
}
pub fn run_plus(c: &Value) -> Value {
    let mut sums = vec![];
    for s in c["in"].as_array().unwrap() {
        let (x, y) = (&s[0], &s[1]);
        let by_ref = s[2] == 1;
        let (mut xa, mut ya) = (x.clone(), y.clone());
        let built = match (x[0] == "E", y[0] == "E") {
            (true, true) => {
                let (a, b) = (ab(&afrom(&x[1])), ab(&afrom(&y[1])));
                if by_ref {
                    let s = &a + b;
                    xa = json!(["E", aj(&expr_of(&a))]);
                    s
                } else {
                    a + b
                }
            }
            (true, false) => {
                let (a, b) = (ab(&afrom(&x[1])), tb(&tfrom(&y[1])));
                if by_ref {
                    let s = &a + b;
                    xa = json!(["E", aj(&expr_of(&a))]);
                    s
                } else {
                    a + b
                }
            }
            (false, true) => {
                let (a, b) = (tb(&tfrom(&x[1])), ab(&afrom(&y[1])));
                if by_ref {
                    let s = a + &b;
                    ya = json!(["E", aj(&expr_of(&b))]);
                    s
                } else {
                    a + b
                }
            }
            (false, false) => tb(&tfrom(&x[1])) + tb(&tfrom(&y[1])),
        };
        sums.push(json!({"x": x, "y": y, "xafter": xa, "yafter": ya, "built": aj(&expr_of(&built))}));
    }
    json!({"sums": sums})
}

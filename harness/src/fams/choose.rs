//! The built-in strategies: direct questions, generation, tallies, reproducibility.
use super::generate::{Any, Rec, alt_index, derivable, grammar, prod_index, seed_of, strategy, subcritical};
use super::validate::err;
use crate::g::*;
use crate::ggen::{self, Shape};
use crate::rng::R;
use bnf::rand::{SeedableRng, rngs::StdRng};
use bnf::{CoverageGuided, DepthBounded, Expression, GenerationStrategy, Grammar, Production, RandomWalk, Weighted};
use serde_json::{Value, json};
use std::cell::RefCell;
use std::rc::Rc;

// ------------------------------------------------------------ C14, C15
fn escape_all(r: &mut R, g: &mut Gram) {
    g.retain(|p| matches!(p.0, T::N(_)));
    for p in g.iter_mut() {
        if !p.1.iter().any(|a| !a.is_empty() && a.iter().all(|x| matches!(x, T::T(_)))) {
            let at = r.n(p.1.len() + 1);
            p.1.insert(at, vec![t(r.pick(&["x", "", "ab"]))]);
        }
    }
}
fn prods(r: &mut R) -> Gram {
    let sh = Shape { nts: (1, 4), alts: (1, 6), len: (0, 3), empty_term: 15, nonterm: 50, undef: 20, split: 30, empty_alt: 40 };
    let mut g = ggen::random_grammar(r, &sh);
    g.retain(|p| !p.1.is_empty());
    if g.is_empty() {
        g.push((n("s"), vec![vec![t("x")], vec![n("s")]]));
    }
    if r.p(40) {
        let i = r.n(g.len());
        let p = g[i].clone();
        g.push(p); // an equal production
    }
    if r.p(30) {
        let i = r.n(g.len());
        let a = r.pick(&g[i].1).clone();
        g[i].1.push(a); // an equal alternative
    }
    g
}
fn make_choose(r: &mut R, kind: &str, tier: &str) -> Value {
    let seed = r.u() >> 12;
    let max = *r.pick(&[0usize, 0, 0, 1, 1, 1, 2, 2, 3, 5, 10, 33, 64, 100, 129, 256, 300, 1024, 65537, 1000000]);
    let kind = if r.p(10) { format!("{kind}0") } else { kind.to_string() };
    if r.p(45) {
        // generation of several sentences with one strategy
        let mut g = grammar(r);
        if kind.starts_with("depth") {
            escape_all(r, &mut g);
        }
        let und: Vec<String> = vec![];
        let _ = und;
        let max = if kind.starts_with("depth") { r.n(5) } else { 0 };
        let rounds = r.r(1, 6);
        let budget = if kind.starts_with("depth") { 400 } else { r.r(20, 200) };
        let mut c = json!({"g": gj(&g), "mode": "generate", "strat": {"kind": kind, "max": max, "seed": seed},
               "rounds": rounds, "budget": budget});
        if kind.starts_with("depth") {
            // keep the number of expansions small: alternatives with at most two names
            let mut g2 = g.clone();
            for p in g2.iter_mut() {
                p.1.retain(|a| a.iter().filter(|x| matches!(x, T::N(_))).count() <= 2);
            }
            c["g"] = gj(&g2);
            c["rounds"] = json!(r.r(1, 3));
        }
        return c;
    }
    let g = prods(r);
    let mut calls = vec![];
    let heavy = r.p(15);
    let len = if heavy { 0 } else { r.r(1, if tier == "thorough" { 80 } else { 40 }) };
    let near = |r: &mut R| -> usize {
        match r.n(6) {
            0 => 0,
            1 => max.saturating_sub(1),
            2 | 3 => max,
            4 => max + *r.pick(&[1, 1, 1, 2, 100, 256, 65536]),
            _ if r.p(15) => *r.pick(&[20, 33, 64, 100, 128, 255, 256, 257, 1000, 65535, 65536, 1_000_000]),
            _ => r.n(12),
        }
    };
    for _ in 0..len {
        if kind.starts_with("depth") && r.p(3) {
            calls.push(json!([0, r.n(4)]));
        }
        calls.push(json!([1 + r.n(g.len()), near(r)]));
    }
    if heavy {
        // often enough that every alternative must show up
        let p = r.n(g.len());
        let d = if kind.starts_with("depth") { max.saturating_sub(1 + r.n(2)) } else { r.n(3) };
        for i in 0..62 * g[p].1.len() + g[p].1.len() {
            if r.p(10) {
                calls.push(json!([1 + r.n(g.len()), near(r)]));
            }
            calls.push(json!([1 + p, d]));
        }
    }
    let mut c = json!({"g": gj(&g), "mode": "direct", "strat": {"kind": kind, "max": max, "seed": seed}, "calls": calls});
    if r.p(10) {
        // in between, many questions about many other productions
        let calls = c["calls"].as_array().unwrap().len();
        c["burst"] = json!([r.n(calls.min(40)), r.pick(&[10, 100, 300, 1100, 3100, 5000, 11_000, 70_000])]);
    }
    c
}
pub fn make14(r: &mut R, _k: u64, tier: &str) -> Value {
    make_choose(r, "depth", tier)
}
pub fn make15(r: &mut R, _k: u64, tier: &str) -> Value {
    make_choose(r, "cover", tier)
}
pub fn run_choose(c: &Value) -> Value {
    let gm = gfrom(&c["g"]);
    let g = gb(&gm);
    let mut s = strategy(&c["strat"], &gm);
    let events = Rc::new(RefCell::new(vec![]));
    let mut results = vec![];
    if c["mode"] == "reuse" {
        return reuse(&gm, s);
    }
    if c["mode"] == "direct" {
        let ps: Vec<&Production> = g.productions_iter().collect();
        let burst = c.get("burst").map(|b| (b[0].as_u64().unwrap() as usize, b[1].as_u64().unwrap() as usize));
        let others: Vec<Production> = match burst {
            Some((_, size)) => (0..size.div_ceil(20)).map(|i| pb(&(n(&format!("o{i}")), (0..20).map(|j| vec![t(&format!("{j}"))]).collect()))).collect(),
            None => vec![],
        };
        for (at, call) in c["calls"].as_array().unwrap().iter().enumerate() {
            if burst.is_some_and(|b| b.0 == at) {
                for o in &others {
                    for _ in 0..20 {
                        let _ = s.choose(o, 0);
                    }
                }
            }
            let (p, d) = (call[0].as_u64().unwrap() as usize, call[1].as_u64().unwrap() as usize);
            if p == 0 {
                if let Any::D(x) = &mut s {
                    x.max_depth = d;
                }
                events.borrow_mut().push(json!([0, d, 0]));
            } else {
                let e = s.choose(ps[p - 1], d);
                events.borrow_mut().push(json!([p, d, alt_index(ps[p - 1], e)]));
            }
        }
    } else {
        let budget = c["budget"].as_u64().unwrap() as usize;
        let mut rec = Rec { inner: s, g: &g, events: events.clone(), budget };
        for _ in 0..c["rounds"].as_u64().unwrap() {
            rec.budget = budget;
            results.push(match g.generate_seeded_with_strategy(&mut rec) {
                Ok(s) => json!(["ok", s]),
                Err(e) => err(&e),
            });
        }
        let ev: Vec<Value> = events.borrow().iter().filter(|e| e[3] != 0).map(|e| json!([e[1], e[2], e[3]])).collect();
        *events.borrow_mut() = ev;
    }
    let ev = events.borrow().clone();
    json!({"events": ev, "results": results})
}
/// One production after the other in the same place: dropped and replaced.
fn reuse(gm: &Gram, mut s: Any) -> Value {
    let mut ev = vec![];
    let mut places = vec![];
    for (i, p) in gm.iter().enumerate() {
        let b = Box::new(pb(p));
        places.push(&*b as *const Production as usize);
        for _ in 0..p.1.len() {
            let e = s.choose(&b, 0);
            ev.push(json!([i + 1, 0, alt_index(&b, e)]));
        }
    }
    places.dedup();
    json!({"events": ev, "results": [], "one_place": places.len() == 1})
}

// ------------------------------------------------------------ C16
fn w32(v: &Value) -> u32 {
    match v[0].as_str().unwrap() {
        "half" => 1 << 31,
        "max" => u32::MAX,
        _ => v[1].as_u64().unwrap() as u32,
    }
}
pub fn make16(r: &mut R, _k: u64, tier: &str) -> Value {
    let m = *r.pick(&[1usize, 2, 2, 3, 3, 4, 5, 7, 8, 9]);
    let name = *r.pick(&["s", "a b", "é", ""]);
    let alts: Vec<Alt> = (0..m)
        .map(|i| match r.n(7) {
            0 | 1 => vec![t(&format!("t{i}"))],
            2 => vec![n(name)],
            3 => vec![t(name), t(&format!("{i}"))], // the terminal of the same name is not recursive
            4 => vec![t("x"), n("other"), n(name), t("y")],
            5 => vec![n("other"), n(&format!("{name}'"))],
            _ => vec![],
        })
        .collect();
    let mut alts = alts;
    let how = *r.pick(&["direct", "direct", "direct", "depths", "seeds", "sentences", "mixed", "mixed"]);
    let kind = if r.p(40) { "walk" } else { "weight" };
    let ws = [json!(["n", 0]), json!(["n", 0]), json!(["n", 1]), json!(["n", 1]), json!(["n", 2]), json!(["n", 3]), json!(["n", 10]),
              json!(["n", 100]), json!(["half", 0]), json!(["max", 0])];
    let how = if kind == "weight" && how == "sentences" { "direct" } else { how };
    let lhs = if how == "sentences" {
        alts = (0..m.max(2)).map(|i| vec![t(&format!("t{i}"))]).collect();
        n(name)
    } else {
        n(name)
    };
    let nn = match how {
        "seeds" | "sentences" => 4000,
        _ => if tier == "thorough" { 40000 } else { 20000 },
    };
    // what happens to the strategy and the production before
    let mut before = vec![];
    for _ in 0..r.n(4) {
        match r.n(3) {
            0 => before.push(json!(["weights", r.pick(&ws), r.pick(&ws)])),
            1 => before.push(json!(["ask", r.r(1, 5)])),
            _ => {
                let mut q: Vec<Alt> = alts.clone();
                match r.n(4) {
                    0 => r.shuffle(&mut q),
                    1 => q.reverse(),
                    2 => q = q.iter().map(|_| vec![if r.p(50) { n(name) } else { t("q") }]).collect(),
                    _ => q.truncate(r.r(1, m)),
                }
                before.push(json!(["edit", q.iter().map(aj).collect::<Vec<_>>()]));
            }
        }
    }
    json!({"prod": pj(&(lhs, alts)), "kind": kind, "before": before, "wr": r.pick(&ws), "wn": r.pick(&ws), "how": how, "seed": r.u() >> 12, "n": nn,
           "api": r.pick(&["generate", "cb", "seeded", "seededone", "cbseeded", "strat", "default"])})
}
pub fn run16(c: &Value) -> Value {
    let pm = pfrom(&c["prod"]);
    let mut p = pb(&pm);
    let m = pm.1.len();
    let mut tally = vec![0u64; m];
    let nn = c["n"].as_u64().unwrap();
    // pairs only where they are not too many
    let small = m <= 20;
    let mut pair = if small { vec![vec![0u64; m]; m] } else { vec![] };
    let mut pairs = 0;
    let (mut again, mut twos) = (0u64, 0u64);
    let (wr, wn) = (w32(&c["wr"]), w32(&c["wn"]));
    let mk = |seed: [u8; 32]| -> Any {
        if c["kind"] == "walk" { Any::W(RandomWalk::from_seed(seed)) } else { Any::X(Weighted::from_seed(wr, wn, seed)) }
    };
    let mut r = R::from(c["seed"].as_u64().unwrap());
    let mut ok = |a: usize| a - 1;
    match c["how"].as_str().unwrap() {
        "seeds" => {
            for _ in 0..nn {
                let mut s = mk(r.seed32());
                tally[ok(alt_index(&p, s.choose(&p, 0)))] += 1;
            }
        }
        "sentences" => {
            let g = Grammar::from_parts(vec![p.clone()]);
            let mut rng = StdRng::from_seed(r.seed32());
            let mut st = RandomWalk::default();
            for _ in 0..nn {
                let yes = |_: &str, _: &str| true;
                let s = match c["api"].as_str().unwrap() {
                    "generate" => g.generate(),
                    "cb" => g.generate_callback(yes),
                    "seeded" => g.generate_seeded(&mut rng),
                    "seededone" => g.generate_seeded(&mut StdRng::from_seed(r.seed32())),
                    "cbseeded" => g.generate_seeded_callback(&mut rng, yes),
                    "strat" => g.generate_seeded_with_strategy(&mut st),
                    _ => g.generate_seeded_with_strategy(&mut RandomWalk::default()),
                }
                .unwrap();
                let a = pm.1.iter().position(|al| matches!(&al[0], T::T(x) if *x == s)).unwrap();
                tally[a] += 1;
            }
        }
        how => {
            let mut s = mk(r.seed32());
            let mut prev = 0;
            let before = c.get("before").and_then(Value::as_array).cloned().unwrap_or_default();
            for b in &before {
                match b[0].as_str().unwrap() {
                    "weights" => {
                        if let Any::X(x) = &mut s {
                            x.recursive_weight = w32(&b[1]);
                            x.non_recursive_weight = w32(&b[2]);
                        }
                    }
                    "edit" => {
                        let alts: Vec<Alt> = b[1].as_array().unwrap().iter().map(afrom).collect();
                        p = pb(&(pm.0.clone(), alts));
                    }
                    _ => {
                        for _ in 0..b[1].as_u64().unwrap() {
                            s.choose(&p, 0);
                        }
                    }
                }
            }
            if !before.is_empty() {
                p = pb(&pm);
                if let Any::X(x) = &mut s {
                    x.recursive_weight = wr;
                    x.non_recursive_weight = wn;
                }
            }
            // other productions with as many alternatives, or others
            let mut others: Vec<Production> = vec![];
            if how == "mixed" {
                let mut q = pm.clone();
                q.1.reverse();
                others.push(pb(&q));
                others.push(pb(&(n("other one"), pm.1.clone())));
                others.push(pb(&(pm.0.clone(), pm.1.iter().map(|_| vec![pm.0.clone()]).collect())));
                others.push(pb(&(pm.0.clone(), vec![vec![t("x")], vec![pm.0.clone()], vec![]])));
            }
            for i in 0..nn {
                if !others.is_empty() && i % 2 == 0 {
                    let o = &others[r.n(others.len())];
                    s.choose(o, r.n(3));
                }
                let d = if how == "depths" { r.n(50) } else { 0 };
                let a = ok(alt_index(&p, s.choose(&p, d)));
                tally[a] += 1;
                if i % 2 == 1 {
                    again += (prev == a) as u64;
                    twos += 1;
                }
                if small && i % 2 == 1 {
                    pair[prev][a] += 1;
                    pairs += 1;
                }
                prev = a;
            }
        }
    }
    json!({"tally": tally, "pair": pair, "m": pairs, "again": again, "twos": twos})
}

// ------------------------------------------------------------ C13
fn key(r: &mut R, plain_ok: bool) -> Value {
    let seed = r.n(3) as u64;
    match r.n(if plain_ok { 8 } else { 5 }) {
        0 => json!({"kind": "walk", "seed": seed}),
        1 => json!({"kind": "depth", "max": r.n(4), "seed": seed}),
        2 | 3 => json!({"kind": "cover", "seed": seed}),
        4 => json!({"kind": "weight", "wr": r.pick(&[0, 1, 3, 100]), "wn": r.pick(&[1, 2, 5]), "seed": seed}),
        5 => json!({"kind": "rng", "seed": seed}),
        6 => json!({"kind": "rngcb", "seed": seed}),
        _ => json!({"kind": "rngrej", "seed": seed}),
    }
}
pub fn make13(r: &mut R, k: u64, _tier: &str) -> Value {
    let seed0 = r.u() >> 16;
    if r.p(12) {
        // seeds that differ in one byte
        let m = r.r(2, 6);
        let g: Gram = vec![(n("s"), (0..m).map(|i| vec![t(&format!("{i}")), t(r.pick(&["x", "y"]))]).collect())];
        let kind = *r.pick(&["walk", "depth", "cover", "weight", "rng", "rngcb"]);
        return json!({"g": gj(&g), "keys": [], "ops": [], "threads": 1, "base": 0, "prev": [],
                      "spreads": {"kind": kind, "max": r.r(1, 3), "wr": 1, "wn": 1, "base": seed0, "bytes": [0, 31, r.n(32), r.n(32)]}});
    }
    let mut g = grammar(r);
    let plain = r.p(60);
    while plain && !(subcritical(&g) && derivable(&g)) {
        g = grammar(r);
    }
    let nk = r.r(1, 3);
    let keys: Vec<Value> = (0..nk).map(|_| key(r, plain)).collect();
    let mut ops = vec![];
    let mut live: Vec<usize> = vec![];
    for _ in 0..r.r(4, 24) {
        match r.n(10) {
            0 | 1 | 2 => {
                let s = 1 + r.n(4);
                ops.push(json!(["new", s, 1 + r.n(nk), r.n(4)]));
                if !live.contains(&s) {
                    live.push(s);
                }
            }
            3 => ops.push(json!(["noise", r.n(4), 0])),
            _ if live.is_empty() => {}
            _ => ops.push(json!(["draw", r.pick(&live), 0])),
        }
    }
    json!({"g": gj(&g), "keys": keys, "base": seed0, "ops": ops, "threads": r.pick(&[1, 1, 1, 3]), "plain": plain, "prev": []})
}
/// Long histories and productions with many alternatives.
pub fn make13_big(r: &mut R, k: u64, _tier: &str) -> Value {
    let m = *r.pick(&[3, 9, 33, 70, 130, 260, 300]);
    let digits = |m: usize| -> Vec<Alt> { (0..m).map(|i| vec![t(&format!("{i};"))]).collect() };
    let names = *r.pick(&[1, 2, 5, 40]);
    let mut g: Gram = vec![(n("s"), vec![(0..names.min(6)).map(|i| n(&format!("d{i}"))).collect()])];
    if r.p(50) {
        g[0].1.push(vec![n("d0"), t("!")]);
    }
    for i in 0..names {
        g.push((n(&format!("d{i}")), digits(if i == 0 { m } else { 2 + i % 7 })));
    }
    let nk = r.r(1, 3);
    let keys: Vec<Value> = (0..nk).map(|_| key(r, true)).collect();
    let mut ops = vec![];
    let slots = r.r(1, 6);
    for s in 1..=slots {
        ops.push(json!(["new", s, 1 + r.n(nk), r.n(4)]));
    }
    // a draw may stand for many generations, recorded by a digest
    let (count, reps) = *r.pick(&[(60, 1), (150, 1), (300, 1), (600, 1), (40, 60), (30, 700), (16, 6000), (12, 24_000)]);
    for _ in 0..count {
        match r.n(60) {
            0 => ops.push(json!(["new", 1 + r.n(slots), 1 + r.n(nk), r.n(4)])),
            1 => ops.push(json!(["noise", r.n(4), 0])),
            _ => ops.push(json!(["draw", 1 + r.n(slots), 0])),
        }
    }
    json!({"g": gj(&g), "keys": keys, "base": r.u() >> 16, "ops": ops, "threads": r.pick(&[1, 1, 3]), "plain": true, "prev": [], "reps": reps})
}
/// Declines after a number of choices, the same for every instance of a key.
struct Budget(Any, usize);
impl GenerationStrategy for Budget {
    fn choose<'p>(&mut self, p: &'p Production, d: usize) -> Option<&'p Expression> {
        if self.1 == 0 {
            return None;
        }
        self.1 -= 1;
        self.0.choose(p, d)
    }
}
enum Inst {
    S(Budget),
    Rng(StdRng, u8),
}
fn inst(k: &Value, base: u64, gm: &Gram) -> Inst {
    let mut k = k.clone();
    k["seed"] = json!(base * 4 + k["seed"].as_u64().unwrap());
    match k["kind"].as_str().unwrap() {
        "rng" => Inst::Rng(StdRng::from_seed(seed_of(&k["seed"])), 0),
        "rngcb" => Inst::Rng(StdRng::from_seed(seed_of(&k["seed"])), 1),
        "rngrej" => Inst::Rng(StdRng::from_seed(seed_of(&k["seed"])), 2),
        _ => Inst::S(Budget(strategy(&k, gm), 0)),
    }
}
fn draw(i: &mut Inst, g: &Grammar) -> Value {
    let res = match i {
        Inst::S(b) => {
            b.1 = 120;
            g.generate_seeded_with_strategy(b)
        }
        Inst::Rng(rng, 0) => g.generate_seeded(rng),
        Inst::Rng(rng, 1) => g.generate_seeded_callback(rng, |_, _| true),
        Inst::Rng(rng, _) => {
            let k = RefCell::new(0usize);
            g.generate_seeded_callback(rng, |_, _| {
                *k.borrow_mut() += 1;
                *k.borrow() > 6 || *k.borrow() % 3 != 1
            })
        }
    };
    match res {
        Ok(s) => json!(["ok", s]),
        Err(e) => err(&e),
    }
}
fn history(c: &Value, gm: &Gram, g: &Grammar, offset: usize) -> Vec<Value> {
    let base = c["base"].as_u64().unwrap();
    let keys = c["keys"].as_array().unwrap();
    let mut grams: Vec<Grammar> = vec![g.clone()];
    let reps = c.get("reps").and_then(Value::as_u64).unwrap_or(1);
    let mut slots: Vec<Option<(Inst, usize)>> = (0..9).map(|_| None).collect();
    let mut ev = vec![];
    for op in c["ops"].as_array().unwrap() {
        let s = op[1].as_u64().unwrap() as usize;
        match op[0].as_str().unwrap() {
            "new" => {
                let kx = op[2].as_u64().unwrap() as usize;
                let how = op[3].as_u64().unwrap_or(0);
                let gi = match how {
                    0 => usize::MAX, // the shared grammar
                    1 => {
                        grams.push(g.clone());
                        grams.len() - 1
                    }
                    2 => {
                        grams.push(gb(gm));
                        grams.len() - 1
                    }
                    _ => 0,
                };
                slots[s] = Some((inst(&keys[kx - 1], base, gm), gi));
                ev.push(json!(["new", s + offset, kx]));
            }
            "draw" => {
                let (i, gi) = slots[s].as_mut().unwrap();
                let gr = if *gi == usize::MAX { g } else { &grams[*gi] };
                let mut d = draw(i, gr);
                if reps > 1 {
                    let mut h = 0xcbf2_9ce4_8422_2325_u64;
                    for _ in 1..reps {
                        for b in d.to_string().bytes() {
                            h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
                        }
                        d = draw(i, gr);
                    }
                    d = json!([d[0], format!("{h:x} {d}")]);
                }
                ev.push(json!(["draw", s + offset, d]));
            }
            _ => match s {
                0 => drop(g.validate()),
                1 => {
                    if c["plain"] == true {
                        let _ = g.generate();
                    }
                }
                2 if cyclic(gm) => {}
                2 => {
                    if let Ok(p) = g.build_parser() {
                        let _ = p.parse_input("ab").take(2).count();
                    }
                }
                _ => drop(strategy(&json!({"kind": "walk0"}), gm)),
            },
        }
    }
    ev
}
pub fn run13(c: &Value) -> Value {
    let gm = gfrom(&c["g"]);
    let g = gb(&gm);
    let mut events: Vec<Value> = c["prev"].as_array().cloned().unwrap_or_default();
    let base_off = if events.is_empty() { 0 } else { 100 };
    let th = c["threads"].as_u64().unwrap() as usize;
    if th == 1 {
        events.extend(history(c, &gm, &g, base_off));
    } else {
        let (gr, gmr) = (&g, &gm);
        let outs: Vec<Vec<Value>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..th)
                .map(|i| {
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(s, move || history(c, gmr, gr, base_off + 10 * i))
                        .unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        outs.into_iter().for_each(|o| events.extend(o));
    }
    let mut spread = vec![];
    if let Some(sp) = c.get("spreads").filter(|s| s.is_object()) {
        let base = seed_of(&sp["base"]);
        for b in sp["bytes"].as_array().unwrap() {
            let b = b.as_u64().unwrap() as usize;
            let mut outs = vec![];
            for v in 0..64u8 {
                let mut seed = base;
                seed[b] = v;
                let mut i = match sp["kind"].as_str().unwrap() {
                    "walk" => Inst::S(Budget(Any::W(RandomWalk::from_seed(seed)), 0)),
                    "depth" => Inst::S(Budget(Any::D(DepthBounded::from_seed(sp["max"].as_u64().unwrap() as usize, seed)), 0)),
                    "cover" => Inst::S(Budget(Any::C(CoverageGuided::from_seed(seed)), 0)),
                    "weight" => Inst::S(Budget(Any::X(Weighted::from_seed(1, 1, seed)), 0)),
                    "rng" => Inst::Rng(StdRng::from_seed(seed), 0),
                    _ => Inst::Rng(StdRng::from_seed(seed), 1),
                };
                outs.push(draw(&mut i, &g));
            }
            spread.push(outs);
        }
    }
    json!({"events": events, "spread": spread})
}

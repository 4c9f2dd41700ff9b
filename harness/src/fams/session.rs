//! Histories of opening, advancing, keeping and dropping result iterators of shared parsers.
//! op: ["open", slot, parser, input, entry, start] | ["next", slot] | ["drop", slot] | ["use", kind]
use crate::g::*;
use crate::ggen;
use crate::rng::R;
use bnf::{Grammar, GrammarParser, ParseTree, Term};
use serde_json::{Value, json};
use std::collections::BTreeMap;

const LIMIT: usize = 40;

pub fn make(r: &mut R, k: u64, tier: &str) -> Value {
    loop {
        let cyc = r.p(15);
        let g = if cyc { ggen::cyclic_grammar(r) } else { ggen::parse_grammar(r) };
        if cyclic(&g) != cyc {
            continue;
        }
        let names: Vec<String> = table(&g).keys().map(|s| s.to_string()).collect();
        let mut starts: Vec<String> = vec![match &g[0].0 {
            T::N(s) => s.clone(),
            _ => continue,
        }];
        if r.p(50) {
            starts.push(r.pick(&names).clone());
        }
        let mut inputs: Vec<String> = vec![];
        for _ in 0..14 {
            let w = ggen::input(r, &g, &starts[0], false);
            let ok = starts.iter().all(|s| {
                if cyc {
                    w.chars().count() <= 3 && agenda_steps(&g, s, &w, 11, 2000).is_some()
                } else {
                    let (c, work) = count(&g, s, &w);
                    c <= LIMIT as u64 - 4 && work <= 2000
                }
            });
            if ok && !inputs.contains(&w) {
                inputs.push(w);
            }
            if inputs.len() == 3 {
                break;
            }
        }
        if inputs.is_empty() {
            continue;
        }
        let slots = r.r(2, 4);
        let nops = r.r(4, 40);
        let mut open = vec![0usize; slots]; // 0 closed, else nexts + 1
        let mut ops = vec![];
        for _ in 0..nops {
            let s = r.n(slots);
            if open[s] == 0 || r.p(6) {
                let entry = *r.pick(&["default", "explicit", "explicit", "deprecated", "deprecated_start"]);
                let st = if entry == "default" || entry == "deprecated" { 0 } else { r.n(starts.len()) };
                ops.push(json!(["open", s, r.n(2), r.n(inputs.len()), entry, st]));
                open[s] = 1;
            } else if r.p(8) {
                ops.push(json!(["drop", s]));
                open[s] = 0;
            } else if r.p(6) {
                ops.push(json!(["use", *r.pick(&["validate", "display", "clone", "otherparse", "debug"])]));
            } else if open[s] <= if cyc { 8 } else { LIMIT - 2 } {
                ops.push(json!(["next", s]));
                open[s] += 1;
            }
        }
        // grammars with the same rules, written differently
        let mut vars = vec![];
        for _ in 0..2 {
            let mut v = g.clone();
            match r.n(3) {
                0 => r.shuffle(&mut v),
                1 => {
                    // one production per alternative
                    v = g.iter().flat_map(|(l, a)| a.iter().map(|x| (l.clone(), vec![x.clone()])).collect::<Vec<_>>()).collect();
                    if v.is_empty() {
                        v = g.clone();
                    }
                    if r.p(70) {
                        r.shuffle(&mut v);
                    }
                }
                _ => {
                    ggen::split(r, &mut v);
                    for p in v.iter_mut() {
                        r.shuffle(&mut p.1);
                    }
                }
            }
            // every name keeps a production, so that the variant stays valid
            for a in &names {
                if !v.iter().any(|p| p.0 == n(a)) {
                    v.push((n(a), vec![]));
                }
            }
            vars.push(gj(&v));
        }
        let st: Vec<Value> = starts.iter().map(|s| json!(["N", s])).collect();
        return json!({"g": gj(&g), "starts": st, "inputs": inputs, "ops": ops, "variants": vars, "cyclic": cyc,
                      "limit": if cyc { 10 } else { LIMIT }});
    }
}

struct Pool {
    ids: BTreeMap<String, usize>,
    en: Enlarge,
}
impl Pool {
    fn id(&mut self, t: Option<ParseTree>) -> usize {
        match t {
            None => 0,
            Some(t) => {
                let s = self.en.tree(&t).to_string();
                let k = self.ids.len() + 1;
                *self.ids.entry(s).or_insert(k)
            }
        }
    }
}

fn leak<T>(x: T) -> &'static T {
    Box::leak(Box::new(x))
}

fn alone(pool: &mut Pool, g: &Gram, start: &Term, w: &str, limit: usize) -> Value {
    let bg = gb(g);
    let start = start.clone();
    let w = w.to_string();
    let p = bg.build_parser().expect("valid");
    let mut it = p.parse_input_starting_with(&w, &start);
    let mut seq = vec![];
    let mut ended = false;
    while seq.len() < limit {
        match it.next() {
            Some(t) => seq.push(pool.id(Some(t))),
            None => {
                ended = true;
                break;
            }
        }
    }
    json!({"seq": seq, "ended": ended})
}

#[allow(deprecated)]
pub fn run(c: &Value) -> Value {
    let en = Enlarge::of(c);
    let g = en.gram(&gfrom(&c["g"]));
    let limit = c["limit"].as_u64().unwrap() as usize;
    let bg: &'static Grammar = leak(gb(&g));
    let inputs: Vec<&'static str> = c["inputs"].as_array().unwrap().iter().map(|s| leak(en.text(s.as_str().unwrap())).as_str()).collect();
    let starts: Vec<&'static Term> = c["starts"].as_array().unwrap().iter().map(|s| leak(tb(&en.term(&tfrom(s))))).collect();
    let parsers: Vec<&'static GrammarParser<'static>> = (0..2).map(|_| leak(bg.build_parser().expect("valid"))).collect();
    let mut pool = Pool { ids: BTreeMap::new(), en };
    let mut slots: Vec<Option<Box<dyn Iterator<Item = ParseTree<'static>>>>> = (0..8).map(|_| None).collect();
    let before = c["k"].as_u64().unwrap_or(0) % 2 == 0;
    let all_alone = |pool: &mut Pool| -> Vec<Vec<Value>> {
        starts.iter().map(|st| inputs.iter().map(|w| alone(pool, &g, st, w, limit)).collect()).collect()
    };
    let early = if before { Some(all_alone(&mut pool)) } else { None };
    let mut res = vec![];
    for op in c["ops"].as_array().unwrap() {
        let s = op[1].as_u64().unwrap_or(0) as usize;
        match op[0].as_str().unwrap() {
            "open" => {
                let p = parsers[op[2].as_u64().unwrap() as usize];
                let w = inputs[op[3].as_u64().unwrap() as usize];
                let st = starts[op[5].as_u64().unwrap() as usize];
                slots[s] = Some(match op[4].as_str().unwrap() {
                    "default" => Box::new(p.parse_input(w)),
                    "explicit" => Box::new(p.parse_input_starting_with(w, st)),
                    "deprecated" => Box::new(bg.parse_input(w)),
                    _ => Box::new(bg.parse_input_starting_with(w, st)),
                });
                res.push(-1i64);
            }
            "next" => {
                let x = slots[s].as_mut().and_then(|i| i.next());
                res.push(pool.id(x) as i64);
            }
            "drop" => {
                slots[s] = None;
                res.push(-1);
            }
            _ => {
                match op[1].as_str().unwrap() {
                    "validate" => {
                        let _ = bg.validate();
                    }
                    "display" => {
                        let _ = bg.to_string();
                    }
                    "clone" => {
                        let c2 = bg.clone();
                        let _ = c2.build_parser().map(|p| p.parse_input(inputs[0]).next().is_some());
                    }
                    "debug" => {
                        let _ = format!("{:?}", parsers[0]);
                    }
                    _ => {
                        let _ = parsers[1].parse_input(inputs[inputs.len() - 1]).next();
                    }
                }
                res.push(-1);
            }
        }
    }
    // what each (start, input) yields alone, from a parser of its own
    let al = match early {
        Some(a) => a,
        None => all_alone(&mut pool),
    };
    let mut vs = vec![];
    if c["cyclic"] != json!(true) {
        for v in c["variants"].as_array().unwrap() {
            let vg = en.gram(&gfrom(v));
            let mut rows = vec![];
            for st in &starts {
                let mut row = vec![];
                for w in &inputs {
                    row.push(alone(&mut pool, &vg, st, w, limit));
                }
                rows.push(row);
            }
            vs.push(rows);
        }
    }
    let mut trees: Vec<(usize, Value)> = pool.ids.iter().map(|(s, k)| (*k, serde_json::from_str(s).unwrap())).collect();
    trees.sort_by_key(|x| x.0);
    let trees: Vec<Value> = trees.into_iter().map(|x| x.1).collect();
    json!({"res": res, "alone": al, "vres": vs, "trees": trees})
}

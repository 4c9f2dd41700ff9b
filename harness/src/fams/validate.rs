//! Validation and parser construction of arbitrary grammar values.
use crate::g::*;
use crate::ggen::{self, Shape};
use crate::rng::R;
use bnf::Error;
use serde_json::{Value, json};

pub fn make(r: &mut R, k: u64, tier: &str) -> Value {
    let mut sh = Shape::parse();
    sh.undef = 35;
    sh.empty_alt = 30;
    sh.split = 30;
    match r.n(7) {
        4 => sh.len = (3, 12),
        0 => sh.nts = (1, 1),
        1 => sh.nts = (5, 14),
        2 => sh.len = (0, 2),
        3 => sh.alts = (0, 3),
        _ => {}
    }
    let mut g = if r.p(25) { ggen::template(r) } else { ggen::random_grammar(r, &sh) };
    // damage: drop, rename, move, add
    for _ in 0..r.n(4) {
        if g.is_empty() {
            break;
        }
        let i = r.n(g.len());
        match r.n(12) {
            8 => g = ggen::near_gram(r, &g),
            9 | 10 => {
                // a reference to something called nearly like a rule
                let x = g[i].0.clone();
                let x = n(&ggen::near(r, match &x { T::N(s) | T::T(s) => s }));
                let j = r.n(g.len());
                if let Some(a) = g[j].1.first_mut() {
                    let at = r.n(a.len() + 1);
                    a.insert(at, x);
                }
            }
            0 => {
                g.remove(i);
            }
            1 => g[i].0 = n(r.pick(&["zz", "", "a", "s", "S"])),
            2 => g[i].0 = t(r.pick(&["a", "s", "", "b"])),
            3 => g[i].1.clear(),
            4 => {
                let p = g[i].clone();
                g.push(p);
            }
            5 => {
                if let Some(a) = g[i].1.last_mut() {
                    a.push(n(r.pick(&["u", "u2", "s ", "A", "a>", "<a", "undef"])));
                }
            }
            6 => {
                if let Some(a) = g[i].1.first_mut() {
                    a.insert(0, n(r.pick(&["u", "u2", "", "é"])));
                }
            }
            7 => g[i].1.push(vec![]),
            _ => r.shuffle(&mut g),
        }
    }
    if r.p(2) {
        g.clear();
    }
    json!({"g": gj(&g)})
}

pub fn err(e: &Error) -> Value {
    let kind = match e {
        Error::ParseError(_) => "parse",
        Error::GenerateError(_) => "generate",
        Error::ValidationError(_) => "validation",
        _ => "other",
    };
    json!([kind, e.to_string()])
}

pub fn run(c: &Value) -> Value {
    let g = gb(&gfrom(&c["g"]));
    let v = match g.validate() {
        Ok(()) => json!(["ok", ""]),
        Err(e) => err(&e),
    };
    let b = match g.build_parser() {
        Ok(_) => json!(["ok", ""]),
        Err(e) => err(&e),
    };
    let n = match bnf::GrammarParser::new(&g) {
        Ok(_) => json!(["ok", ""]),
        Err(e) => err(&e),
    };
    // validation does not change the grammar
    json!({"validate": v, "build": b, "new": n, "after": gj(&gram_of(&g))})
}

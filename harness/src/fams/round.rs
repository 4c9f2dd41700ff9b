//! Formatting, reading back, formatting again, and serde.
use super::text;
use crate::g::*;
use crate::ggen::{self, Shape};
use crate::rng::R;
use bnf::{Expression, Grammar, Production, Term};
use serde_json::{Value, json};

const CS: &[&str] = &[
    "a", "b", "x", " ", "'", "\"", ";", "|", "::=", "<", ">", "(", ")", "[", "]", "\n", "\r", "\t", "é", "😀", "\\", "\u{0}", "\u{a0}", "/", "=", "表",
    "{", "}", "0", "\u{2028}", "%", "#",
];
fn word(r: &mut R, ban: &[&str]) -> String {
    let k = *r.pick(&[0, 1, 1, 1, 2, 3, 6]);
    let mut s = String::new();
    for _ in 0..k {
        let x = *r.pick(CS);
        if !ban.contains(&x) {
            s.push_str(x);
        }
    }
    s
}
fn term(r: &mut R, scope: bool) -> T {
    if r.p(50) {
        T::N(if scope { word(r, &[">"]) } else { word(r, &[]) })
    } else {
        let mut s = word(r, &[]);
        if scope && s.contains('\'') && s.contains('"') {
            s = s.replace(*r.pick(&['\'', '"']), "");
        }
        T::T(s)
    }
}
fn alt(r: &mut R, scope: bool) -> Alt {
    (0..*r.pick(&[1, 1, 2, 3, 5])).map(|_| term(r, scope)).collect()
}
fn prod(r: &mut R, scope: bool) -> Prod {
    let l = T::N(word(r, if scope { &[">"] } else { &[] }));
    (l, (0..*r.pick(&[1, 1, 2, 3])).map(|_| alt(r, scope)).collect())
}
pub fn make(r: &mut R, k: u64, tier: &str) -> Value {
    match r.n(10) {
        0 => {
            let scope = !r.p(3);
            json!({"what": "term", "v": tj(&term(r, scope))})
        }
        1 => json!({"what": "expression", "v": aj(&alt(r, true))}),
        2 | 3 => json!({"what": "production", "v": pj(&prod(r, true))}),
        4..=6 => {
            let scope = !r.p(5);
            let k = *r.pick(&[1, 1, 2, 3, 5]);
            let g: Gram = (0..k).map(|_| prod(r, scope)).collect();
            json!({"what": "grammar", "v": gj(&g)})
        }
        7 => {
            let mut sh = Shape::parse();
            sh.empty_alt = 0;
            let g = if r.p(50) { ggen::random_grammar(r, &sh) } else { ggen::template(r) };
            json!({"what": "grammar", "v": gj(&g)})
        }
        _ => {
            let ext = if r.p(60) { 30 } else { 0 };
            let c = text::one(r, "BNF", "grammar", ext);
            json!({"what": "grammar", "source": c["text"]})
        }
    }
}
fn serde_back<T: serde::Serialize + serde::de::DeserializeOwned>(v: &T, f: impl Fn(&T) -> Value) -> Value {
    let a = serde_json::to_string(v).and_then(|s| serde_json::from_str::<T>(&s));
    let b = serde_json::to_value(v).and_then(|s| serde_json::from_value::<T>(s));
    match (a, b) {
        (Ok(x), Ok(y)) => {
            if f(&x) == f(&y) {
                json!(["ok", f(&x)])
            } else {
                json!(["differs", ""])
            }
        }
        _ => json!(["error", ""]),
    }
}
fn with(text: String, mut o: Value) -> Value {
    let c = text::case(&text, "BNF", "grammar");
    o["chars"] = c["chars"].clone();
    o["cls"] = c["cls"].clone();
    o["text"] = json!(text);
    o["skip"] = json!(false);
    o
}
pub fn run(c: &Value) -> Value {
    let what = c["what"].as_str().unwrap();
    let e = |e: bnf::Error| super::validate::err(&e);
    macro_rules! go {
        ($v:expr, $t:ty, $j:expr) => {{
            let v: $t = $v;
            let text = v.to_string();
            let (r, text2) = match text.parse::<$t>() {
                Ok(b) => {
                    let t2 = b.to_string();
                    // equality as the crate defines it must agree with the content
                    (if b == v { json!(["ok", $j(&b)]) } else { json!(["unequal", ""]) }, t2)
                }
                Err(x) => (e(x), String::new()),
            };
            let s = serde_back(&v, |x| $j(x));
            with(text, json!({"r": r, "text2": text2, "serde": s, "v": $j(&v)}))
        }};
    }
    match what {
        "term" => go!(tb(&tfrom(&c["v"])), Term, |x: &Term| tj(&term_of(x))),
        "expression" => go!(ab(&afrom(&c["v"])), Expression, |x: &Expression| aj(&expr_of(x))),
        "production" => go!(pb(&pfrom(&c["v"])), Production, |x: &Production| pj(&prod_of(x))),
        _ => {
            let g = match c.get("source") {
                Some(s) => match Grammar::parse_from::<bnf::BNF>(s.as_str().unwrap()) {
                    Ok(g) => g,
                    Err(_) => return json!({"skip": true}),
                },
                None => gb(&gfrom(&c["v"])),
            };
            let mut o = go!(g.clone(), Grammar, |x: &Grammar| gj(&gram_of(x)));
            let text = o["text"].as_str().unwrap().to_string();
            o["auto_r"] = o["r"].clone();
            o["r"] = match Grammar::parse_from::<bnf::BNF>(&text) {
                Ok(b) => json!(["ok", gj(&gram_of(&b))]),
                Err(x) => e(x),
            };
            o
        }
    }
}

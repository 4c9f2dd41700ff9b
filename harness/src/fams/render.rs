//! Printing of parse trees.  Trees come from parses, or are built exactly as wanted
//! by parsing a row of terminals and replacing the children through rhs_iter_mut.
use crate::g::*;
use crate::ggen;
use crate::rng::R;
use bnf::{Grammar, GrammarParser, ParseTree, ParseTreeNode, Term, escape_mermaid_label};
use serde_json::{Value, json};
use std::collections::BTreeSet;

const LABELS: &[&str] = &[
    "a", "b", "x", "", " ", "s", "é", "表情", "😀", "\"", "'", "&", "#", "<", ">", "[", "]", "\\", ";", "\n", "\r", "\r\n", "#34;",
    "&quot;", "&#34;", "(", ")", "{", "}", "|", "-->", "a\"b", "a;b", "end", "%%", "`", "│   ", "└── ", "├── ", "    ", "::=", "<s> ::= \"x\"",
    "\t", "\u{0}", "e\u{301}", "\u{2028}", "#", "##", ";#", "<<", ">>", "[[", "\\\\", "a#b;c<d>e[f]g\\h\"i&j\nk\rl",
];
pub fn label(r: &mut R) -> String {
    if r.p(60) {
        r.pick(&["a", "b", "x", "s", "tt"]).to_string()
    } else if r.p(80) {
        r.pick(LABELS).to_string()
    } else {
        let k = r.r(1, 5);
        (0..k).map(|_| *r.pick(LABELS)).collect()
    }
}
pub fn tree(r: &mut R, depth: usize, left: &mut usize, names: &[String]) -> Value {
    let mut k = match r.n(8) {
        0 => 0,
        1 | 2 | 3 => 1,
        4 | 5 => 2,
        6 => 3,
        _ => r.n(6),
    };
    if depth == 0 {
        k = k.min(2);
    }
    let mut kids = vec![];
    for _ in 0..k {
        if *left == 0 {
            break;
        }
        *left -= 1;
        if depth == 0 || r.p(35) {
            kids.push(json!(["T", label(r)]));
        } else {
            kids.push(tree(r, depth - 1, left, names));
        }
    }
    json!(["N", r.pick(names), kids])
}
pub fn make(r: &mut R, k: u64, tier: &str) -> Value {
    if r.p(25) {
        let g = ggen::parse_grammar(r);
        let start = match &g[0].0 {
            T::N(s) => s.clone(),
            _ => unreachable!(),
        };
        let mut w = String::new();
        if !cyclic(&g) {
            for _ in 0..20 {
                if let Some(s) = sentence(r, &g, &start, 12) {
                    if s.len() < 40 && count(&g, &start, &s).1 < 20_000 {
                        w = s;
                        break;
                    }
                }
            }
            return json!({"mode": "parse", "g": gj(&g), "input": w});
        }
    }
    let nn = r.r(1, 3);
    let names: Vec<String> = (0..nn).map(|_| label(r)).collect();
    let mut left = if tier == "thorough" { r.r(0, 60) } else { r.r(0, 30) };
    let deep = r.p(20);
    let depth = if deep { r.r(5, 12) } else { r.r(0, 5) };
    let mut t = tree(r, depth, &mut left, &names);
    if deep {
        // a spine with siblings on both sides
        for _ in 0..r.r(3, 10) {
            let mut kids = vec![];
            for _ in 0..r.n(3) {
                kids.push(if r.p(50) { json!(["T", label(r)]) } else { json!(["N", "q", [["T", "z"]]]) });
            }
            kids.push(t);
            for _ in 0..r.n(3) {
                kids.push(if r.p(50) { json!(["T", label(r)]) } else { json!(["N", "p", [["N", "e", []], ["T", "z"]]]) });
            }
            t = json!(["N", r.pick(&names), kids]);
        }
    }
    let esc: Vec<String> = (0..r.n(4)).map(|_| label(r)).collect();
    json!({"mode": "build", "tree": t, "labels": esc})
}
pub fn collect(t: &Value, names: &mut BTreeSet<String>, widths: &mut BTreeSet<usize>) {
    if t[0] == "N" {
        names.insert(t[1].as_str().unwrap().to_string());
        let k = t[2].as_array().unwrap();
        widths.insert(k.len());
        k.iter().for_each(|x| collect(x, names, widths));
    }
}
pub fn build<'g>(p: &'g GrammarParser<'g>, terms: &'g [Term], t: &'g Value) -> Option<ParseTree<'g>> {
    let kids = t[2].as_array().unwrap();
    let term = terms.iter().find(|x| matches!(x, Term::Nonterminal(s) if s == t[1].as_str().unwrap())).unwrap();
    let row: &'g str = Box::leak("x".repeat(kids.len()).into_boxed_str());
    let mut me = p.parse_input_starting_with(row, term).next()?;
    for (slot, kid) in me.rhs_iter_mut().zip(kids) {
        *slot = if kid[0] == "T" {
            ParseTreeNode::Terminal(kid[1].as_str().unwrap())
        } else {
            ParseTreeNode::Nonterminal(build(p, terms, kid)?)
        };
    }
    Some(me)
}
fn shot(t: &ParseTree) -> Value {
    let tree = tree_json(t);
    let print = t.to_string();
    let mermaid = t.mermaid().to_string();
    let after = tree_json(t);
    let c = t.clone();
    json!({"tree": tree, "print": print, "mermaid": mermaid, "after": after, "print2": format!("{c}"), "mermaid2": format!("{}", c.mermaid())})
}
pub fn run(c: &Value) -> Value {
    let esc: Vec<Value> = c["labels"].as_array().map(|v| {
        v.iter().map(|s| json!([s, escape_mermaid_label(s.as_str().unwrap())])).collect()
    }).unwrap_or_default();
    if c["mode"] == "parse" {
        let g = gb(&gfrom(&c["g"]));
        let mut shots = vec![];
        if let Ok(p) = g.build_parser() {
            for t in p.parse_input(c["input"].as_str().unwrap()).take(4) {
                shots.push(shot(&t));
            }
        }
        return json!({"shots": shots, "esc": esc});
    }
    let mut names = BTreeSet::new();
    let mut widths = BTreeSet::new();
    let want = decode(&c["tree"]);
    collect(&want, &mut names, &mut widths);
    let gm: Gram = names.iter().map(|a| (n(a), widths.iter().map(|k| vec![t("x"); *k]).collect())).collect();
    let g = gb(&gm);
    let terms: Vec<Term> = names.iter().map(|a| Term::Nonterminal(a.clone())).collect();
    let p = g.build_parser().unwrap();
    // should the parser not even return such a row, there is nothing to print
    let shots: Vec<Value> = build(&p, &terms, &want).iter().map(shot).collect();
    json!({"shots": shots, "esc": esc})
}

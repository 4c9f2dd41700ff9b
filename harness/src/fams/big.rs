//! Cases of every family that are large in some respect: long texts, names and terminals, many
//! productions, alternatives and terms, deep trees, long histories.
use super::text::{self, Ext, X};
use crate::g::*;
use crate::ggen;
use crate::rng::R;
use serde_json::{Value, json};

/// sizes around the usual thresholds
fn size(r: &mut R, max: usize) -> usize {
    let v: Vec<usize> = [5, 8, 9, 10, 15, 16, 17, 20, 31, 32, 33, 40, 63, 64, 65, 66, 80, 99, 100, 101, 127, 128, 129, 130, 150, 200, 255, 256, 257, 260, 300, 400, 512, 513, 600]
        .into_iter()
        .filter(|x| *x <= max)
        .collect();
    if r.p(70) { *r.pick(&v) } else { r.r(5, max) }
}
fn long_word(r: &mut R, k: usize) -> String {
    let th: &[&str] = r.pick(&[&["a", "b"][..], &["x", " ", "y"], &["é", "a"], &["表", "q"], &["(", "a", "]"], &[";", "a"], &["'", "a"], &["\"", "b"]]);
    let mut s = String::new();
    while s.chars().count() < k {
        s.push_str(r.pick(th));
    }
    s
}
fn nm(i: usize) -> String {
    format!("n{i}")
}

// ------------------------------------------------------------ grammar values
/// a grammar that is large in one respect; all names defined
fn value(r: &mut R, max: usize) -> Gram {
    let s = || n("s");
    match r.n(7) {
        0 => {
            let m = size(r, max);
            (0..=m).map(|i| (n(&nm(i)), vec![vec![t("t"), n(&nm((i + 1) % (m + 1)))], vec![t("x")]])).collect()
        }
        1 => {
            let m = size(r, max);
            vec![(s(), (0..m).map(|i| if i % 7 == 3 { vec![s(), t(&format!("{i}"))] } else { vec![t(&format!("{i}"))] }).collect())]
        }
        2 => {
            let m = size(r, max);
            vec![(s(), vec![(0..m).map(|i| if i % 5 == 4 { n("d") } else { t(&format!("{}", i % 10)) }).collect()]), (n("d"), vec![vec![t("")]])]
        }
        3 => {
            let m = size(r, max);
            let w = long_word(r, m);
            vec![(s(), vec![vec![t(&w)], vec![t(&w), s()]])]
        }
        4 => {
            let m = size(r, max);
            let w = long_word(r, m);
            vec![(n(&w), vec![vec![t("x"), n(&w)], vec![t("y")]])]
        }
        5 => {
            let m = size(r, max);
            (0..m).map(|i| (n(&nm(i % 3)), vec![vec![n(&nm((i + 1) % 3)), t(&format!("{i}"))], vec![t("x")]])).collect()
        }
        _ => {
            let m = size(r, max.min(100));
            (0..m).map(|i| (n(&nm(i)), (0..1 + i % 4).map(|j| vec![n(&nm((i * 7 + j) % m)), t("")]).collect())).collect()
        }
    }
}

pub fn validate(r: &mut R, _k: u64, _tier: &str) -> Value {
    let mut g = value(r, 300);
    if r.p(50) {
        // one undefined name, often late
        let i = if r.p(60) { g.len() - 1 - r.n(g.len().min(3)) } else { r.n(g.len()) };
        let ua = g[i].1.len();
        let a = if r.p(60) { ua - 1 } else { r.n(ua) };
        let at = if r.p(60) { g[i].1[a].len() } else { r.n(g[i].1[a].len() + 1) };
        let w = long_word(r, 40);
        let x = r.pick(&["u".to_string(), "S".to_string(), "n1 ".to_string(), w]).clone();
        g[i].1[a].insert(at, n(&x));
    } else if r.p(30) {
        let i = r.n(g.len());
        g.remove(i);
    }
    if r.p(40) {
        r.shuffle(&mut g);
    }
    json!({"g": gj(&g)})
}

// ------------------------------------------------------------ text
fn ext(r: &mut R, groups: bool, abnf: bool) -> Ext {
    let max = 60;
    let m = size(r, max);
    let name = |r: &mut R, k: usize| -> String {
        if abnf { format!("n{}", "a-b_c".repeat(k / 5 + 1)) } else { long_word(r, k).replace(['>', ')', ']', '}', '$', '»'], "o") }
    };
    let small = |i: usize| vec![vec![X::N("s".into()), X::T(format!("{i}"))], vec![X::T("x".into())]];
    if groups && r.p(60) {
        return match r.n(5) {
            // many groups side by side
            0 => vec![("s".into(), vec![(0..m).map(|i| if i % 2 == 0 { X::G(small(i)) } else { X::O(small(i)) }).collect()])],
            // deeply nested
            1 => {
                let mut a = vec![vec![X::T("x".into())]];
                for i in 0..m {
                    let x = if (i * 7) % 3 == 0 { X::G(a) } else { X::O(a) };
                    a = if i % 5 == 1 { vec![vec![X::T("l".into()), x, X::N("s".into())]] } else { vec![vec![x]] };
                }
                vec![("s".into(), a)]
            }
            // a group of many alternatives
            2 => vec![("s".into(), vec![vec![X::G((0..m).map(|i| vec![X::T(format!("{i}"))]).collect()), X::O((0..m).map(|i| vec![X::T(format!("{i}"))]).collect())]])],
            // many rules with a group each
            3 => (0..m.min(25)).map(|i| (format!("r{i}"), vec![vec![X::O(small(i)), X::N(format!("r{}", i + 1))]])).collect(),
            // names that look like generated ones, many of them
            _ => {
                let mut v: Ext = (0..m.min(30)).map(|i| (if abnf { format!("anon{i}") } else { format!("__anon{i}") }, vec![vec![X::T("q".into())]])).collect();
                v.insert(r.n(v.len() + 1), ("s".into(), vec![(0..6).map(|i| X::G(small(i))).collect()]));
                v
            }
        };
    }
    match r.n(6) {
        0 => (0..m).map(|i| (nm(i), vec![vec![X::N(nm(i + 1)), X::T(format!("{i}"))]])).collect(),
        1 => vec![("s".into(), (0..m).map(|i| vec![X::T(format!("{i}"))]).collect())],
        2 => vec![("s".into(), vec![(0..m).map(|i| if i % 3 == 1 { X::N("s".into()) } else { X::T(format!("{i}")) }).collect()])],
        3 => {
            let k = size(r, 600);
            vec![("s".into(), vec![vec![X::T(long_word(r, k))], vec![X::T("x".into())]])]
        }
        4 => {
            let k = size(r, 400);
            let w = name(r, k);
            vec![(w.clone(), vec![vec![X::N(w.clone()), X::T("a".into())], vec![X::N(w)]])]
        }
        // one left hand side again and again
        _ => (0..m).map(|i| ("s".to_string(), vec![vec![X::T(format!("{i}"))], vec![X::N("s".into())]])).collect(),
    }
}
fn text_of(r: &mut R, fid: &str, fmt: &str, groups: bool) -> Value {
    let f = text::fmt_of(fid);
    loop {
        let g = ext(r, groups, f.0.is_none());
        let mut tk = text::toks(r, &f, &g);
        // break the text somewhere, often at the end
        if r.p(25) && tk.len() > 2 {
            let i = if r.p(60) { tk.len() - 1 - r.n(tk.len().min(4)) } else { r.n(tk.len()) };
            match r.n(3) {
                0 => {
                    tk.remove(i);
                }
                1 => tk.insert(i, text::Tok::Other(r.pick(&["(", ")", "|", "'", "]", "["]).to_string())),
                _ => tk.truncate(i),
            }
        }
        let mut s = text::layout(r, &tk);
        if r.p(40) {
            // a long comment, many blank lines, or many comments at some place where a comment may stand
            let k = size(r, 500);
            let pad = match r.n(4) {
                0 => format!(";{}\n", long_word(r, k).replace(['\n', '\r'], " ")),
                1 => "\n".repeat(k),
                2 => ";c\n".repeat(k / 3 + 1),
                _ => " \t".repeat(k / 2 + 1),
            };
            if r.p(50) { s.insert_str(0, &pad) } else { s = format!("{s} {pad}") }
        }
        if s.chars().count() <= 1300 {
            return text::case(&s, fmt, "grammar");
        }
    }
}
pub fn text_plain(r: &mut R, _k: u64, _tier: &str) -> Value {
    let i = r.n(text::CUSTOM.len());
    let f = if r.p(70) { "BNF" } else { text::CUSTOM[i].0 };
    text_of(r, f, f, false)
}
pub fn text_abnf(r: &mut R, _k: u64, _tier: &str) -> Value {
    let g = r.p(20);
    match r.n(3) {
        0 => text_of(r, "ABNF", "auto", g),
        1 => text_of(r, "BNF", "auto", g),
        _ => text_of(r, "ABNF", "ABNF", g),
    }
}
pub fn text_ext(r: &mut R, _k: u64, _tier: &str) -> Value {
    let f = *r.pick(&["BNF", "ABNF", "BNF", "ABNF", "F9"]);
    text_of(r, f, f, true)
}
pub fn round(r: &mut R, k: u64, tier: &str) -> Value {
    loop {
        let g = value(r, 400);
        let v = match r.n(6) {
            0 => json!({"what": "production", "v": pj(&g[0])}),
            1 => json!({"what": "expression", "v": aj(&g[0].1[0])}),
            2 => json!({"what": "term", "v": tj(&g[0].1[0][0])}),
            3 => {
                let c = text_ext(r, k, tier);
                if c["fmt"] != "BNF" {
                    continue;
                }
                json!({"what": "grammar", "source": c["text"]})
            }
            _ => json!({"what": "grammar", "v": gj(&g)}),
        };
        if v.to_string().len() < 9000 {
            return v;
        }
    }
}

// ------------------------------------------------------------ generation
fn gen_grammar(r: &mut R) -> (Gram, Vec<usize>, usize) {
    let s = || n("s");
    match r.n(6) {
        // recursion as deep as the script says
        0 | 1 => {
            let d = if r.p(30) { size(r, 600) } else { size(r, 200) };
            let mut picks = vec![0; d];
            picks.push(1);
            let mid = match r.n(5) {
                0 | 1 => vec![t("("), s(), t(")")],
                2 => vec![t("a"), s()],
                3 => vec![s(), t("a")],
                // another name at every level, and a long text at the bottom
                _ => vec![n("d"), s(), n("d")],
            };
            let k = size(r, 300);
            let bottom = if r.p(50) { t("x") } else { t(&long_word(r, k)) };
            let mut g = vec![(s(), vec![mid, vec![bottom]]), (n("d"), vec![vec![t("0")], vec![t("1")], vec![t(""), n("undefined ")]])];
            if r.p(50) {
                // the script says what the levels look like
                let at = r.n(d);
                picks = (0..2 * d).map(|i| if i == 2 * at { 1 } else if i % 2 == 0 { 0 } else { r.n(3) }).collect();
            }
            if r.p(40) {
                let w = r.r(2, 60);
                g[1].1.push(vec![t(&long_word(r, w))]);
            }
            (g, picks, 3 * d + 5)
        }
        // a long chain
        2 => {
            let m = size(r, 150);
            let mut g: Gram = (0..m).map(|i| (n(&nm(i)), vec![vec![n(&nm(i + 1))], vec![n(&nm(i + 1)), t("b")]])).collect();
            g.push((n(&nm(m)), vec![vec![t("e")]]));
            if r.p(60) {
                g[1..].reverse();
            }
            let p = (0..7).map(|_| r.n(2)).collect();
            (g, p, m + 5)
        }
        // many alternatives
        3 => {
            let m = size(r, 300);
            (vec![(s(), vec![vec![n("d"), n("d"), n("d")]]), (n("d"), (0..m).map(|i| vec![t(&format!("{i},"))]).collect())],
             vec![m - 1, m - 1 - r.n(3).min(m - 1), r.n(m)], 20)
        }
        // a long alternative
        4 => {
            let m = size(r, 120);
            (vec![(s(), vec![(0..m).map(|i| if i % 3 == 1 { n("d") } else { t(&format!("{i}.")) }).collect()]), (n("d"), vec![vec![t("x")], vec![t("")], vec![n("e"), t("y")]]),
                  (n("e"), vec![vec![t("E")]])],
             (0..11).map(|_| r.n(3)).collect(), 200)
        }
        // long texts and names
        _ => {
            let (a, b) = (size(r, 300), size(r, 300));
            let (w, nme) = (long_word(r, a), long_word(r, b));
            (vec![(n(&nme), vec![vec![t(&w), n(&nme)], vec![t(&w), n("undefined")], vec![t(&w)]])], (0..5).map(|_| r.n(3)).collect(), 12)
        }
    }
}
fn script(r: &mut R, entry: &str, verdicts: Vec<u64>) -> Value {
    let (g, picks, budget) = gen_grammar(r);
    json!({"g": gj(&g), "entry": entry, "strat": {"kind": "script", "picks": picks}, "budget": budget + 20, "verdicts": verdicts, "maxrej": 200})
}
pub fn gen10(r: &mut R, _k: u64, _tier: &str) -> Value {
    let e = if r.p(70) { "strat" } else { "cbs" };
    script(r, e, vec![])
}
pub fn gen11(r: &mut R, _k: u64, _tier: &str) -> Value {
    if r.p(25) {
        return gen10(r, 0, "");
    }
    // who is productive becomes known in a given order
    let m = size(r, 120);
    let mut g: Gram = (0..m)
        .map(|i| {
            let mut alts = vec![vec![n(&nm(i + 1))]];
            if r.p(20) {
                alts.insert(r.n(2), vec![n(&nm(i)), t("x")]);
            }
            if r.p(10) {
                alts[0].push(n(&nm(m)));
            }
            (n(&nm(i)), alts)
        })
        .collect();
    let last = match r.n(4) {
        0 => vec![vec![n(&nm(r.n(m)))]],
        1 => vec![vec![n("undefined")]],
        _ => vec![vec![t("end")]],
    };
    g.push((n(&nm(m)), last));
    match r.n(3) {
        0 => g[1..].reverse(),
        1 => r.shuffle(&mut g[1..]),
        _ => {}
    }
    let entry = if r.p(20) { "cbs" } else { "strat" };
    let mut c = json!({"g": gj(&g), "entry": entry, "strat": {"kind": "steer", "seed": 1, "left": 0}, "budget": 3 * m + 20, "verdicts": []});
    if r.p(30) {
        c["budget"] = json!(r.r(1, 10));
    }
    c
}
pub fn gen12(r: &mut R, _k: u64, _tier: &str) -> Value {
    // a long row of rejections somewhere
    let (a, b) = (r.n(6), size(r, 160));
    let v: Vec<u64> = if r.p(30) {
        (0..a + b).map(|i| (i % 3 == 0) as u64).collect()
    } else {
        (0..a).map(|_| 1).chain((0..b).map(|_| 0)).chain((0..200).map(|_| 1)).collect()
    };
    let (g, picks, budget): (Gram, Vec<usize>, usize) = if r.p(70) {
        (vec![(n("s"), vec![vec![t("a"), n("d"), n("d")], vec![n("d"), t("z")]]), (n("d"), vec![vec![t("0")], vec![t("1")], vec![n("e")]]), (n("e"), vec![vec![t("")]])],
         (0..13).map(|_| r.n(3)).collect(), 900)
    } else {
        gen_grammar(r)
    };
    json!({"g": gj(&g), "entry": "cbs", "strat": {"kind": "script", "picks": picks}, "budget": budget + 300, "verdicts": v, "maxrej": 200})
}

// ------------------------------------------------------------ strategies
pub fn choose14(r: &mut R, _k: u64, _tier: &str) -> Value {
    let seed = r.u() >> 12;
    let max = *r.pick(&[0usize, 1, 3, 30, 70, 127, 128, 200, 255, 256, 257, 1000, 32768, 65535, 65536, 65537, 1 << 20, (1 << 31) - 1]);
    let m = *r.pick(&[2, 3, 5, 9, 20, 40, 63, 64, 65, 100, 129, 256, 257, 300]);
    let rare = r.p(30);
    // long alternatives; the names in them stand late, or there is none
    let mut alts: Vec<Alt> = vec![];
    for i in 0..m {
        let l = if m > 40 { r.r(1, 2) } else if m > 9 { r.r(1, 4) } else { size(r, 80) };
        let mut al: Alt = (0..l).map(|j| t(&format!("{i}.{j}"))).collect();
        if r.p(if rare { 97 } else { 60 }) {
            let back = r.n(3).min(l);
            let at = if r.p(70) { l - back } else { r.n(l + 1) };
            al.insert(at, n(r.pick(&["s", "q", "undef", ""])));
        }
        alts.push(al);
    }
    let g: Gram = vec![(n("s"), alts.clone()), (n("q"), alts.iter().rev().cloned().collect())];
    let mut calls = vec![];
    for _ in 0..r.r(20, 60) {
        let d = match r.n(5) {
            0 => max,
            1 => (max + 1).min((1 << 31) - 1),
            2 => (max + 1000).min((1 << 31) - 1),
            3 => *r.pick(&[usize::MAX >> 33, 0, 1, 255, 256, 257, 512, 65535, 65536, 65537, 1 << 17, 1 << 24, 1 << 30]),
            _ => max.saturating_sub(1),
        };
        calls.push(json!([1 + r.n(2), d]));
    }
    json!({"g": gj(&g), "mode": "direct", "strat": {"kind": "depth", "max": max, "seed": seed}, "calls": calls})
}
pub fn choose15(r: &mut R, _k: u64, _tier: &str) -> Value {
    let seed = r.u() >> 12;
    let g: Gram = if r.p(25) {
        // adjacent productions of many alternatives
        let k = r.r(2, 3);
        (0..k)
            .map(|i| {
                let m = size(r, 130);
                (n(&nm(i)), (0..m).map(|j| vec![t(&format!("{j}"))]).collect())
            })
            .collect()
    } else if r.p(60) {
        let m = size(r, 260);
        vec![(n("s"), (0..m).map(|i| vec![t(&format!("{i}"))]).collect()), (n("q"), vec![vec![t("x")], vec![n("s")], vec![t("y")]])]
    } else {
        // many productions
        let m = size(r, 100);
        (0..m).map(|i| (n(&nm(i % 10)), (0..1 + i % 4).map(|j| vec![t(&format!("{j}"))]).collect())).collect()
    };
    let mut calls: Vec<Value> = vec![];
    for (i, p) in g.iter().enumerate() {
        for j in 0..p.1.len() + r.n(3) {
            calls.push(json!([1 + i, j % 4]));
        }
    }
    match r.n(3) {
        0 => r.shuffle(&mut calls),
        1 => {
            // round and round
            calls.sort_by_key(|c| c[1].as_u64());
        }
        _ => {}
    }
    json!({"g": gj(&g), "mode": "direct", "strat": {"kind": "cover", "max": 0, "seed": seed}, "calls": calls})
}
pub fn dist16(r: &mut R, _k: u64, _tier: &str) -> Value {
    let m = size(r, 300);
    let longish = r.p(30);
    let alts: Vec<Alt> = (0..m)
        .map(|i| {
            let mut a = vec![t(&format!("t{i}"))];
            if longish {
                a.extend((0..r.n(40)).map(|_| t("x")));
            }
            if r.p(40) {
                let at = if r.p(50) { a.len() } else { r.n(a.len() + 1) };
                a.insert(at, n("s"));
            }
            a
        })
        .collect();
    let ws = [json!(["n", 0]), json!(["n", 1]), json!(["n", 1]), json!(["n", 2]), json!(["n", 3]), json!(["n", 100]), json!(["half", 0]), json!(["max", 0])];
    json!({"prod": pj(&(n("s"), alts)), "kind": r.pick(&["walk", "weight"]), "wr": r.pick(&ws), "wn": r.pick(&ws), "how": "direct", "seed": r.u() >> 12,
           "n": 40000, "api": ""})
}

// ------------------------------------------------------------ rendering
fn pad(r: &mut R) -> Value {
    if r.p(50) { json!(["T", r.pick(&["a", "", "\"", ";", "│   "])]) } else { json!(["N", "q", [["T", "z"], ["N", "e", []]]]) }
}
pub fn render(r: &mut R, _k: u64, _tier: &str) -> Value {
    let mut labels = vec![];
    let tree = match r.n(6) {
        // very many nodes
        4 | 5 => {
            let (a, b) = (r.r(5, 30), r.r(5, 45));
            let rows: Vec<Value> = (0..a)
                .map(|i| {
                    let kids: Vec<Value> =
                        (0..b).map(|j| if (i * b + j) % 13 == 5 { json!(["N", "s", [["T", "x"]]]) } else { json!(["T", r.pick(&["a", "b", "x", ""])]) }).collect();
                    json!(["N", r.pick(&["r", "s"]), kids])
                })
                .collect();
            json!(["N", "s", rows])
        }
        // a deep spine, with or without siblings
        0 | 1 => {
            let d = size(r, 90);
            let mut x = json!(["N", "e", []]);
            let sib = *r.pick(&[0, 10, 50]);
            for _ in 0..d {
                let mut kids = vec![x];
                if r.p(sib) {
                    kids.insert(0, pad(r));
                }
                if r.p(sib) {
                    kids.push(pad(r));
                }
                x = json!(["N", "s", kids]);
            }
            x
        }
        2 => {
            let m = size(r, 130);
            let kids: Vec<Value> = (0..m).map(|i| if i % 9 == 4 { pad(r) } else { json!(["T", format!("{i}")]) }).collect();
            json!(["N", "s", [["T", "first"], ["N", "s", kids], ["T", "last"]]])
        }
        _ => {
            let (a, b) = (size(r, 400), size(r, 400));
            let (w, v) = (long_word(r, a), long_word(r, b));
            labels.push(json!(format!("{w}#<>;{v}")));
            json!(["N", w.clone(), [["T", v], ["N", w, [["T", "x"]]]]])
        }
    };
    json!({"mode": "build", "tree": encode(tree), "labels": labels})
}

// ------------------------------------------------------------ editing
pub fn edit(r: &mut R, _k: u64, _tier: &str) -> Value {
    let g = value(r, 120);
    let mut ops: Vec<Value> = vec![];
    for _ in 0..r.r(2, 8) {
        let i = if r.p(50) { g.len() - 1 - r.n(g.len().min(3)) } else { r.n(g.len()) };
        let na = g[i].1.len();
        let j = if r.p(50) { na - 1 - r.n(na.min(3)) } else { r.n(na) };
        let a = &g[i].1[j];
        let k = if r.p(50) { a.len() - 1 } else { r.n(a.len()) };
        ops.push(match r.n(8) {
            0 => json!(["rmp", 0, 0, 0, pj(&g[i]), 0]),
            1 => json!(["addp", 0, 0, 0, pj(&g[i]), 0]),
            2 => json!(["rma", i + 1, 0, 0, aj(a), 0]),
            3 => json!(["adda", i + 1, 0, 0, aj(a), 0]),
            4 => json!(["rmt", i + 1, j + 1, 0, tj(&a[k]), 0]),
            5 => json!(["addt", i + 1, j + 1, 0, tj(&a[k]), 0]),
            6 => json!(["sett", i + 1, j + 1, k + 1, tj(&n("new")), 0]),
            _ => json!(["subst", 0, 0, 0, tj(&a[k]), tj(&n("new"))]),
        });
    }
    json!({"g": gj(&g), "ops": ops})
}

// ------------------------------------------------------------ sessions
pub fn session(r: &mut R, k: u64, tier: &str) -> Value {
    let s = || n("s");
    if r.p(30) {
        let mut c = super::session::make(r, k, tier);
        if c["cyclic"] != json!(true) {
            super::parse::enlarge(r, &mut c);
        }
        return c;
    }
    let len = size(r, 100);
    let (g, inputs): (Gram, Vec<String>) = match r.n(4) {
        0 => (vec![(s(), vec![vec![n("d"), s()], vec![t("")]]), (n("d"), vec![vec![t("a")], vec![t("b")]])],
              vec!["ab".repeat(len / 2), "a".repeat(len / 2 + 1), "b".into()]),
        1 => (vec![(s(), vec![vec![s(), t("-")], vec![t("<")]])], vec![format!("<{}", "-".repeat(len)), "<".into(), format!("<{}<", "-".repeat(len))]),
        2 => (vec![(s(), vec![vec![s(), s()], vec![t("a")], vec![t("aa")]])], vec!["aaaa".into(), "aaa".into(), "a".into()]),
        _ => {
            let m = size(r, 60);
            let mut g: Gram = vec![(s(), (0..m).map(|i| vec![n(&nm(i)), s()]).chain([vec![t("")]]).collect())];
            g.extend((0..m).map(|i| (n(&nm(i)), vec![vec![t(&format!("{i};"))]])));
            let w = |r: &mut R| -> String { (0..r.r(1, 8)).map(|_| format!("{};", r.n(m))).collect() };
            (g, vec![w(r), w(r), String::new()])
        }
    };
    let mut ops = vec![];
    let mut open = [false; 4];
    for _ in 0..r.r(10, 90) {
        let x = r.n(4);
        if !open[x] || r.p(8) {
            let entry = *r.pick(&["default", "explicit", "deprecated", "deprecated_start"]);
            ops.push(json!(["open", x, r.n(2), r.n(inputs.len()), entry, 0]));
            open[x] = true;
        } else if r.p(8) {
            ops.push(json!(["drop", x]));
            open[x] = false;
        } else {
            ops.push(json!(["next", x]));
        }
    }
    let mut v = g.clone();
    ggen::split(r, &mut v);
    json!({"g": gj(&g), "starts": [["N", "s"]], "inputs": inputs, "ops": ops, "variants": [gj(&v)], "cyclic": false, "limit": 60})
}

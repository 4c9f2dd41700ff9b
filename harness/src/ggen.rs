//! Generators of grammars and inputs.  They never call the code under test.
use crate::g::*;
use crate::rng::R;

pub const THEMES: &[&[&str]] = &[
    &["a", "b"],
    &["a", "b", "c", "ab", "ba"],
    &["a", "aa", "aaa"],
    &["0", "1", "+", "*", "(", ")"],
    &["é", "è", "ß", "ü"],
    &["表", "情", "表情", "a"],
    &["😀", "😁", "😀😁", "x"],
    &["e\u{301}", "e", "\u{301}"],
    &[" ", "\n", "\t", "a"],
    &["<", ">", "|", "::=", "<a>"],
    &["'", "\"", ";", "\\"],
    &["foo", "bar", "foobar", "f", "oo", "barfoo"],
    &["A", "C", "G", "T"],
    &["\u{0}", "\u{7f}", "\u{80}", "\u{ffff}", "\u{10ffff}"],
    &["if", "then", "else", " ", "x"],
    &["[", "]", "(", ")", "#", "&"],
    &["aλ", "λa", "λ", "a", "λλ"],
    &["a", "A", "b", "B", "aB", "Ab"],
    &["é", "e\u{301}", "É", "e", "E"],
    &[" ", "\u{a0}", "\t", "x", "  "],
    &["ﬁ", "fi", "f", "i", "ſ", "s", "K", "\u{212a}", "k"],
    &["\r\n", "\n", "\r", "x"],
];

pub const NAMES: &[&[&str]] = &[
    &["s", "a", "b", "c", "d", "e", "f"],
    &["a", "b", "ab", "aa", "ba", "aab"],
    &["start", "expr", "term", "factor", "digit", "list", "item"],
    &["表情", "文本", "é", "è", "λ", "😀", "ß"],
    &["", " ", "a b", "a  b", "\t", "x y z", "0"],
    &["__anon0", "__anon1", "__anon2", "__anon3", "anon", "__anon", "_"],
    &["a-b", "a_b", "a.b", "a;b", "a|b", "a'b", "a\"b"],
    &["A", "a", "Aa", "aA", "AA", "S", "s"],
    &["n1", "n2", "n3", "n10", "n11", "n12", "n100"],
    &["(a)", "[b]", "(", "[", "::=", "=", "/"],
    &["ALPHA", "DIGIT", "CRLF", "HEXDIG", "URI", "WSP", "LWSP"],
    &["Rule-Name", "uri-reference", "path-abempty", "if_statement", "BinaryOp", "x86_64", "o'clock"],
];

/// A made-up word: one kind of characters, or several.
pub fn word(r: &mut R) -> String {
    let pools: &[&str] = &[
        "abcdefghijklmnopqrstuvwxyz",
        "ABCDEFGHIJKLMNOPQRSTUVWXYZ",
        "0123456789",
        "abcXYZ019_-",
        "!#$%&*+,-.:?@^_`~{}\\",
        "àéîõüßçñØÅ",
        "ΑΒΓαβγЖжЯя",
        "表情文本語한글かな",
        "😀😁🎉👩🏽‍🚀",
        "\u{301}e\u{308}a\u{200d}\u{feff}\u{200b}",
        " \t\u{a0}\u{3000}ab",
    ];
    let one = r.pick(pools).chars().collect::<Vec<_>>();
    let two = if r.p(30) { r.pick(pools).chars().collect() } else { one.clone() };
    let l = *r.pick(&[1, 2, 3, 4, 5, 6, 8, 12, 20]);
    (0..l).map(|_| if r.p(70) { *r.pick(&one) } else { *r.pick(&two) }).collect()
}

/// A string that looks like another one.
pub fn near(r: &mut R, s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    match r.n(14) {
        0 => s.to_uppercase(),
        1 => s.to_lowercase(),
        2 => s.chars().map(|x| if x.is_lowercase() { x.to_uppercase().next().unwrap() } else { x.to_lowercase().next().unwrap() }).collect(),
        3 => format!("{s} "),
        4 => format!(" {s}"),
        5 => s.trim().to_string(),
        6 => s.replace('-', "_"),
        7 => s.replace('_', "-"),
        8 => c[..c.len().saturating_sub(1)].iter().collect(),
        9 => c.iter().skip(1).collect(),
        10 => format!("{s}{s}"),
        11 => format!("{s}{}", r.pick(&["\u{301}", "\u{0}", "\u{feff}", "1", "'", "s"])),
        12 => c.iter().rev().collect(),
        _ => s.replace(' ', "\u{a0}"),
    }
}
pub fn near_term(r: &mut R, x: &T) -> T {
    match (x, r.p(25)) {
        (T::N(s), true) => t(s),
        (T::T(s), true) => n(s),
        (T::N(s), _) => n(&near(r, s)),
        (T::T(s), _) => t(&near(r, s)),
    }
}
fn near_list<X: Clone>(r: &mut R, v: &[X], one: impl Fn(&mut R, &X) -> X) -> Vec<X> {
    let mut v = v.to_vec();
    if v.is_empty() {
        return v;
    }
    let (i, j) = (r.n(v.len()), r.n(v.len()));
    match r.n(9) {
        0 => r.shuffle(&mut v),
        1 => v.swap(i, j),
        2 => {
            v.remove(i);
        }
        3 => v.insert(j, v[i].clone()),
        4 => v[i] = v[j].clone(),
        5 => v.reverse(),
        _ => v[i] = one(r, &v[i]),
    }
    v
}
pub fn near_alt(r: &mut R, a: &Alt) -> Alt {
    near_list(r, a, near_term)
}
pub fn near_prod(r: &mut R, p: &Prod) -> Prod {
    let mut p = p.clone();
    if r.p(15) {
        p.0 = near_term(r, &p.0);
    } else {
        p.1 = near_list(r, &p.1, near_alt);
    }
    p
}
pub fn near_gram(r: &mut R, g: &Gram) -> Gram {
    near_list(r, g, near_prod)
}
fn names(r: &mut R, k: usize) -> Vec<String> {
    let th = if r.p(55) { NAMES[0] } else { *r.pick(NAMES) };
    let mut v: Vec<String> = th.iter().map(|s| s.to_string()).collect();
    if r.p(8) {
        // all of them close to one
        let one = if r.p(50) { v[0].clone() } else { word(r) };
        for x in v.iter_mut() {
            *x = near(r, &one);
        }
        v.retain(|x| !x.contains('>'));
        let mut seen = std::collections::BTreeSet::new();
        v.retain(|x| seen.insert(x.clone()));
    } else if r.p(10) {
        for x in v.iter_mut() {
            let w = word(r);
            if !w.contains('>') {
                *x = w;
            }
        }
        let mut seen = std::collections::BTreeSet::new();
        v.retain(|x| seen.insert(x.clone()));
    }
    let mut i = 0;
    while v.len() < k {
        v.push(format!("q{i}"));
        i += 1;
    }
    v.truncate(k);
    if r.p(30) {
        r.shuffle(&mut v);
    }
    v
}

pub struct Shape {
    pub nts: (usize, usize),
    pub alts: (usize, usize),
    pub len: (usize, usize),
    pub empty_term: usize, // percent
    pub nonterm: usize,    // percent
    pub undef: usize,      // percent of grammars with undefined names
    pub split: usize,      // percent of grammars with several productions per name
    pub empty_alt: usize,  // percent: alternatives of length zero allowed
}
impl Shape {
    pub fn parse() -> Shape {
        Shape { nts: (1, 5), alts: (1, 4), len: (1, 4), empty_term: 10, nonterm: 50, undef: 0, split: 20, empty_alt: 4 }
    }
}

pub fn random_grammar(r: &mut R, sh: &Shape) -> Gram {
    let k = r.r(sh.nts.0, sh.nts.1);
    let nm = names(r, k);
    let th = if r.p(40) { THEMES[0] } else { *r.pick(THEMES) };
    let und = r.p(sh.undef);
    let ea = r.p(sh.empty_alt);
    let et = if r.p(50) { sh.empty_term } else { 0 };
    let nt_pct = if sh.nonterm == 0 { 0 } else { r.r(sh.nonterm.saturating_sub(20), (sh.nonterm + 15).min(95)) };
    let mut g: Gram = vec![];
    for a in &nm {
        let na = r.r(sh.alts.0, sh.alts.1);
        let mut alts = vec![];
        for _ in 0..na {
            let l = if ea && r.p(30) { 0 } else { r.r(sh.len.0, sh.len.1) };
            let mut al = vec![];
            for _ in 0..l {
                if r.p(nt_pct) {
                    if und && r.p(12) {
                        al.push(n("undef"));
                    } else {
                        al.push(T::N(r.pick(&nm).clone()));
                    }
                } else if r.p(et) {
                    al.push(t(""));
                } else {
                    al.push(t(r.pick(th)));
                }
            }
            if !alts.contains(&al) || r.p(3) {
                alts.push(al);
            }
        }
        g.push((T::N(a.clone()), alts));
    }
    if r.p(sh.split) {
        split(r, &mut g);
    }
    g
}

/// Split productions into several with the same left hand side and mix the order
/// (the first production's name stays first).
pub fn split(r: &mut R, g: &mut Gram) {
    let first = g[0].0.clone();
    let mut out: Gram = vec![];
    for (l, alts) in g.drain(..) {
        if alts.len() >= 2 && r.p(60) {
            let m = r.r(1, alts.len() - 1);
            out.push((l.clone(), alts[..m].to_vec()));
            out.push((l, alts[m..].to_vec()));
        } else {
            out.push((l, alts));
        }
    }
    r.shuffle(&mut out);
    let i = out.iter().position(|p| p.0 == first).unwrap();
    out.swap(0, i);
    *g = out;
}

fn p(l: &str, alts: Vec<Alt>) -> Prod {
    (n(l), alts)
}

/// Families of grammars with a known difficulty for chart parsers.
pub fn template(r: &mut R) -> Gram {
    let th = *r.pick(THEMES);
    let x = r.pick(th).to_string();
    let y = r.pick(th).to_string();
    let tx = || t(&x);
    let ty = || t(&y);
    match r.n(29) {
        0 => vec![p("s", vec![vec![n("s"), tx()], vec![tx()]])],
        1 => vec![p("s", vec![vec![tx(), n("s")], vec![t("")]])],
        2 => vec![p("s", vec![vec![n("s"), n("s")], vec![tx()]])],
        3 => vec![p("s", vec![vec![tx(), n("s"), ty()], vec![t("")]])],
        4 => vec![
            p("e", vec![vec![n("e"), t("+"), n("m")], vec![n("m")]]),
            p("m", vec![vec![n("m"), t("*"), n("f")], vec![n("f")]]),
            p("f", vec![vec![t("("), n("e"), t(")")], vec![tx()]]),
        ],
        5 => vec![p("e", vec![vec![n("e"), t("+"), n("e")], vec![n("e"), t("*"), n("e")], vec![tx()]])],
        6 => vec![
            p("a", vec![vec![n("b"), tx()], vec![tx()]]),
            p("b", vec![vec![n("a"), ty()], vec![ty()]]),
        ],
        7 => vec![
            p("s", vec![vec![t("if"), n("s")], vec![t("if"), n("s"), t("else"), n("s")], vec![tx()]]),
        ],
        8 => vec![
            p("s", vec![vec![n("a"), n("b"), n("c")]]),
            p("a", vec![vec![tx()], vec![t("")]]),
            p("b", vec![vec![ty()], vec![t("")]]),
            p("c", vec![vec![tx()], vec![t("")]]),
        ],
        // hidden left recursion
        9 => vec![
            p("s", vec![vec![n("o"), n("s"), tx()], vec![ty()]]),
            p("o", vec![vec![ty()], vec![t("")]]),
        ],
        // unit chain
        10 => {
            let k = r.r(3, 30);
            let mut g: Gram = (0..k).map(|i| p(&format!("c{i}"), vec![vec![n(&format!("c{}", i + 1))]])).collect();
            g.push(p(&format!("c{k}"), vec![vec![tx()], vec![ty()]]));
            g
        }
        // many alternatives
        11 => {
            let k = r.r(10, 70);
            let mut alts: Vec<Alt> = (0..k).map(|i| vec![t(&format!("{x}{i}"))]).collect();
            alts.push(vec![n("s"), t(","), n("s")]);
            vec![p("s", alts)]
        }
        // long alternative
        12 => {
            let k = r.r(8, 24);
            let al: Alt = (0..k).map(|i| if i % 3 == 1 { n("o") } else { t(th[i % th.len()]) }).collect();
            vec![p("s", vec![al]), p("o", vec![vec![tx()], vec![t("")]])]
        }
        // many productions, one used late
        13 => {
            let k = r.r(10, 60);
            let mut g: Gram = vec![p("s", vec![vec![n(&format!("k{}", k - 1)), n("s")], vec![n(&format!("k{}", r.n(k)))]])];
            for i in 0..k {
                g.push(p(&format!("k{i}"), vec![vec![t(&format!("{}", (b'a' + (i % 26) as u8) as char))]]));
            }
            g
        }
        // palindromes
        14 => vec![p("s", vec![vec![tx(), n("s"), tx()], vec![ty(), n("s"), ty()], vec![tx()], vec![ty()], vec![t("")]])],
        // same name for a terminal and a nonterminal
        15 => vec![
            p("a", vec![vec![t("a"), n("a")], vec![t("b")], vec![n("b")]]),
            p("b", vec![vec![t("a")], vec![t("b"), n("a")]]),
        ],
        // right nulled
        16 => vec![
            p("s", vec![vec![tx(), n("s"), n("e"), n("e")], vec![tx()]]),
            p("e", vec![vec![t("")]]),
        ],
        // nullable in the middle, shared by two contexts
        17 => vec![
            p("s", vec![vec![n("l"), n("m"), n("r")]]),
            p("l", vec![vec![tx()], vec![tx(), tx()]]),
            p("m", vec![vec![t("")], vec![tx()]]),
            p("r", vec![vec![tx()], vec![tx(), tx()], vec![t("")]]),
        ],
        // a name predicted at an offset where it has already completed
        18 => vec![
            p("s", vec![vec![n("a"), n("a")], vec![n("a"), n("b")], vec![n("b"), n("a")]]),
            p("a", vec![vec![t("")], vec![tx()]]),
            p("b", vec![vec![n("c")]]),
            p("c", vec![vec![ty()], vec![n("a"), ty()]]),
        ],
        // start symbol used inside
        19 => vec![
            p("s", vec![vec![n("a"), ty()], vec![tx()]]),
            p("a", vec![vec![n("s"), tx()], vec![n("s"), ty(), n("s")], vec![ty()]]),
        ],
        20 => vec![
            p("list", vec![vec![n("item")], vec![n("item"), t(", "), n("list")]]),
            p("item", vec![vec![t("[]")], vec![t("["), n("list"), t("]")], vec![tx()]]),
        ],
        // overlapping terminals
        21 => vec![p("s", vec![
            vec![t("a"), n("s")], vec![t("ab"), n("s")], vec![t("b"), n("s")], vec![t("abb")], vec![t("b")], vec![t("")],
        ])],
        // indirect nullable, left recursive
        22 => vec![
            p("s", vec![vec![n("s"), n("a")], vec![n("b")]]),
            p("a", vec![vec![tx()], vec![n("b"), ty()]]),
            p("b", vec![vec![n("c"), n("c")]]),
            p("c", vec![vec![t("")]]),
        ],
        // several productions for the start symbol, far apart
        23 => vec![
            p("s", vec![vec![n("a"), n("b")]]),
            p("a", vec![vec![tx()]]),
            p("s", vec![vec![n("b"), n("a")]]),
            p("b", vec![vec![ty()]]),
            p("a", vec![vec![tx(), tx()]]),
            p("s", vec![vec![n("s"), tx()]]),
        ],
        // one production completes at several ends from the same start
        24 => vec![
            p("s", vec![vec![n("x"), n("y")]]),
            p("x", vec![vec![t("a")], vec![t("a"), n("x")]]),
            p("y", vec![vec![t("a")], vec![t("a"), n("y")], vec![t("b")]]),
        ],
        // several different empty derivations of the same names
        25 | 26 | 27 => empties(r, &x, &y),
        _ => vec![
            p("s", vec![vec![n("np"), t(" "), n("vp")]]),
            p("np", vec![vec![t("I")], vec![t("a "), n("nn")], vec![n("np"), t(" "), n("pp")]]),
            p("vp", vec![vec![t("saw "), n("np")], vec![n("vp"), t(" "), n("pp")]]),
            p("pp", vec![vec![t("with "), n("np")]]),
            p("nn", vec![vec![t("man")], vec![t("dog")], vec![t("cat")]]),
        ],
    }
}

/// Names with several different derivations of the empty string (and of x), used side by side.
pub fn empties(r: &mut R, x: &str, y: &str) -> Gram {
    let k = r.r(1, 4);
    let mut g: Gram = vec![];
    let mut top: Vec<Alt> = vec![];
    for _ in 0..r.r(1, 2) {
        let m = r.r(1, 4);
        top.push(
            (0..m)
                .map(|_| match r.n(6) {
                    0 => t(x),
                    1 => n("f0"),
                    _ => n("e"),
                })
                .collect(),
        );
    }
    top.dedup();
    let mut alts: Vec<Alt> = vec![vec![t("")]];
    for i in 0..k {
        alts.push(vec![n(&format!("f{i}"))]);
    }
    for _ in 0..r.n(3) {
        let a = match r.n(5) {
            0 => vec![t(""), t("")],
            1 => vec![n("f0"), n("f0")],
            2 => vec![t(""), n("f0")],
            3 => vec![t(x)],
            _ => vec![],
        };
        if !alts.contains(&a) {
            alts.push(a);
        }
    }
    r.shuffle(&mut alts);
    g.push(p("s", top));
    g.push(p("e", alts));
    for i in 0..k {
        let a: Alt = if i + 1 < k && r.p(40) { vec![n(&format!("f{}", i + 1))] } else { vec![t("")] };
        g.push(p(&format!("f{i}"), if r.p(25) { vec![a, vec![t(y)]] } else { vec![a] }));
    }
    g
}

/// Grammars with cyclic derivations.
pub fn cyclic_grammar(r: &mut R) -> Gram {
    let th = *r.pick(THEMES);
    let x = r.pick(th).to_string();
    let y = r.pick(th).to_string();
    let tx = || t(&x);
    let ty = || t(&y);
    match r.n(14) {
        12 | 13 => {
            // an empty or unit cycle among names with several empty derivations
            let mut g = empties(r, &x, &y);
            let i = r.n(g.len());
            let a = match r.n(4) {
                0 => vec![n("e"), g[i].0.clone()],
                1 => vec![g[i].0.clone(), n("f0")],
                2 => vec![g[i].0.clone()],
                _ => vec![n("s"), t("")],
            };
            let at = r.n(g[i].1.len() + 1);
            g[i].1.insert(at, a);
            g
        }
        0 => vec![p("a", vec![vec![n("a")], vec![tx()]])],
        1 => vec![p("a", vec![vec![n("b")], vec![tx()]]), p("b", vec![vec![n("a")], vec![ty()]])],
        2 => vec![p("s", vec![vec![n("s"), n("s")], vec![tx()], vec![t("")]])],
        3 => vec![p("s", vec![vec![n("s"), n("e")], vec![tx()]]), p("e", vec![vec![t("")]])],
        4 => vec![p("s", vec![vec![n("e"), n("s")], vec![tx()]]), p("e", vec![vec![t("")], vec![ty()]])],
        5 => vec![
            p("a", vec![vec![n("b")], vec![tx()]]),
            p("b", vec![vec![n("c")]]),
            p("c", vec![vec![n("a")], vec![ty(), n("a")]]),
        ],
        6 => vec![p("s", vec![vec![tx(), n("a")]]), p("a", vec![vec![n("a")], vec![ty()], vec![t("")]])],
        7 => vec![p("s", vec![vec![n("a"), n("a")]]), p("a", vec![vec![n("b")], vec![tx()]]), p("b", vec![vec![n("a")]])],
        8 => vec![p("s", vec![vec![n("s"), n("s")], vec![t("")]])],
        _ => {
            let mut sh = Shape::parse();
            sh.nts = (1, 3);
            sh.alts = (1, 3);
            sh.len = (1, 2);
            sh.nonterm = 60;
            sh.empty_term = 30;
            random_grammar(r, &sh)
        }
    }
}

pub fn parse_grammar(r: &mut R) -> Gram {
    loop {
        let mut g = if r.p(45) {
            let mut g = template(r);
            if r.p(20) {
                split(r, &mut g);
            }
            if r.p(15) {
                rename(r, &mut g);
            }
            g
        } else {
            let mut sh = Shape::parse();
            match r.n(5) {
                0 => sh.nts = (1, 2),
                1 => sh.nts = (3, 8),
                2 => sh.alts = (2, 6),
                3 => sh.len = (1, 6),
                _ => {}
            }
            random_grammar(r, &sh)
        };
        // a name without alternatives
        if r.p(3) && g.len() > 1 {
            let i = r.r(1, g.len() - 1);
            g[i].1.clear();
        }
        // a few extra unused productions
        if r.p(8) {
            g.push((n("unused"), vec![vec![t("u")], vec![n("unused"), t("v")]]));
        }
        if !cyclic(&g) {
            return g;
        }
    }
}

/// Rename all nonterminals with odd names.
pub fn rename(r: &mut R, g: &mut Gram) {
    let mut old: Vec<String> = vec![];
    for (l, alts) in g.iter() {
        for x in std::iter::once(l).chain(alts.iter().flatten()) {
            if let T::N(s) = x {
                if !old.contains(s) {
                    old.push(s.clone());
                }
            }
        }
    }
    let nw = names(r, old.len());
    let f = |x: &mut T| {
        if let T::N(s) = x {
            let i = old.iter().position(|o| o == s).unwrap();
            *s = nw[i].clone();
        }
    };
    for (l, alts) in g.iter_mut() {
        f(l);
        alts.iter_mut().flatten().for_each(&f);
    }
}

/// A change some readers of text would not notice.
fn near_miss(r: &mut R, cs: &mut Vec<char>) {
    let i = r.n(cs.len());
    let c = cs[i];
    match r.n(9) {
        0 | 1 => {
            let up: Vec<char> = if c.is_uppercase() { c.to_lowercase().collect() } else { c.to_uppercase().collect() };
            cs.splice(i..i + 1, up);
        }
        2 => cs.insert(i + 1, *r.pick(&['\u{301}', '\u{200d}', '\u{feff}', '\u{ad}', '\u{0}'])),
        3 => cs.insert(0, *r.pick(&['\u{feff}', ' ', '\n', '\t', '\u{0}'])),
        4 => cs.push(*r.pick(&[' ', '\n', '\r', '\t', '\u{0}', '\u{a0}', '\u{2028}'])),
        5 => cs.insert(i, c),
        6 => {
            cs.remove(i);
        }
        7 => {
            let d = match c {
                ' ' => '\u{a0}',
                '\n' => '\r',
                '\r' => '\n',
                'é' => 'è',
                '\'' => '’',
                '"' => '“',
                c => char::from_u32(c as u32 ^ (1 << r.n(16))).unwrap_or(c),
            };
            cs[i] = d;
        }
        _ => {
            let j = r.n(cs.len());
            cs.swap(i, j);
        }
    }
}

/// An input for start symbol a: a sentence, a damaged sentence or noise.
pub fn input(r: &mut R, g: &Gram, a: &str, long: bool) -> String {
    let budget = if long { r.r(10, 80) } else { r.r(0, 14) };
    let base = if r.p(80) { sentence(r, g, a, budget) } else { None };
    let alpha = alphabet(g);
    let mut cs: Vec<char> = match base {
        Some(s) => s.chars().collect(),
        None => {
            let k = r.n(7);
            (0..k).map(|_| if alpha.is_empty() { 'a' } else { *r.pick(&alpha) }).collect()
        }
    };
    if r.p(25) && !alpha.is_empty() {
        let k = r.r(1, 2);
        for _ in 0..k {
            let i = r.n(cs.len() + 1);
            match r.n(4) {
                0 => cs.insert(i, *r.pick(&alpha)),
                1 if i < cs.len() => {
                    cs.remove(i);
                }
                2 if i < cs.len() => cs[i] = *r.pick(&alpha),
                3 => cs.insert(i, *r.pick(&['z', ' ', 'é', '😀'])),
                _ => {}
            }
        }
    }
    if r.p(6) && !cs.is_empty() {
        near_miss(r, &mut cs);
    }
    let max = if long { 120 } else { 24 };
    cs.truncate(max);
    cs.into_iter().collect()
}

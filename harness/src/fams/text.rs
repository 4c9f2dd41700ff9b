//! Grammar text: generated from abstract grammars with free layout, damaged, or noise.
use crate::g::*;
use crate::ggen::{NAMES, THEMES};
use crate::rng::R;
use bnf::{Expression, Format, Grammar, Production, Term};
use serde_json::{Value, json};

/// (name delimiters, production separator, alternative separator)
pub type Fmt = (Option<(char, char)>, &'static str, char);
macro_rules! formats {
    ($($id:ident $d:expr, $s:literal, $a:literal, $st:expr;)*) => {
        $(pub struct $id;
        impl Format for $id {
            fn nonterminal_delimiter() -> Option<(char, char)> { $d }
            fn production_separator() -> &'static str { $s }
            fn alternative_separator() -> char { $a }
            fn production_start_char() -> Option<char> { $st }
        })*
        pub const CUSTOM: &[(&str, Fmt)] = &[$((stringify!($id), ($d, $s, $a))),*];
        fn custom(id: &str, s: &str) -> Result<Grammar, bnf::Error> {
            match id {
                $(stringify!($id) => Grammar::parse_from::<$id>(s),)*
                _ => panic!("unknown format {id}"),
            }
        }
    };
}
formats! {
    F0 Some(('«', '»')), "->", '|', None;
    F1 Some(('{', '}')), ":", '/', Some('{');
    F2 Some(('$', '$')), ":=", ',', None;
    F3 Some(('[', ']')), "=", '|', None;
    F4 None, "::=", '|', None;
    F5 None, "→", '¦', None;
    F6 Some(('(', ')')), "->", '/', None;
    F7 Some(('<', '>')), "=", '/', Some('<');
    F8 Some(('<', '>')), "::=", '|', None;
    F9 Some(('{', '}')), "==", '+', None;
}
pub const BNFF: Fmt = (Some(('<', '>')), "::=", '|');
pub const ABNFF: Fmt = (None, "=", '/');
pub fn fmt_of(id: &str) -> Fmt {
    match id {
        "BNF" => BNFF,
        "ABNF" => ABNFF,
        _ => CUSTOM.iter().find(|x| x.0 == id).unwrap().1,
    }
}
pub fn fmt_json(id: &str) -> Value {
    let (d, s, a) = fmt_of(id);
    let ch = |c: Option<char>| c.map(|c| c.to_string()).unwrap_or_default();
    json!({"ds": ch(d.map(|x| x.0)), "de": ch(d.map(|x| x.1)),
           "sep": s.chars().map(|c| c.to_string()).collect::<Vec<_>>(), "alt": a.to_string()})
}
/// the case fields every text case has
pub fn case(text: &str, fmt: &str, what: &str) -> Value {
    let chars: Vec<String> = text.chars().map(|c| c.to_string()).collect();
    let cls: Vec<&str> = text
        .chars()
        .map(|c| if c.is_whitespace() { "w" } else if c.is_alphabetic() { "a" } else { "o" })
        .collect();
    json!({"text": text, "fmt": fmt, "what": what, "chars": chars, "cls": cls, "auto": fmt == "auto",
           "f": if fmt == "auto" { json!({"ds": "", "de": "", "sep": [], "alt": ""}) } else { fmt_json(fmt) }})
}

// ------------------------------------------------------------ abstract grammars
#[derive(Clone, Debug)]
pub enum X {
    T(String),
    N(String),
    G(Vec<Vec<X>>),
    O(Vec<Vec<X>>),
}
pub type Ext = Vec<(String, Vec<Vec<X>>)>;

pub fn name_ok(s: &str, f: &Fmt) -> bool {
    match f.0 {
        Some((_, e)) => !s.contains(e),
        None => {
            s.chars().next().is_some_and(|c| c.is_alphabetic())
                && !s.chars().any(|c| c.is_whitespace() || c == ')' || c == ']')
        }
    }
}
fn name_pool(r: &mut R, f: &Fmt) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let extra: &[&str] = &[
        "a", "b", "s", "rule-name", "x1", "a;b", "a'b", "a\"b", "a|b", "a/b", "a::=b", "a=b", "(a", "a(b", "[a", "a[b", "a<b", "<a", "a\nb",
        "a ; b", "'", "\"", ";", "::=", "=", "|", "/", "(", "[", "a)", "b]", "", " ", "é", "表", "__anon0", "__anon1", "__anon2", "a=",
        "a\u{a0}b", "Ωmega", "a;", "a->b", "A", "ab", "name with spaces", "n\tt", "😀", "x\u{3000}", "ǅ",
    ];
    let k = r.r(1, 5);
    let th = *r.pick(NAMES);
    let mut tries = 0;
    while v.len() < k && tries < 60 {
        tries += 1;
        let s = match r.n(10) {
            0..=3 => r.pick(NAMES[0]).to_string(),
            4..=5 => r.pick(th).to_string(),
            6 => crate::ggen::word(r),
            _ => r.pick(extra).to_string(),
        };
        if name_ok(&s, f) && !v.contains(&s) {
            v.push(s);
        }
    }
    if v.is_empty() {
        v.push("a".into());
    }
    v
}
fn terminal(r: &mut R) -> String {
    let nasty: &[&str] = &[
        "", " ", "a", "x", "b", ";", "; no comment", "<a>", "::=", "|", "/", "=", "(", ")", "[", "]", "<a> ::= 'b", "\n", "\r\n", "\t", "é",
        "表情", "😀", "\"", "'", "it's", "say \"hi\"", "\\", "\\n", "\\'", "a b", "<", ">", "{", "}", "$", "«", "a;b", "(x)", "[y]", "\u{0}", "->",
        "\u{a0}", "x\u{2028}y", "''", "\"\"", "%x41",
    ];
    let mut s = if r.p(12) { crate::ggen::word(r) } else if r.p(55) { r.pick(nasty).to_string() } else { r.pick(*r.clone().pick(THEMES)).to_string() };
    if r.p(10) {
        let t: String = r.pick(nasty).to_string();
        s.push_str(&t);
    }
    if s.contains('\'') && s.contains('"') {
        s = s.replace('\'', "");
    }
    s
}
fn alts(r: &mut R, nm: &[String], depth: usize, ext: usize) -> Vec<Vec<X>> {
    let na = *r.pick(&[1, 1, 1, 2, 2, 3, 4]);
    (0..na)
        .map(|_| {
            let nt = *r.pick(&[1, 1, 2, 2, 3, 4]);
            (0..nt)
                .map(|_| {
                    if depth > 0 && r.p(ext) {
                        let a = alts(r, nm, depth - 1, ext);
                        if r.p(50) { X::G(a) } else { X::O(a) }
                    } else if r.p(50) {
                        X::N(r.pick(nm).clone())
                    } else {
                        X::T(terminal(r))
                    }
                })
                .collect()
        })
        .collect()
}
pub fn abstract_grammar(r: &mut R, f: &Fmt, ext: usize) -> Ext {
    let nm = name_pool(r, f);
    let np = *r.pick(&[1, 1, 2, 2, 3, 4, 6]);
    let d = if ext == 0 { 0 } else { *r.pick(&[1, 2, 2, 3, 4]) };
    let mut g: Ext = (0..np)
        .map(|i| {
            let l = if i < nm.len() && r.p(70) { nm[i].clone() } else { r.pick(&nm).clone() };
            (l, alts(r, &nm, d, ext))
        })
        .collect();
    if ext > 0 && r.p(6) {
        // deep nesting
        let k = r.r(5, 40);
        let mut a = vec![vec![X::T(terminal(r))]];
        for i in 0..k {
            let x = if r.p(50) { X::G(a) } else { X::O(a) };
            a = if i % 7 == 3 { vec![vec![X::N(nm[0].clone())], vec![x]] } else { vec![vec![x]] };
        }
        g[0].1 = a;
    }
    g
}

// ------------------------------------------------------------------- layout
#[derive(Clone, Debug)]
pub enum Tok {
    Name(String),
    Other(String),
}
fn alts_toks(r: &mut R, f: &Fmt, al: &[Vec<X>], out: &mut Vec<Tok>) {
    for (i, a) in al.iter().enumerate() {
        if i > 0 {
            out.push(Tok::Other(f.2.to_string()));
        }
        for x in a {
            match x {
                X::N(s) => out.push(name_tok(f, s)),
                X::T(s) => {
                    let q = if s.contains('\'') { '"' } else if s.contains('"') { '\'' } else { *r.pick(&['\'', '"']) };
                    out.push(Tok::Other(format!("{q}{s}{q}")));
                }
                X::G(b) => {
                    out.push(Tok::Other("(".into()));
                    alts_toks(r, f, b, out);
                    out.push(Tok::Other(")".into()));
                }
                X::O(b) => {
                    out.push(Tok::Other("[".into()));
                    alts_toks(r, f, b, out);
                    out.push(Tok::Other("]".into()));
                }
            }
        }
    }
}
fn name_tok(f: &Fmt, s: &str) -> Tok {
    match f.0 {
        Some((a, b)) => Tok::Other(format!("{a}{s}{b}")),
        None => Tok::Name(s.to_string()),
    }
}
pub fn toks(r: &mut R, f: &Fmt, g: &Ext) -> Vec<Tok> {
    let mut out = vec![];
    for (l, al) in g {
        out.push(name_tok(f, l));
        let s = if r.p(12) { format!("{}{}", f.1, f.2) } else { f.1.to_string() };
        out.push(Tok::Other(s));
        alts_toks(r, f, al, &mut out);
    }
    out
}
fn space(r: &mut R, wild: usize) -> String {
    let mut s = String::new();
    let k = r.r(1, if wild > 1 { 4 } else { 1 });
    for _ in 0..k {
        match if wild > 1 { r.n(9) } else { r.n(3) } {
            0 => s.push(' '),
            1 => s.push('\n'),
            2 => s.push_str("  "),
            3 => s.push('\t'),
            4 => s.push_str("\r\n"),
            5 => s.push(*r.pick(&[
                '\u{a0}', '\u{3000}', '\u{85}', '\u{2003}', '\u{0b}', '\u{2028}', '\u{c}', '\u{2029}', '\u{1680}', '\u{2000}', '\u{200a}', '\u{202f}',
                '\u{205f}',
            ])),
            6 => s.push_str("\n\n"),
            _ => {
                s.push(';');
                s.push_str(r.pick(&[
                    "", " c", " <a> ::= 'x'", " it's", " \"", "(", " ) ]", ";;", " é 😀", " a = b / c", " | <b>", "::=", "\u{2028}still", "[", "'", "\u{85} <q> ::= 'z'",
                    "\u{b}<a>", "\u{c}'x'", "\u{2029}|", "\\", "\\\\", " \u{0}", "\t\t", "<", "%", " #", "-->", "\u{feff}", " c\\",
                ]));
                s.push_str(r.pick(&["\n", "\r", "\r\n", "\n\n"]));
            }
        }
    }
    s
}
pub fn layout(r: &mut R, t: &[Tok]) -> String {
    let wild = r.n(3);
    let mut s = String::new();
    if wild > 1 && r.p(40) {
        s.push_str(&space(r, 2));
    }
    for (i, x) in t.iter().enumerate() {
        match x {
            Tok::Other(o) => s.push_str(o),
            Tok::Name(o) => s.push_str(o),
        }
        let last = i + 1 == t.len();
        let must = !last
            && matches!(x, Tok::Name(_))
            && !matches!(&t[i + 1], Tok::Other(o) if o.starts_with(')') || o.starts_with(']'));
        // a comment right after a bare name would belong to the name
        if matches!(x, Tok::Name(_)) && (must || r.p(50)) {
            s.push(*r.pick(&[' ', '\n', '\t', ' ', ' ']));
            if wild > 1 && r.p(30) {
                s.push_str(&space(r, 2));
            }
        } else if !matches!(x, Tok::Name(_)) && r.p([10, 80, 80][wild]) {
            s.push_str(&space(r, wild));
        }
        if last && r.p(10) {
            if matches!(x, Tok::Name(_)) {
                s.push(' ');
            }
            s.push_str("; the end");
        }
    }
    s
}
fn damage(r: &mut R, t: &mut Vec<Tok>, f: &Fmt) {
    let k = r.r(1, 2);
    for _ in 0..k {
        if t.is_empty() {
            return;
        }
        let i = r.n(t.len());
        let tok = || -> Vec<Tok> {
            vec![
                Tok::Other(f.1.into()),
                Tok::Other(f.2.to_string()),
                Tok::Other("(".into()),
                Tok::Other(")".into()),
                Tok::Other("[".into()),
                Tok::Other("]".into()),
                name_tok(f, "a"),
                Tok::Other("'x'".into()),
                Tok::Other("'".into()),
                Tok::Other("\"".into()),
                Tok::Other(f.0.map(|d| d.0).unwrap_or('@').to_string()),
                Tok::Other("<".into()),
                Tok::Other("%".into()),
            ]
        };
        match r.n(6) {
            0 => {
                t.remove(i);
            }
            1 => {
                let x = r.pick(&tok()).clone();
                t.insert(i, x);
            }
            2 => {
                let j = r.n(t.len());
                t.swap(i, j);
            }
            3 => t[i] = r.pick(&tok()).clone(),
            4 => {
                t.truncate(i);
            }
            _ => {
                let x = t[i].clone();
                t.insert(i, x);
            }
        }
    }
}
fn noise(r: &mut R, f: &Fmt, base: &str) -> String {
    let mut cs: Vec<char> = base.chars().collect();
    let pool: Vec<char> = "<>:=|/()[]'\"; \n\rab{}$«»→-é😀\u{a0}\u{200b}\u{feff}\u{180e}\u{85}\u{0}\\%#_1*Aß²".chars().chain(f.1.chars()).chain([f.2]).collect();
    for _ in 0..r.r(1, 3) {
        let i = r.n(cs.len() + 1);
        match r.n(4) {
            0 => cs.insert(i, *r.pick(&pool)),
            1 if i < cs.len() => {
                cs.remove(i);
            }
            2 if i < cs.len() => cs[i] = *r.pick(&pool),
            _ => cs.truncate(i.max(1)),
        }
    }
    cs.into_iter().collect()
}
fn soup(r: &mut R, f: &Fmt) -> String {
    let k = r.r(0, 12);
    let mut t = vec![name_tok(f, "a"), Tok::Other(f.1.into())];
    for _ in 0..k {
        t.push(match r.n(9) {
            0 | 1 => name_tok(f, r.pick(&["a", "b", "c"])),
            2 | 3 => Tok::Other(r.pick(&["'x'", "\"y\"", "''"]).to_string()),
            4 => Tok::Other(f.2.to_string()),
            5 => Tok::Other(r.pick(&["(", ")"]).to_string()),
            6 => Tok::Other(r.pick(&["[", "]"]).to_string()),
            7 => Tok::Other(f.1.into()),
            _ => Tok::Other(r.pick(&["<a>", "a", "=", "|", "/", "::=", ";x\n", "<", "'"]).to_string()),
        });
    }
    layout(r, &t)
}
fn ext_prods(g: &mut Ext, n: usize) {
    g.truncate(n);
}

pub fn one(r: &mut R, fmt: &str, what: &str, ext: usize) -> Value {
    let fid = if fmt == "auto" { *r.pick(&["BNF", "ABNF"]) } else { fmt };
    let f = fmt_of(fid);
    loop {
        let mut g = abstract_grammar(r, &f, ext);
        let mut t = match what {
            "grammar" => toks(r, &f, &g),
            "production" => {
                g.truncate(1);
                toks(r, &f, &g)
            }
            "expression" => {
                g.truncate(1);
                g[0].1.truncate(1);
                toks(r, &f, &g)[2..].to_vec()
            }
            _ => {
                g.truncate(1);
                g[0].1.truncate(1);
                g[0].1[0].truncate(1);
                toks(r, &f, &g)[2..].to_vec()
            }
        };
        let mut text = match r.n(20) {
            0..=12 => layout(r, &t),
            13..=15 => {
                damage(r, &mut t, &f);
                layout(r, &t)
            }
            16 | 17 => {
                let b = layout(r, &t);
                noise(r, &f, &b)
            }
            18 => soup(r, &f),
            _ => match r.n(6) {
                0 => String::new(),
                1 => space(r, 2),
                2 => "; only a comment".into(),
                3 => layout(r, &t).trim_end().to_string() + r.pick(&["(", "[", "'", "<", f.1, "|", "/", ";"]),
                4 => {
                    // the other format's text
                    let o = if fid == "BNF" { ABNFF } else { BNFF };
                    let g2 = abstract_grammar(r, &o, ext);
                    let t2 = toks(r, &o, &g2);
                    layout(r, &t2)
                }
                _ => {
                    let k = r.r(1, 30);
                    let cs: Vec<char> = "<a> ::='x'|\"y\"()[];/=\n".chars().collect();
                    (0..k).map(|_| *r.pick(&cs)).collect()
                }
            },
        };
        if r.p(1) {
            text.insert_str(0, r.pick(&["\u{feff}", "\u{200b}", "%", "\\", "#", "\u{0}", "\u{85}", "//"]));
        }
        if text.chars().count() <= 420 {
            return case(&text, fmt, what);
        }
    }
}

pub fn make_plain(r: &mut R, k: u64, tier: &str) -> Value {
    match r.n(10) {
        0..=4 => one(r, "BNF", "grammar", 0),
        5..=6 => {
            let i = r.n(CUSTOM.len());
            one(r, CUSTOM[i].0, "grammar", 0)
        }
        7 => one(r, "BNF", "production", 0),
        8 => one(r, "BNF", "expression", 0),
        _ => one(r, "BNF", "term", 0),
    }
}
pub fn make_abnf(r: &mut R, k: u64, tier: &str) -> Value {
    let ext = *r.pick(&[0, 0, 15]);
    match r.n(3) {
        0 => one(r, "ABNF", "grammar", ext),
        1 => one(r, "auto", "grammar", ext),
        _ => {
            // the same abstract grammar in both notations
            let g = abstract_grammar(r, &ABNFF, ext);
            let t1 = toks(r, &ABNFF, &g);
            let fid = if r.p(70) { "ABNF" } else { "auto" };
            let text = layout(r, &t1);
            if g.iter().any(|p| ext_names(&p.1).iter().any(|n| n.contains('>')) || p.0.contains('>')) {
                return case(&text, fid, "grammar");
            }
            let t2 = toks(r, &BNFF, &g);
            let text2 = layout(r, &t2);
            let mut c = case(&text, fid, "grammar");
            c["bnf_text"] = json!(text2);
            c
        }
    }
}
fn ext_names(a: &[Vec<X>]) -> Vec<String> {
    a.iter()
        .flatten()
        .flat_map(|x| match x {
            X::N(s) => vec![s.clone()],
            X::T(_) => vec![],
            X::G(b) | X::O(b) => ext_names(b),
        })
        .collect()
}
pub fn make_ext(r: &mut R, k: u64, tier: &str) -> Value {
    match r.n(10) {
        0..=4 => one(r, "BNF", "grammar", 30),
        5..=7 => one(r, "ABNF", "grammar", 30),
        8 => one(r, "auto", "grammar", 30),
        _ => {
            let i = r.n(CUSTOM.len());
            let (id, f) = CUSTOM[i];
            let ext = if matches!(f.0, Some(('(', _)) | Some(('[', _))) { 0 } else { 30 };
            one(r, id, "grammar", ext)
        }
    }
}

fn res<T>(x: Result<T, bnf::Error>, f: impl Fn(&T) -> Value) -> Value {
    match x {
        Ok(v) => json!(["ok", f(&v)]),
        Err(e) => super::validate::err(&e),
    }
}
pub fn read(text: &str, fmt: &str, what: &str) -> Value {
    let gv = |g: &Grammar| gj(&gram_of(g));
    match (fmt, what) {
        ("auto", _) => res(text.parse::<Grammar>(), gv),
        ("BNF", "grammar") => res(Grammar::parse_from::<bnf::BNF>(text), gv),
        ("BNF", "production") => res(text.parse::<Production>(), |p| pj(&prod_of(p))),
        ("BNF", "expression") => res(text.parse::<Expression>(), |e| aj(&expr_of(e))),
        ("BNF", "term") => res(text.parse::<Term>(), |t| tj(&term_of(t))),
        ("ABNF", _) => res(Grammar::parse_from::<bnf::ABNF>(text), gv),
        _ => res(custom(fmt, text), gv),
    }
}
pub fn run(c: &Value) -> Value {
    let s = |k: &str| c[k].as_str().unwrap().to_string();
    let r = read(&s("text"), &s("fmt"), &s("what"));
    match c.get("bnf_text") {
        Some(b) => json!({"r": r, "r2": read(b.as_str().unwrap(), "BNF", "grammar")}),
        None => json!({"r": r}),
    }
}

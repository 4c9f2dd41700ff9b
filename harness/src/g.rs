//! The harness' own grammar values, their JSON form (the form the TLA+ trace
//! specifications read) and conversions from and to the crate's public types.
//! The counting routines here only *select* cases (termination and size of a
//! run); every verdict is the specification's.
use bnf::{Expression, Grammar, ParseTree, ParseTreeNode, Production, Term};
use crate::rng::R;
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum T {
    T(String),
    N(String),
}
pub fn t(s: &str) -> T {
    T::T(s.to_string())
}
pub fn n(s: &str) -> T {
    T::N(s.to_string())
}
pub type Alt = Vec<T>;
pub type Prod = (T, Vec<Alt>);
pub type Gram = Vec<Prod>;

pub fn tj(x: &T) -> Value {
    match x {
        T::T(s) => json!(["T", s]),
        T::N(s) => json!(["N", s]),
    }
}
pub fn aj(a: &Alt) -> Value {
    Value::Array(a.iter().map(tj).collect())
}
pub fn pj(p: &Prod) -> Value {
    json!([tj(&p.0), p.1.iter().map(aj).collect::<Vec<_>>()])
}
pub fn gj(g: &Gram) -> Value {
    Value::Array(g.iter().map(pj).collect())
}
pub fn tfrom(v: &Value) -> T {
    let s = v[1].as_str().unwrap().to_string();
    if v[0] == "T" { T::T(s) } else { T::N(s) }
}
pub fn afrom(v: &Value) -> Alt {
    v.as_array().unwrap().iter().map(tfrom).collect()
}
pub fn pfrom(v: &Value) -> Prod {
    (tfrom(&v[0]), v[1].as_array().unwrap().iter().map(afrom).collect())
}
pub fn gfrom(v: &Value) -> Gram {
    v.as_array().unwrap().iter().map(pfrom).collect()
}

pub fn tb(x: &T) -> Term {
    match x {
        T::T(s) => Term::Terminal(s.clone()),
        T::N(s) => Term::Nonterminal(s.clone()),
    }
}
pub fn ab(a: &Alt) -> Expression {
    Expression::from_parts(a.iter().map(tb).collect())
}
pub fn pb(p: &Prod) -> Production {
    Production::from_parts(tb(&p.0), p.1.iter().map(ab).collect())
}
pub fn gb(g: &Gram) -> Grammar {
    Grammar::from_parts(g.iter().map(pb).collect())
}
pub fn term_of(x: &Term) -> T {
    match x {
        Term::Terminal(s) => T::T(s.clone()),
        Term::Nonterminal(s) => T::N(s.clone()),
    }
}
pub fn expr_of(e: &Expression) -> Alt {
    e.terms_iter().map(term_of).collect()
}
pub fn prod_of(p: &Production) -> Prod {
    (term_of(&p.lhs), p.rhs_iter().map(expr_of).collect())
}
pub fn gram_of(g: &Grammar) -> Gram {
    g.productions_iter().map(prod_of).collect()
}
/// Trees nested too deeply for the JSON readers are written as ["F", nodes in depth-first order],
/// each name with the number of its children.
pub fn encode(v: Value) -> Value {
    fn depth(v: &Value) -> usize {
        v[2].as_array().map_or(0, |k| 1 + k.iter().map(depth).max().unwrap_or(0))
    }
    fn flat(v: &Value, out: &mut Vec<Value>) {
        match v[2].as_array() {
            None => out.push(v.clone()),
            Some(k) => {
                out.push(json!([v[0], v[1], k.len()]));
                k.iter().for_each(|x| flat(x, out));
            }
        }
    }
    if depth(&v) < 40 {
        return v;
    }
    let mut out = vec![];
    flat(&v, &mut out);
    json!(["F", out])
}
pub fn decode(v: &Value) -> Value {
    fn at(s: &[Value], i: &mut usize) -> Value {
        let x = &s[*i];
        *i += 1;
        match x[2].as_u64() {
            None => x.clone(),
            Some(k) => {
                let kids: Vec<Value> = (0..k).map(|_| at(s, i)).collect();
                json!([x[0], x[1], kids])
            }
        }
    }
    if v[0] == "F" { at(v[1].as_array().unwrap(), &mut 0) } else { v.clone() }
}
pub fn tree_json(x: &ParseTree) -> Value {
    encode(nested_json(x))
}
fn nested_json(x: &ParseTree) -> Value {
    let kids: Vec<Value> = x
        .rhs_iter()
        .map(|c| match c {
            ParseTreeNode::Terminal(s) => json!(["T", s]),
            ParseTreeNode::Nonterminal(p) => nested_json(p),
        })
        .collect();
    match x.lhs {
        Term::Nonterminal(s) => json!(["N", s, kids]),
        Term::Terminal(s) => json!(["X", s, kids]),
    }
}

// ------------------------------------------------------------ enlarging
/// A case may be executed in an enlarged form that has the same derivations as the case itself:
/// every character of terminals and input repeated `scale` times (block by block, so matches are
/// the same), and `dead` further alternatives per name that begin with a character the input
/// does not have.  Trees are translated back before they are recorded.
#[derive(Clone, Copy)]
pub struct Enlarge {
    pub scale: usize,
    pub dead: usize,
}
impl Enlarge {
    pub fn of(c: &Value) -> Self {
        Self { scale: c["scale"].as_u64().unwrap_or(1) as usize, dead: c["dead"].as_u64().unwrap_or(0) as usize }
    }
    pub fn text(&self, s: &str) -> String {
        if self.scale == 1 { s.to_string() } else { s.chars().map(|c| c.to_string().repeat(self.scale)).collect() }
    }
    pub fn term(&self, x: &T) -> T {
        match x {
            T::T(s) => T::T(self.text(s)),
            x => x.clone(),
        }
    }
    pub fn gram(&self, g: &Gram) -> Gram {
        let mut done = std::collections::BTreeSet::new();
        g.iter()
            .map(|(l, alts)| {
                let mut a: Vec<Alt> = alts.iter().map(|al| al.iter().map(|x| self.term(x)).collect()).collect();
                if let T::N(name) = l
                    && self.dead > 0
                    && done.insert(name.clone())
                {
                    for i in 0..self.dead {
                        let d = vec![T::T(format!("\u{1}{i}"))];
                        if i % 2 == 0 { a.push(d) } else { a.insert(0, d) }
                    }
                }
                (self.term(l), a)
            })
            .collect()
    }
    fn back_text(&self, s: &str) -> String {
        let cs: Vec<char> = s.chars().collect();
        if cs.len() % self.scale != 0 {
            return format!("\u{2}{s}");
        }
        let mut out = String::new();
        for b in cs.chunks(self.scale) {
            if b.iter().any(|c| *c != b[0]) {
                return format!("\u{2}{s}");
            }
            out.push(b[0]);
        }
        out
    }
    /// translate a nested tree back
    pub fn back(&self, v: Value) -> Value {
        if self.scale == 1 {
            return v;
        }
        match v {
            Value::Array(a) if a.first() == Some(&json!("T")) && a.len() == 2 => {
                json!(["T", self.back_text(a[1].as_str().unwrap())])
            }
            Value::Array(a) => {
                let kids: Vec<Value> = a[2].as_array().unwrap().iter().map(|x| self.back(x.clone())).collect();
                json!([a[0], a[1], kids])
            }
            v => v,
        }
    }
    pub fn tree(&self, x: &ParseTree) -> Value {
        encode(self.back(nested_json(x)))
    }
}

// ------------------------------------------------------------ selection only
pub type Tab<'a> = BTreeMap<&'a str, Vec<&'a Alt>>;
pub fn table(g: &Gram) -> Tab<'_> {
    let mut m: Tab = BTreeMap::new();
    for (l, alts) in g {
        if let T::N(s) = l {
            m.entry(s).or_default().extend(alts.iter());
        }
    }
    m
}
pub fn nullable<'a>(tab: &Tab<'a>) -> BTreeSet<&'a str> {
    let mut s = BTreeSet::new();
    loop {
        let before = s.len();
        for (a, alts) in tab {
            if alts.iter().any(|al| {
                al.iter().all(|x| match x {
                    T::T(t) => t.is_empty(),
                    T::N(b) => s.contains(b.as_str()),
                })
            }) {
                s.insert(*a);
            }
        }
        if s.len() == before {
            return s;
        }
    }
}
pub fn productive(g: &Gram) -> BTreeSet<String> {
    let tab = table(g);
    let mut s: BTreeSet<String> = BTreeSet::new();
    loop {
        let before = s.len();
        for (a, alts) in &tab {
            if alts.iter().any(|al| {
                al.iter().all(|x| match x {
                    T::T(_) => true,
                    T::N(b) => s.contains(b),
                })
            }) {
                s.insert(a.to_string());
            }
        }
        if s.len() == before {
            return s;
        }
    }
}
pub fn cyclic(g: &Gram) -> bool {
    let tab = table(g);
    let nu = nullable(&tab);
    let mut e: BTreeMap<&str, BTreeSet<&str>> = BTreeMap::new();
    for (a, alts) in &tab {
        for al in alts {
            for (k, x) in al.iter().enumerate() {
                if let T::N(b) = x {
                    if al.iter().enumerate().all(|(m, y)| {
                        m == k
                            || match y {
                                T::T(t) => t.is_empty(),
                                T::N(c) => nu.contains(c.as_str()),
                            }
                    }) {
                        e.entry(a).or_default().insert(b);
                    }
                }
            }
        }
    }
    for a in tab.keys() {
        let mut seen = BTreeSet::new();
        let mut st: Vec<&str> = e.get(a).map(|s| s.iter().copied().collect()).unwrap_or_default();
        while let Some(x) = st.pop() {
            if x == *a {
                return true;
            }
            if seen.insert(x) {
                if let Some(s) = e.get(x) {
                    st.extend(s.iter().copied());
                }
            }
        }
    }
    false
}
const CAPN: u64 = 1_000_000_000;
/// (number of trees of start over the whole input, total work) of a non-cyclic grammar,
/// where work counts every partial match over every span, saturating.
pub fn count(g: &Gram, start: &str, w: &str) -> (u64, u64) {
    let tab = table(g);
    let wb = w.as_bytes();
    let len = wb.len();
    let idx: BTreeMap<&str, usize> = tab.keys().enumerate().map(|(i, k)| (*k, i)).collect();
    let alts: Vec<&Vec<&Alt>> = tab.values().collect();
    // rows[i][A][j]
    let mut rows: Vec<Vec<Vec<u64>>> = vec![vec![]; len + 1];
    let mut work = 0u64;
    for i in (0..=len).rev() {
        let mut cur = vec![vec![0u64; len + 1]; alts.len()];
        let rmax = (alts.len() + 2) * (len + 2);
        for round in 0..rmax {
            let mut nxt = vec![vec![0u64; len + 1]; alts.len()];
            let mut w2 = 0u64;
            for (a, als) in alts.iter().enumerate() {
                for al in als.iter() {
                    let mut v = vec![0u64; len + 1];
                    v[i] = 1;
                    for x in al.iter() {
                        let mut u = vec![0u64; len + 1];
                        match x {
                            T::T(s) => {
                                let sb = s.as_bytes();
                                for p in i..=len {
                                    if v[p] > 0 && p + sb.len() <= len && &wb[p..p + sb.len()] == sb {
                                        u[p + sb.len()] = v[p];
                                    }
                                }
                            }
                            T::N(b) => {
                                if let Some(&bi) = idx.get(b.as_str()) {
                                    for p in i..=len {
                                        if v[p] > 0 {
                                            let row = if p == i { &cur[bi] } else { &rows[p][bi] };
                                            for q in p..=len {
                                                if row[q] > 0 {
                                                    u[q] = (u[q] + v[p].saturating_mul(row[q])).min(CAPN);
                                                }
                                            }
                                        }
                                    }
                                }
                            }
                        }
                        v = u;
                        w2 = w2.saturating_add(v.iter().fold(0u64, |s, x| s.saturating_add(*x)));
                    }
                    for q in i..=len {
                        nxt[a][q] = (nxt[a][q] + v[q]).min(CAPN);
                    }
                }
            }
            if nxt == cur {
                work = work.saturating_add(w2);
                break;
            }
            cur = nxt;
            if round == rmax - 1 {
                work = work.saturating_add(w2);
            }
        }
        rows[i] = cur;
    }
    let c = idx.get(start).map(|&a| rows[0][a][len]).unwrap_or(0);
    (c, work)
}

/// Random sentence of `a` by random expansion; None when the budget is exceeded.
pub fn sentence(r: &mut R, g: &Gram, a: &str, budget: usize) -> Option<String> {
    let tab = table(g);
    let mut left = budget;
    let mut out = String::new();
    let mut stack: Vec<T> = vec![n(a)];
    // minimal heights to steer towards termination
    let mut h: BTreeMap<&str, usize> = BTreeMap::new();
    for round in 1..=tab.len() + 1 {
        for (x, alts) in &tab {
            if !h.contains_key(x)
                && alts.iter().any(|al| {
                    al.iter().all(|y| match y {
                        T::T(_) => true,
                        T::N(b) => h.get(b.as_str()).is_some_and(|v| *v < round),
                    })
                })
            {
                h.insert(x, round);
            }
        }
    }
    let cost = |al: &Alt| -> usize {
        al.iter()
            .map(|y| match y {
                T::T(_) => 0,
                T::N(b) => h.get(b.as_str()).copied().unwrap_or(usize::MAX / 4),
            })
            .max()
            .unwrap_or(0)
    };
    while let Some(x) = stack.pop() {
        match x {
            T::T(s) => out.push_str(&s),
            T::N(b) => {
                let alts = tab.get(b.as_str())?;
                if alts.is_empty() {
                    return None;
                }
                let al = if left == 0 {
                    alts.iter().min_by_key(|al| cost(al))?
                } else {
                    left -= 1;
                    r.pick(alts)
                };
                if cost(al) >= usize::MAX / 4 {
                    return None;
                }
                for y in al.iter().rev() {
                    stack.push(y.clone());
                }
                if stack.len() > 5000 || out.len() > 5000 {
                    return None;
                }
            }
        }
    }
    Some(out)
}
pub fn alphabet(g: &Gram) -> Vec<char> {
    let mut s = BTreeSet::new();
    for (_, alts) in g {
        for al in alts {
            for x in al {
                if let T::T(t) = x {
                    s.extend(t.chars());
                }
            }
        }
    }
    s.into_iter().collect()
}

/// For any grammar: None if w is not in L(start); Some(infinitely many derivations?) otherwise.
pub fn infinite(g: &Gram, start: &str, w: &str) -> Option<bool> {
    let tab = table(g);
    let len = w.len();
    let idx: BTreeMap<&str, usize> = tab.keys().enumerate().map(|(i, k)| (*k, i)).collect();
    let alts: Vec<&Vec<&Alt>> = tab.values().collect();
    let na = alts.len();
    // ends[a][i][j]
    let mut d = vec![vec![vec![false; len + 1]; len + 1]; na];
    let seqs = |d: &Vec<Vec<Vec<bool>>>, al: &[T], i: usize| -> BTreeSet<usize> {
        let mut p: BTreeSet<usize> = BTreeSet::from([i]);
        for x in al {
            let mut q = BTreeSet::new();
            for &s in &p {
                match x {
                    T::T(t) => {
                        if w.as_bytes()[s..].starts_with(t.as_bytes()) {
                            q.insert(s + t.len());
                        }
                    }
                    T::N(b) => {
                        if let Some(&bi) = idx.get(b.as_str()) {
                            for j in s..=len {
                                if d[bi][s][j] {
                                    q.insert(j);
                                }
                            }
                        }
                    }
                }
            }
            p = q;
        }
        p
    };
    loop {
        let mut ch = false;
        for a in 0..na {
            for al in alts[a].iter() {
                for i in 0..=len {
                    for j in seqs(&d, al, i) {
                        if !d[a][i][j] {
                            d[a][i][j] = true;
                            ch = true;
                        }
                    }
                }
            }
        }
        if !ch {
            break;
        }
    }
    let s = *idx.get(start)?;
    if !d[s][0][len] {
        return None;
    }
    // useful spans reachable from (start,0,len) and edges between them
    let mut edges: BTreeMap<(usize, usize, usize), BTreeSet<(usize, usize, usize)>> = BTreeMap::new();
    let mut todo = vec![(s, 0usize, len)];
    while let Some(k @ (a, i, j)) = todo.pop() {
        if edges.contains_key(&k) {
            continue;
        }
        let mut out = BTreeSet::new();
        for al in alts[a].iter() {
            for (m, x) in al.iter().enumerate() {
                if let T::N(b) = x {
                    let Some(&bi) = idx.get(b.as_str()) else { continue };
                    for p in seqs(&d, &al[..m], i) {
                        for q in p..=j {
                            if d[bi][p][q] && seqs(&d, &al[m + 1..], q).contains(&j) {
                                out.insert((bi, p, q));
                            }
                        }
                    }
                }
            }
        }
        todo.extend(out.iter().copied());
        edges.insert(k, out);
    }
    // cycle?
    for k in edges.keys() {
        let mut seen = BTreeSet::new();
        let mut st: Vec<_> = edges[k].iter().copied().collect();
        while let Some(x) = st.pop() {
            if x == *k {
                return Some(true);
            }
            if seen.insert(x) {
                st.extend(edges[&x].iter().copied());
            }
        }
    }
    Some(false)
}

/// Number of agenda steps a chart parser with a queue needs for `k` trees of w (or to end);
/// None beyond `cap`.  Bounds the cost of a case on cyclic grammars.
pub fn agenda_steps(g: &Gram, start: &str, w: &str, k: usize, cap: usize) -> Option<usize> {
    use std::collections::{HashMap, HashSet, VecDeque};
    let rules: Vec<(&T, &Alt)> = g.iter().flat_map(|(l, a)| a.iter().map(move |x| (l, x))).collect();
    // item: (rule, from, to, matched); identity by (parent, child) edges
    let mut items: Vec<(usize, usize, usize, usize)> = vec![];
    let mut roots: HashMap<(usize, usize), usize> = HashMap::new();
    let mut edges: HashMap<(usize, usize), usize> = HashMap::new(); // child usize::MAX for a terminal
    let mut done: HashSet<usize> = HashSet::new();
    let mut q: VecDeque<usize> = VecDeque::new();
    let mut inc: HashMap<(&T, usize), Vec<usize>> = HashMap::new();
    let mut com: HashMap<(&T, usize), Vec<usize>> = HashMap::new();
    let st = T::N(start.to_string());
    for (r, (l, _)) in rules.iter().enumerate() {
        if **l == st {
            items.push((r, 0, 0, 0));
            roots.insert((r, 0), items.len() - 1);
            done.insert(items.len() - 1);
            q.push_back(items.len() - 1);
        }
    }
    let mut steps = 0;
    let mut out = 0;
    while let Some(id) = q.pop_front() {
        steps += 1;
        if steps > cap || items.len() > cap {
            return None;
        }
        let (r, i, j, m) = items[id];
        let alt = rules[r].1;
        let mut adv: Vec<(usize, usize, usize)> = vec![]; // parent, child, to
        if m == alt.len() {
            com.entry((rules[r].0, i)).or_default().push(id);
            if let Some(v) = inc.get(&(rules[r].0, i)) {
                adv.extend(v.iter().map(|p| (*p, id, j)));
            }
            if *rules[r].0 == st && i == 0 && j == w.len() {
                out += 1;
                if out >= k {
                    return Some(steps);
                }
            }
        } else {
            match &alt[m] {
                x @ T::N(_) => {
                    inc.entry((x, j)).or_default().push(id);
                    for (r2, (l, _)) in rules.iter().enumerate() {
                        if *l == x && !roots.contains_key(&(r2, j)) {
                            items.push((r2, j, j, 0));
                            roots.insert((r2, j), items.len() - 1);
                            q.push_back(items.len() - 1);
                        }
                    }
                    if let Some(v) = com.get(&(x, j)) {
                        adv.extend(v.iter().map(|c| (id, *c, items[*c].2)));
                    }
                }
                T::T(s) => {
                    if w.as_bytes()[j..].starts_with(s.as_bytes()) {
                        adv.push((id, usize::MAX, j + s.len()));
                    }
                }
            }
        }
        for (p, c, to) in adv {
            if !edges.contains_key(&(p, c)) {
                let (r2, i2, _, m2) = items[p];
                items.push((r2, i2, to, m2 + 1));
                edges.insert((p, c), items.len() - 1);
                q.push_back(items.len() - 1);
            }
        }
    }
    Some(steps)
}

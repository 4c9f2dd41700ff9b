"""Writes, compiles and runs a crate of macro invocations (C20).

A case is {what, toks, src, text}: the macro, its tokens in the form of spec/Macro.tla, the
Rust source of the invocation, and the text that says the same ("" with hastext = 0 if no
text can say it)."""
import json, os, random, re, subprocess

NAMES = ["a", "b", "c", "dna", "base_2", "Zed", "if", "type", "self_", "loop", "x1", "_q", "été", "grammar", "term", "exprs", "productions", "vec"]
LITS = ["x", "y", "", "abc", " ", "a b", "\t", "\n", "'", '"', "::=", "|", ";", "<a>", "(", "]", "é", "日本", "\\", "#", "{}", "$t", "\u0000", "=", "'\"", "0"]

def rust_str(r, s):
    k = r.randrange(4)
    if k == 0 and "\r" not in s and "\u0000" not in s:
        h = "#" * (1 + max([len(m) for m in re.findall('"(#*)', s)] + [0]))
        return 'r%s"%s"%s' % (h, s, h)
    if k == 1:
        return '"' + "".join("\\u{%x}" % ord(c) for c in s) + '"'
    return '"' + "".join({"\\": "\\\\", '"': '\\"', "\n": "\\n", "\t": "\\t", "\u0000": "\\0"}.get(c, c) for c in s) + '"'

def literal(r, s):
    """some Rust literal whose to_string() is s"""
    if len(s) == 1 and r.randrange(4) == 0 and s not in "'\\\n\t\u0000":
        return "'%s'" % s
    if s.isdigit() and r.randrange(2) == 0:
        return s + r.choice(["", "u8", "i64"])
    return rust_str(r, s)

def tok_src(r, x):
    return {"N": lambda: "<%s>" % x[1], "T": lambda: literal(r, x[1]), "=": lambda: "::=", "|": lambda: "|", ";": lambda: ";"}[x[0]]()

def tok_text(x):
    """None if no text can say it"""
    if x[0] == "N":
        return "<%s>" % x[1]
    if x[0] == "T":
        if "'" in x[1] and '"' in x[1]:
            return None
        q = "'" if '"' in x[1] else '"'
        return q + x[1] + q
    return {"=": "::=", "|": "|", ";": "\n"}[x[0]]

def alternatives_ok(toks):
    """no alternative is empty (text has no empty alternatives)"""
    prev = "|"
    for x in toks + [[";"]]:
        if x[0] in "|;" and prev in "|;=":
            return False
        prev = x[0]
    return True

def case(r, what, toks, src=None):
    toks = [list(x) for x in toks]
    parts = [tok_text(x) for x in toks]
    body = toks
    if what == "grammar" and toks and toks[-1][0] == ";":
        body = toks[:-1]
    ok = bool(toks) and None not in parts and alternatives_ok(body)
    return {"what": what, "toks": toks, "src": src or " ".join(tok_src(r, x) for x in toks),
            "text": " ".join(parts) if ok else "", "hastext": 1 if ok else 0}

def random_case(r, big):
    def term():
        return ["T", r.choice(LITS)] if r.random() < .5 else ["N", r.choice(NAMES)]
    def alt(lo):
        return [term() for _ in range(r.choice([lo, 1, 1, 2, 2, 3, 5]))]
    def prod(n, lo):
        out = [["N", r.choice(NAMES)], ["="]]
        for i in range(n):
            if i:
                out.append(["|"])
            out += alt(lo)
        return out
    what = r.choice(["grammar"] * 5 + ["production"] * 3 + ["expression"] * 2 + ["term"])
    lo = 0 if r.random() < .15 else 1
    if what == "term":
        if r.random() < .3:
            n = r.choice(NAMES)
            return case(r, what, [["T", n]], n)
        return case(r, what, [term()])
    if what == "expression":
        return case(r, what, alt(1) + (alt(1) * 6 if big else []))
    if what == "production":
        return case(r, what, prod(r.choice([1, 2, 3, 4, 6, 12 if big else 7]), lo))
    if r.random() < .02:
        return case(r, what, [])
    toks = []
    for i in range(r.choice([1, 2, 3, 3, 4, 5, 14 if big else 8])):
        if i:
            toks.append([";"])
        toks += prod(r.choice([1, 1, 2, 3, 4]), lo)
    if r.random() < .3:
        toks.append([";"])
    return case(r, what, toks)

HEAD = """#![recursion_limit = "4096"]
#![allow(warnings)]
use bnf::{Expression, Grammar, Production, Term};
use serde_json::{Value, json};
fn t(x: &Term) -> Value { match x { Term::Terminal(s) => json!(["T", s]), Term::Nonterminal(s) => json!(["N", s]) } }
fn e(x: &Expression) -> Value { Value::Array(x.terms_iter().map(t).collect()) }
fn p(x: &Production) -> Value { json!([t(&x.lhs), x.rhs_iter().map(e).collect::<Vec<_>>()]) }
fn g(x: &Grammar) -> Value { Value::Array(x.productions_iter().map(p).collect()) }
// a user's macro that passes its tokens on
macro_rules! fwd { ($m:ident $($x:tt)*) => { bnf::$m!($($x)*) }; }
fn out(k: usize, built: Value, read: Option<Value>) {
    println!("{}", json!({"k": k, "built": built, "read": read.into_iter().collect::<Vec<_>>()}));
}
"""
TYPES = {"grammar": ("Grammar", "g"), "production": ("Production", "p"), "expression": ("Expression", "e"), "term": ("Term", "t")}

def source(cases):
    out = [HEAD]
    for k, c in enumerate(cases):
        ty, f = TYPES[c["what"]]
        call = ("fwd!(%s %s)" if k % 3 == 2 else "bnf::%s!(%s)") % (c["what"], c["src"])
        read = "None"
        if c["hastext"]:
            read = 'match %s.parse::<%s>() { Ok(v) => Some(%s(&v)), Err(x) => Some(json!(["unreadable", x.to_string()])) }' % (
                '"' + "".join("\\u{%x}" % ord(ch) for ch in c["text"]) + '"', ty, f)
        out.append("fn c%d() { let v: %s = %s; let r: Option<Value> = %s; out(%d, %s(&v), r); }\n" % (k, ty, call, read, k, f))
    out.append("fn main() {\n" + "".join("    c%d();\n" % k for k in range(len(cases))) + "}\n")
    return "".join(out)

def compile_and_run(V, cases, timeout=700):
    """-> (lines, None) or (None, compiler output)"""
    d = os.path.join(V, "build", "macrocrate")
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    open(os.path.join(d, "Cargo.toml"), "w").write(
        open(os.path.join(V, "harness", "Cargo.toml")).read().replace('"bnf-harness"', '"bnf-macros"').replace("opt-level = 1", "opt-level = 0"))
    open(os.path.join(d, "Cargo.lock"), "w").write(open(os.path.join(V, "harness", "Cargo.lock")).read().replace('"bnf-harness"', '"bnf-macros"'))
    open(os.path.join(d, "src", "main.rs"), "w", encoding="utf-8").write(source(cases))
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(V, "build", "macrotarget"))
    p = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode != 0:
        return None, p.stdout
    p = subprocess.run([os.path.join(V, "build", "macrotarget", "debug", "bnf-macros")], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
    seen = {}
    for l in p.stdout.split("\n"):
        if l:
            x = json.loads(l)
            seen[x["k"]] = x
    lines = []
    for k, c in enumerate(cases):
        if k in seen:
            lines.append(dict(c, outcome="ok", built=seen[k]["built"], read=seen[k]["read"]))
        else:
            lines.append(dict(c, outcome="crash", detail=p.stderr[-500:], built=[], read=[]))
            break
    return lines, None

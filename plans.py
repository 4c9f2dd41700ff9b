"""What each check runs.  See DESIGN.md for the reasons and the bounds."""
from check import mc, dump, judge, run_family, exec_cases, ToolError

# ------------------------------------------------------------------ parsing
def earley_cfg(spec="Spec", any_order=False, maxout=1000, steps=0, sa=2, aa=1, inputs='{"", "x", "xx", "xxx", "y"}',
               invs="ItemsSound OutSound OutDistinct OutComplete OutOnlyIfDerives"):
    return ("SPECIFICATION %s\nCONSTANTS\n AnyOrder = %s\n MaxOut = %d\n MaxSteps = %d\n SAlts = %d\n AAlts = %d\n Inputs = %s\n%s"
            "CHECK_DEADLOCK FALSE\n" % (spec, "TRUE" if any_order else "FALSE", maxout, steps, sa, aa, inputs,
                                        ("INVARIANTS " + invs + "\n") if invs else ""))

def tp(mode):
    return 'SPECIFICATION Spec\nCONSTANT Mode = "%s"\nCHECK_DEADLOCK FALSE\n' % mode

def parse_common(ctx, mode):
    mc(ctx, "MCEarley", earley_cfg(sa=2, aa=ctx.q(1, 2), inputs=ctx.q('{"", "x", "xx", "y"}', '{"", "x", "xx", "xxx", "xy"}')),
       "agenda as a queue, all small grammars")
    mc(ctx, "MCEarley", earley_cfg(any_order=True, sa=2, aa=1, inputs=ctx.q('{"x"}', '{"", "x", "xx"}')),
       "agenda in every order")
    cases = dump(ctx, "DumpEarley", earley_cfg("DumpSpec", sa=2, aa=ctx.q(1, 2), inputs='{"", "x", "xx", "xxx"}', invs=""),
                 "all small grammars and inputs")
    judge(ctx, "TraceParse", tp(mode), exec_cases(ctx, "parse", cases), "replayed small universe", "parse")
    judge(ctx, "TraceParse", tp(mode), run_family(ctx, "parse", ctx.q(6000, 60000)), "random grammars and inputs", "parse")
    judge(ctx, "TraceParse", tp(mode), run_family(ctx, "parse_big", ctx.q(240, 2400)), "large grammars and inputs", "parse_big")
    judge(ctx, "TraceParse", tp(mode), run_family(ctx, "parse_far", ctx.q(1800, 18000)), "executed enlarged", "parse_far")

def c01(ctx):
    parse_common(ctx, "sound")
    judge(ctx, "TraceParse", tp("sound"), run_family(ctx, "cyclic", ctx.q(1500, 15000)), "cyclic grammars", "cyclic")
def c02(ctx):
    parse_common(ctx, "complete")
    judge(ctx, "TraceLong", tp("complete"), run_family(ctx, "parse_long", ctx.q(120, 1200)), "thousands of trees", "parse_long", chunk=200)
def cyc_cfg(spec, aalts, inputs, invs, maxout, steps=300):
    return ("SPECIFICATION %s\nCONSTANTS\n AnyOrder = FALSE\n MaxOut = %d\n MaxSteps = %d\n AAlts = %d\n Inputs = %s\n%sCHECK_DEADLOCK FALSE\n"
            % (spec, maxout, steps, aalts, inputs, ("INVARIANTS " + invs + "\n") if invs else ""))
def c03(ctx):
    invs = "OutSound OutDistinct Streams Smallest"
    mc(ctx, "MCCyclic", cyc_cfg("Spec", 1, '{"", "x", "xx"}', invs, 14), "all small infinitely ambiguous parses")
    if ctx.tier == "thorough":
        mc(ctx, "MCCyclic", cyc_cfg("Spec", 2, '{"", "x"}', "OutSound OutDistinct Smallest", 4, 200), "larger universe, safety only")
    cases = dump(ctx, "MCCyclic", cyc_cfg("DumpSpec", 1, '{"", "x", "xx"}', "", 14), "all small infinitely ambiguous parses")
    judge(ctx, "TraceParse", tp("stream"), exec_cases(ctx, "cyclic", cases), "replayed small universe", "cyclic")
    judge(ctx, "TraceParse", tp("stream"), run_family(ctx, "cyclic", ctx.q(6000, 60000)), "cyclic grammars", "cyclic")
    judge(ctx, "TraceParse", tp("stream"), run_family(ctx, "cyclic_far", ctx.q(1500, 15000)), "executed enlarged", "cyclic_far")
    judge(ctx, "TraceLong", tp("stream"), run_family(ctx, "cyclic_long", ctx.q(90, 900)), "thousands of trees", "cyclic_long", chunk=200)

def c04(ctx):
    n = ctx.q(5, 6)
    mc(ctx, "MCSession", "SPECIFICATION Spec\nCONSTANT MaxOps = %d\nINVARIANT Independent\nCHECK_DEADLOCK FALSE\n" % ctx.q(8, 12),
       "all interleavings of two iterators")
    cases = dump(ctx, "MCSession", "SPECIFICATION DumpSpec\nCONSTANT MaxOps = %d\nCHECK_DEADLOCK FALSE\n" % n, "all sessions of %d operations" % n)
    plain = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
    judge(ctx, "TraceSession", plain, exec_cases(ctx, "session", cases), "replayed sessions", "session")
    judge(ctx, "TraceSession", plain, run_family(ctx, "session", ctx.q(3000, 30000)), "random sessions", "session")
    judge(ctx, "TraceSession", plain, run_family(ctx, "session_big", ctx.q(100, 1000)), "long inputs and histories", "session_big")

def c05(ctx):
    cfg = "CONSTANT MaxProds = %d\nCHECK_DEADLOCK FALSE\n" % ctx.q(2, 3)
    mc(ctx, "MCValidate", "SPECIFICATION Spec\nINVARIANTS VerdictRight ScanRight\n" + cfg, "all small grammars")
    cases = dump(ctx, "MCValidate", "SPECIFICATION DumpSpec\n" + cfg, "all small grammars")
    tv = "SPECIFICATION TSpec\nCHECK_DEADLOCK FALSE\n"
    judge(ctx, "TraceValidate", tv, exec_cases(ctx, "validate", cases), "replayed small universe", "validate")
    judge(ctx, "TraceValidate", tv, run_family(ctx, "validate", ctx.q(12000, 120000)), "random grammar values", "validate")
    judge(ctx, "TraceValidate", tv, run_family(ctx, "validate_big", ctx.q(300, 3000)), "large grammars", "validate_big")
    judge(ctx, "TraceValidate", tv, run_family(ctx, "validate_far", ctx.q(800, 8000)), "padded", "validate_far")

# ------------------------------------------------------------------ text
PLAIN = '{"n", "m", "t", "=", "|"}'
BRACK = '{"t", "n", "(", ")", "[", "]", "|"}'
ALLTOK = '{"n", "m", "t", "=", "|", "(", ")", "[", "]"}'
TT = "SPECIFICATION TSpec\nCHECK_DEADLOCK FALSE\n"
def reader_cfg(spec, tokens, n, fmt, what, invs=""):
    return ('SPECIFICATION %s\nCONSTANTS\n Tokens = %s\n MaxLen = %d\n FmtId = "%s"\n What = "%s"\n%sCHECK_DEADLOCK FALSE\n'
            % (spec, tokens, n, fmt, what, ("INVARIANTS " + invs + "\n") if invs else ""))
def reader_replay(ctx, fam, combos):
    for tokens, n, fmt, what in combos:
        cases = dump(ctx, "MCReader", reader_cfg("DumpSpec", tokens, n, fmt, what), "%s %s, %d tokens" % (fmt, what, n))
        judge(ctx, "TraceText", TT, exec_cases(ctx, fam, cases), "replayed token sequences %s %s" % (fmt, what), fam)

def c06(ctx):
    mc(ctx, "MCReader", reader_cfg("Spec", PLAIN, ctx.q(5, 6), "BNF", "grammar", "AcceptRight ValueRight"), "BNF reader against the syntax")
    mc(ctx, "MCReader", reader_cfg("Spec", PLAIN, 4, "BNF", "expression", "AcceptRight ValueRight"), "expression reader against the syntax")
    reader_replay(ctx, "text_plain", [(PLAIN, ctx.q(5, 6), "BNF", "grammar"), (PLAIN, ctx.q(4, 6), "F9", "grammar"),
                                      (PLAIN, ctx.q(4, 6), "BNF", "production"), (PLAIN, ctx.q(4, 5), "BNF", "expression"),
                                      (PLAIN, 3, "BNF", "term")])
    judge(ctx, "TraceText", TT, run_family(ctx, "text_plain", ctx.q(10000, 100000)), "random texts", "text_plain")
    judge(ctx, "TraceText", TT, run_family(ctx, "text_plain_big", ctx.q(250, 2500)), "long texts", "text_plain_big")
    judge(ctx, "TraceText", TT, run_family(ctx, "text_plain_far", ctx.q(1200, 12000)), "repeated", "text_plain_far")
def c07(ctx):
    mc(ctx, "MCReader", reader_cfg("Spec", PLAIN, ctx.q(5, 6), "ABNF", "grammar", "AcceptRight ValueRight"), "ABNF reader against the syntax")
    reader_replay(ctx, "text_abnf", [(PLAIN, ctx.q(5, 6), "ABNF", "grammar"), (PLAIN, ctx.q(4, 6), "F4", "grammar")])
    judge(ctx, "TraceText", TT, run_family(ctx, "text_abnf", ctx.q(9000, 90000)), "random texts", "text_abnf")
    judge(ctx, "TraceText", TT, run_family(ctx, "text_abnf_big", ctx.q(250, 2500)), "long texts", "text_abnf_big")
    judge(ctx, "TraceText", TT, run_family(ctx, "text_abnf_far", ctx.q(1200, 12000)), "repeated", "text_abnf_far")
def c08(ctx):
    mc(ctx, "MCReader", reader_cfg("Spec", ALLTOK, ctx.q(4, 5), "BNF", "grammar", "AcceptRight ValueRight LowerRight"), "groups: syntax, language kept")
    mc(ctx, "MCReader", reader_cfg("Spec", BRACK, ctx.q(5, 6), "ABNF", "grammar", "AcceptRight ValueRight LowerRight"), "groups: syntax, language kept")
    reader_replay(ctx, "text_ext", [(BRACK, ctx.q(5, 6), "BNF", "grammar"), (BRACK, ctx.q(4, 6), "ABNF", "grammar"), (ALLTOK, ctx.q(4, 5), "F9", "grammar")])
    judge(ctx, "TraceText", TT, run_family(ctx, "text_ext", ctx.q(8000, 80000)), "random texts", "text_ext")
    judge(ctx, "TraceText", TT, run_family(ctx, "text_ext_big", ctx.q(250, 2500)), "long texts", "text_ext_big")
    judge(ctx, "TraceText", TT, run_family(ctx, "text_ext_far", ctx.q(1200, 12000)), "repeated", "text_ext_far")

def c09(ctx):
    cfg = "CONSTANT Size = %d\nCHECK_DEADLOCK FALSE\n" % ctx.q(1, 2)
    mc(ctx, "MCRound", "SPECIFICATION Spec\nINVARIANTS Identity InDomain\n" + cfg, "reading after formatting is the identity")
    cases = dump(ctx, "MCRound", "SPECIFICATION DumpSpec\n" + cfg, "all small awkward grammars")
    judge(ctx, "TraceRound", TT, exec_cases(ctx, "round", cases), "replayed small universe", "round")
    judge(ctx, "TraceRound", TT, run_family(ctx, "round", ctx.q(10000, 100000)), "random values", "round")
    judge(ctx, "TraceRound", TT, run_family(ctx, "round_big", ctx.q(250, 2500)), "large values", "round_big")
    judge(ctx, "TraceRound", TT, run_family(ctx, "round_far", ctx.q(1200, 12000)), "repeated", "round_far")

# ------------------------------------------------------------------ generation
GEN_INVS = "INVARIANTS InLanguage AcceptedDerivable DepthIsNesting RefusedRight NotStuck StartAccepted\n"
def gen_cfg(spec, choices, rejects, full, invs=""):
    return ("SPECIFICATION %s\nCONSTANTS\n MaxChoices = %d\n MaxRejects = %d\n Full = %s\n%sCHECK_DEADLOCK FALSE\n"
            % (spec, choices, rejects, "TRUE" if full else "FALSE", invs))
def tg(mode):
    return 'SPECIFICATION Spec\nCONSTANT Mode = "%s"\nCHECK_DEADLOCK FALSE\n' % mode
def gen_common(ctx, mode, fam, n, rejects):
    mc(ctx, "MCGenerate", gen_cfg("Spec", ctx.q(4, 5), rejects, False, GEN_INVS), "all choices and verdicts on small grammars")
    cases = dump(ctx, "MCGenerate", gen_cfg("DumpSpec", 0, 0, ctx.tier == "thorough"), "scripted choices and verdicts")
    judge(ctx, "TraceGenerate", tg(mode), exec_cases(ctx, fam, cases), "replayed scripts", fam)
    judge(ctx, "TraceGenerate", tg(mode), run_family(ctx, fam, n), "random grammars and strategies", fam)
    judge(ctx, "TraceGenerate", tg(mode), run_family(ctx, fam + "_big", ctx.q(250, 2500)), "large grammars, long histories", fam + "_big")
    judge(ctx, "TraceGenerate", tg(mode), run_family(ctx, fam + "_far", ctx.q(2000, 20000)), "stretched", fam + "_far")
def c10(ctx):
    gen_common(ctx, "language", "gen10", ctx.q(10000, 100000), 0)
def c11(ctx):
    gen_common(ctx, "refuse", "gen11", ctx.q(15000, 150000), 0)
def c12(ctx):
    gen_common(ctx, "callback", "gen12", ctx.q(10000, 100000), 2)
    judge(ctx, "TraceGenerate", tg("callback"), run_family(ctx, "gen12_long", ctx.q(400, 4000)), "tens of thousands of rejections", "gen12_long")

def c13(ctx):
    import json, os
    mc(ctx, "MCRepro", "SPECIFICATION Spec\nCONSTANTS\n MaxOps = %d\n Shared = FALSE\nINVARIANT Reproducible\nCHECK_DEADLOCK FALSE\n" % ctx.q(7, 9),
       "all interleavings of two instances")
    hists = dump(ctx, "MCRepro", "SPECIFICATION DumpSpec\nCONSTANTS\n MaxOps = %d\n Shared = FALSE\nCHECK_DEADLOCK FALSE\n" % ctx.q(6, 7),
                 "all short histories")
    gram = [[["N", "s"], [[["N", "d"], ["N", "s"]], [["N", "d"]], [["T", "!"]]]], [["N", "d"], [[["T", str(i)]] for i in range(7)]]]
    pairs = [("rng", "rng"), ("walk", "walk"), ("cover", "cover"), ("depth", "walk"), ("weight", "rngcb"), ("rngrej", "cover"), ("rng", "walk")]
    cases = ctx.path("repro.cases.ndjson")
    with open(cases, "w") as f:
        for n, line in enumerate(open(hists)):
            a, b = pairs[n % len(pairs)]
            key = lambda kind, seed: {"kind": kind, "seed": seed, "max": 3, "wr": 1, "wn": 2}
            f.write(json.dumps({"g": gram, "keys": [key(a, 1), key(b, n % 2)], "base": 1000 + n % 50, "ops": json.loads(line)["hist"],
                                "threads": 1, "plain": True, "prev": []}) + "\n")
    tr = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
    def twice(first, label, fam="repro"):
        # a second process repeats every history; its events follow those of the first
        again = ctx.path("again.ndjson")
        ok = True
        with open(again, "w", encoding="utf-8") as f:
            for line in open(first, encoding="utf-8"):
                d = json.loads(line)
                if d["outcome"] != "ok":
                    ok = False
                d["prev"] = d.pop("events", [])
                d["spread"] = []
                d.pop("spreads", None)
                f.write(json.dumps(d, ensure_ascii=False) + "\n")
        judge(ctx, "TraceRepro", tr, first, label, fam)
        if ok:
            judge(ctx, "TraceRepro", tr, exec_cases(ctx, fam, again), label + ", second process", fam)
    twice(exec_cases(ctx, "repro", cases), "replayed histories")
    twice(run_family(ctx, "repro", ctx.q(6000, 60000)), "random histories")
    twice(run_family(ctx, "repro_big", ctx.q(150, 1500)), "long histories", "repro_big")

def strat_cfg(spec, asks, kind, invs=""):
    return "SPECIFICATION %s\nCONSTANTS\n MaxAsks = %d\n Kind = \"%s\"\n%sCHECK_DEADLOCK FALSE\n" % (spec, asks, kind, invs)
def strategy_check(ctx, kind, fam, n):
    mc(ctx, "MCStrategy", strat_cfg("Spec", ctx.q(5, 6), kind, "INVARIANTS Answers Bounded Below NoEarlyRepeat\n"), "all sequences of questions")
    cases = dump(ctx, "MCStrategy", strat_cfg("DumpSpec", (ctx.q(3, 4) if kind == "depth" else ctx.q(6, 7)), kind), "all sequences of questions")
    ts = 'SPECIFICATION Spec\nCONSTANT Kind = "%s"\nCHECK_DEADLOCK FALSE\n' % kind
    judge(ctx, "TraceStrategy", ts, exec_cases(ctx, fam, cases), "replayed questions", fam)
    judge(ctx, "TraceStrategy", ts, run_family(ctx, fam, n), "random productions and grammars", fam)
    judge(ctx, "TraceStrategy", ts, run_family(ctx, fam + "_big", ctx.q(300, 3000)), "large productions, long histories", fam + "_big")
def c14(ctx):
    strategy_check(ctx, "depth", "choose14", ctx.q(6000, 60000))
def c15(ctx):
    strategy_check(ctx, "cover", "choose15", ctx.q(6000, 60000))
def c16(ctx):
    mc(ctx, "MCStrategy", strat_cfg("Spec", 1, "weight"), "the weighted walk, all small weight vectors")
    judge(ctx, "TraceDist", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", run_family(ctx, "dist16", ctx.q(3000, 30000)), "tallies of choices", "dist16")
    judge(ctx, "TraceDist", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", run_family(ctx, "dist16_big", ctx.q(200, 2000)), "tallies, many alternatives", "dist16_big")

# ------------------------------------------------------------------ rendering
def render_check(ctx, mode, n):
    cfg = "CONSTANTS\n Spine = %d\n Wide = %s\n" % (ctx.q(5, 7), ctx.q("FALSE", "TRUE"))
    mc(ctx, "MCRender", "SPECIFICATION Spec\n" + cfg + "INVARIANTS ReadsBack OneLinePerNode Glyphs OneEdgePerPair EscapeSafe\nCHECK_DEADLOCK FALSE\n",
       "renderings of all small trees read back")
    cases = dump(ctx, "MCRender", "SPECIFICATION DumpSpec\n" + cfg + "CHECK_DEADLOCK FALSE\n", "all small trees")
    tr = 'SPECIFICATION Spec\nCONSTANT Mode = "%s"\nCHECK_DEADLOCK FALSE\n' % mode
    judge(ctx, "TraceRender", tr, exec_cases(ctx, "render", cases), "replayed small trees", "render")
    judge(ctx, "TraceRender", tr, run_family(ctx, "render", n), "random trees", "render")
    judge(ctx, "TraceRender", tr, run_family(ctx, "render_big", ctx.q(250, 2500)), "large trees", "render_big")
    judge(ctx, "TraceRender", tr, run_family(ctx, "render_far", ctx.q(2000, 20000)), "executed enlarged", "render_far")
def c17(ctx):
    render_check(ctx, "print", ctx.q(8000, 80000))
def c18(ctx):
    render_check(ctx, "mermaid", ctx.q(8000, 80000))

# ------------------------------------------------------------------ building and editing
def c19(ctx):
    mc(ctx, "MCEdit", "SPECIFICATION Spec\nCONSTANT MaxOps = %d\nINVARIANTS RemoveRight AddRight Local\nCHECK_DEADLOCK FALSE\n" % ctx.q(4, 5),
       "all short edit histories")
    cases = dump(ctx, "MCEdit", "SPECIFICATION DumpSpec\nCONSTANT MaxOps = %d\nCHECK_DEADLOCK FALSE\n" % ctx.q(3, 4), "all short edit histories")
    te = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
    judge(ctx, "TraceEdit", te, exec_cases(ctx, "edit", cases), "replayed histories", "edit")
    judge(ctx, "TraceEdit", te, run_family(ctx, "edit", ctx.q(8000, 80000)), "random histories", "edit")
    judge(ctx, "TraceEdit", te, run_family(ctx, "edit_big", ctx.q(150, 1500)), "large grammars", "edit_big")

def macro_trace(ctx, cases):
    """compile and run the macro invocations of the cases; returns the trace file"""
    import json, os, macros
    from check import V, EV
    lines, err = macros.compile_and_run(V, cases)
    if lines is None:
        if "could not compile `bnf-macros`" not in err:
            raise ToolError("macro crate: " + err[-3000:])
        # the crate itself builds (the harness did), so a macro rejects or misbuilds what is written
        os.makedirs(os.path.join(EV, "replays"), exist_ok=True)
        ctx.bad.append({"family": "macro", "spec": "TraceMacro", "cfg": "", "why": "macro invocations do not compile",
                        "line": {"compiler": err[:3000], "cases": cases}})
        return None
    p = ctx.path("macro.ndjson")
    with open(p, "w", encoding="utf-8") as f:
        for l in lines:
            f.write(json.dumps(l, ensure_ascii=True) + "\n")
    return p
def c20(ctx):
    import json, random, macros
    tm = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
    cfg = "CONSTANT Size = %d\nCHECK_DEADLOCK FALSE\n" % ctx.q(1, 2)
    mc(ctx, "MCMacro", "SPECIFICATION Spec\nINVARIANT BuildsWritten\n" + cfg, "the macro machine builds what is written")
    r = random.Random(ctx.seed)
    model = [json.loads(l)["toks"] for l in open(dump(ctx, "MCMacro", "SPECIFICATION DumpSpec\n" + cfg, "token sequences"), encoding="utf-8")]
    model.sort(key=json.dumps)
    cases = [macros.case(r, "grammar", t) for t in model]
    cases += [macros.case(r, "production", t) for t in model if [";"] not in t]
    cases += [macros.random_case(r, ctx.tier == "thorough") for _ in range(ctx.q(250, 2000))]
    p = macro_trace(ctx, cases)
    if p:
        judge(ctx, "TraceMacro", tm, p, "compiled macro invocations", "macro")
    judge(ctx, "TraceMacro", tm, run_family(ctx, "plus", ctx.q(6000, 60000)), "+ operators", "plus")

NOTE = ("TLC explores the specification exhaustively within small bounds; the code is bound to it by validating every "
        "recorded execution (all model-generated small cases and seeded random ones). Unobserved inputs are not covered.")
PARSE_ASSUME = ["the crate's public parse tree accessors report the tree it built",
                "inputs and grammars outside the generated classes behave like those inside"]
TEXT_ASSUME = ["white space and alphabetic classes of characters are those of the Rust standard library",
               "texts of at most about 420 characters and nesting depth 40 are representative"]
GEN_ASSUME = ["a strategy that declines after a budget of choices shows the same expansion rules as an unbounded one",
              "plain entry points are run only on grammars whose random expansion ends quickly"]
PLANS = {
    "C01": {"run": c01, "technique": "TLA+ derivation semantics; TLC model check of the chart parser; trace validation of parses", "note": NOTE, "assumptions": PARSE_ASSUME},
    "C02": {"run": c02, "technique": "TLA+ derivation counting; TLC model check of the chart parser; trace validation of parses", "note": NOTE, "assumptions": PARSE_ASSUME},
    "C04": {"run": c04, "technique": "TLA+ session machine; all short interleavings replayed; trace validation of sessions", "note": NOTE, "assumptions": PARSE_ASSUME},
    "C05": {"run": c05, "technique": "TLA+ validation machine; all small grammars replayed; trace validation", "note": NOTE, "assumptions": ["generated grammar values are representative"]},
    "C06": {"run": c06, "technique": "TLA+ reader machine checked against a declarative syntax; token sequences replayed; trace validation", "note": NOTE, "assumptions": TEXT_ASSUME},
    "C07": {"run": c07, "technique": "TLA+ reader machine (ABNF, format detection); token sequences replayed; trace validation", "note": NOTE, "assumptions": TEXT_ASSUME},
    "C08": {"run": c08, "technique": "TLA+ reader and normalization relation, language preservation by TLC; replay; trace validation", "note": NOTE, "assumptions": TEXT_ASSUME},
    "C09": {"run": c09, "technique": "TLA+ formatter and reader machine, identity model-checked; replay; trace validation of round trips", "note": NOTE, "assumptions": TEXT_ASSUME},
    "C10": {"run": c10, "technique": "TLA+ stack machine of generation model-checked for membership; scripted and random generations validated as its behaviours", "note": NOTE, "assumptions": GEN_ASSUME},
    "C11": {"run": c11, "technique": "TLA+ productivity fixpoint; scripted and random generations validated against refusal rule", "note": NOTE, "assumptions": GEN_ASSUME},
    "C12": {"run": c12, "technique": "TLA+ stack machine with callback verdicts model-checked; recorded callback histories validated as its behaviours", "note": NOTE, "assumptions": GEN_ASSUME},
    "C13": {"run": c13, "technique": "TLA+ machine of independent seeded streams; all short interleavings replayed in two processes; trace validation", "note": NOTE, "assumptions": GEN_ASSUME},
    "C14": {"run": c14, "technique": "TLA+ strategy machine model-checked; all short question sequences replayed; trace validation of choices and generations", "note": NOTE, "assumptions": GEN_ASSUME},
    "C15": {"run": c15, "technique": "TLA+ coverage machine model-checked; all short question sequences replayed; trace validation of choices and generations", "note": NOTE, "assumptions": GEN_ASSUME + ["productions stay in place while the strategy is used"]},
    "C16": {"run": c16, "technique": "TLA+ weighted-walk model; tallies of recorded choices validated against the specified distribution", "note": NOTE + " Frequencies are accepted within six standard deviations.", "assumptions": GEN_ASSUME},
    "C17": {"run": c17, "technique": "TLA+ printer with reader, model-checked to be inverse; small trees replayed; trace validation of printed trees", "note": NOTE, "assumptions": PARSE_ASSUME},
    "C18": {"run": c18, "technique": "TLA+ flowchart writer and escaping with decoder, model-checked; small trees replayed; trace validation", "note": NOTE, "assumptions": PARSE_ASSUME},
    "C19": {"run": c19, "technique": "TLA+ ordered-list machine model-checked; all short edit histories replayed; trace validation of edit histories", "note": NOTE, "assumptions": ["histories of at most 30 edits are representative"]},
    "C20": {"run": c20, "technique": "TLA+ token machine of the macros model-checked; its token sequences and random ones compiled and run; trace validation", "note": NOTE, "assumptions": ["the invocations compiled in a run are representative of those users write"]},
    "C03": {"run": c03, "technique": "TLA+ iterator machine for infinitely ambiguous parses; trace validation", "note": NOTE, "assumptions": PARSE_ASSUME},
}

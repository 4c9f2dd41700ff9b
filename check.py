#!/usr/bin/env python3
"""check.py ID [quick|thorough]    decide one property
   check.py setup                  build everything, check the specification parses
   check.py replay FILE            re-execute and re-judge a recorded violation

Exit 0: the property held on everything explored.  Exit 1: a VIOLATION line was
printed.  Exit 2: the machinery itself failed (no verdict)."""
import json, os, re, shutil, subprocess, sys, time, glob

V = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(V, "spec")
BUILD = os.path.join(V, "build")
H = os.path.join(BUILD, "target", "debug", "bnf-harness")
EV = os.path.join(V, "evidence")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class ToolError(Exception):
    pass
class Enough(Exception):
    """violations are known and more time would not add to them"""

def log(*a):
    print(*a, flush=True)

def build():
    env = dict(os.environ)
    env.pop("CARGO_TARGET_DIR", None)
    p = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(V, "harness"), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("harness does not build against /repo:\n" + p.stdout[-4000:])

def harness(args, env=None, timeout=700):
    e = dict(os.environ); e.update(env or {})
    try:
        p = subprocess.run([H] + args, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("harness %s: no end within %d s" % (args, timeout))
    if p.returncode != 0:
        raise ToolError("harness %s: %s" % (args, p.stdout[-3000:]))

class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.work = os.path.join(BUILD, "work", "%s-%d" % (pid, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.traces = 0
        self.samples, self.steps, self.bad, self.known = [], [], [], []
        self.t0 = time.time()
        self.n = 0
    def path(self, name):
        self.n += 1
        return os.path.join(self.work, "%02d-%s" % (self.n, name))
    def q(self, quick, thorough):
        return thorough if self.tier == "thorough" else quick

def tlc(ctx, module, cfg, env=None, timeout=800, workers=8, extra=()):
    """Run TLC on spec/module.tla with the configuration text cfg; returns its output."""
    cfgp = ctx.path(module + ".cfg")
    open(cfgp, "w").write(cfg)
    meta = ctx.path("meta")
    e = dict(os.environ); e.update(env or {})
    os.makedirs(meta + ".tmp", exist_ok=True)
    cmd = ["java", "-Djava.io.tmpdir=" + meta + ".tmp", "-Xss512m", "-Xmx10g", "-Dfile.encoding=UTF-8", "-XX:+UseParallelGC", "-cp", CP, "tlc2.TLC",
           "-workers", str(workers), "-noGenerateSpecTE", "-metadir", meta, "-config", cfgp, *extra,
           os.path.join(SPEC, module + ".tla")]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, encoding="utf-8", errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
        shutil.rmtree(meta + ".tmp", ignore_errors=True)
    out = p.stdout
    open(ctx.path(module + ".out"), "w").write(out)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return out, gen, dist

def mc(ctx, module, cfg, label, env=None, timeout=800):
    """Model-check the specification itself (independent of the code)."""
    t = time.time()
    out, gen, dist = tlc(ctx, module, cfg, env, timeout)
    if "Model checking completed. No error has been found." not in out:
        raise ToolError("the specification fails its own check %s (%s):\n%s" % (label, module, tail(out)))
    ctx.states += dist; ctx.transitions += gen
    ctx.steps.append({"kind": "model-check", "spec": module, "what": label, "states": dist, "transitions": gen,
                      "wall_s": round(time.time() - t, 1)})
    log("  model-check %-14s %-46s %8d states  %5.1fs" % (module, label, dist, time.time() - t))

def dump(ctx, module, cfg, label, env=None, timeout=600):
    """Let TLC write model-generated cases to a file."""
    p = ctx.path(module + ".cases.ndjson")
    t = time.time()
    out, gen, dist = tlc(ctx, module, cfg, dict(env or {}, OUT=p), timeout)
    if "Model checking completed. No error has been found." not in out or not os.path.exists(p):
        raise ToolError("TLC could not generate cases from %s:\n%s" % (module, tail(out)))
    n = sum(1 for _ in open(p, encoding="utf-8"))
    ctx.steps.append({"kind": "generate-from-model", "spec": module, "what": label, "cases": n,
                      "wall_s": round(time.time() - t, 1)})
    log("  generate    %-14s %-46s %8d cases   %5.1fs" % (module, label, n, time.time() - t))
    return p

def tail(out):
    keep = [l for l in out.splitlines() if not re.match(r"^(\d+\. Line|Parsing file|Semantic|Linting|Computed)", l)]
    return "\n".join(keep[-40:])

def run_family(ctx, fam, count, seed=None, env=None):
    p = ctx.path(fam + ".ndjson")
    harness(["run", fam, str(ctx.seed if seed is None else seed), ctx.tier, str(count), p], env)
    return p

def exec_cases(ctx, fam, cases, env=None):
    p = ctx.path(fam + ".exec.ndjson")
    harness(["exec", fam, cases, p], env)
    return p

def evaluate(ctx, module, cfg, part, env, timeout):
    pp = ctx.path("trace.ndjson")
    open(pp, "w", encoding="utf-8").write("\n".join(part) + "\n")
    r = tlc(ctx, module, cfg, dict(env or {}, TRACE=pp), timeout)
    os.remove(pp)
    return r

def outside(ctx, module, cfg, part, env, timeout, label):
    """TLC cannot evaluate the specification on some line: find a line it fails on by itself.
    Records of the right shape always evaluate, so such a line is not a behaviour of the
    specification; without such a line the failure is the tool's."""
    done = "Model checking completed. No error has been found."
    lo, hi = 0, len(part)
    while hi - lo > 1:
        mid = (lo + hi) // 2
        if done not in evaluate(ctx, module, cfg, part[lo:mid], env, timeout)[0]:
            hi = mid
        else:
            lo = mid
    out = evaluate(ctx, module, cfg, part[lo:hi], env, timeout)[0]
    if done in out or "Error: " not in out or "OutOfMemory" in out:
        raise ToolError("trace specification %s failed on %s:\n%s" % (module, label, tail(out)))
    log(tail(out)[-600:])
    return lo

def judge(ctx, module, cfg, trace, label, fam, env=None, timeout=800, chunk=5000):
    """Check recorded executions of the code against a trace specification."""
    # TLC spills more than 8192 queued states to disk, and strings built at run time (file
    # encoding UTF-8) do not survive that: keep every run below the limit
    t = time.time()
    lines = [l for l in open(trace, encoding="utf-8").read().split("\n") if l]
    if not lines:
        raise ToolError("no trace recorded for " + label)
    nbad = 0; st = 0
    for a in range(0, len(lines), chunk):
        part = lines[a:a + chunk]
        out, gen, dist = evaluate(ctx, module, cfg, part, env, timeout)
        if "Model checking completed. No error has been found." not in out:
            bad = [(outside(ctx, module, cfg, part, env, timeout, label) + 1, "the record is outside the domain of the specification")]
        else:
            bad = parse_bad(out)
        for c, why in bad:
            ctx.bad.append({"family": fam, "spec": module, "cfg": cfg, "why": why, "line": json.loads(part[c - 1])})
        nbad += len(set(c for c, _ in bad))
        st += dist
        ctx.states += dist; ctx.transitions += gen
    ctx.traces += len(lines) - nbad
    if len(ctx.samples) < 3 and lines:
        k = min(range(len(lines)), key=lambda i: abs(len(lines[i]) - 500))
        ctx.samples.append({"step": label, "trace": json.loads(lines[k])})
    ctx.steps.append({"kind": "trace-validation", "spec": module, "what": label, "traces": len(lines), "rejected": nbad,
                      "states": st, "wall_s": round(time.time() - t, 1)})
    log("  validate    %-14s %-46s %8d traces  %d rejected %5.1fs" % (module, label, len(lines), nbad, time.time() - t))
    if ctx.bad and (time.time() - ctx.t0 > 300 or any(b["line"].get("outcome") == "hang" for b in ctx.bad)):
        raise Enough()

def parse_bad(out):
    """<<"BAD", 12, "why">> possibly broken over lines by TLC's pretty printer."""
    res = []
    flat = re.sub(r"\s*\n\s+", " ", out)
    for m in re.finditer(r'<<\s*"BAD",\s*(\d+),\s*"(.*?)"\s*>>', flat, re.S):
        res.append((int(m.group(1)), m.group(2)))
    if out.count('"BAD"') != len(res):
        raise ToolError("cannot read TLC's verdicts:\n" + tail(out))
    return res

def known_findings():
    """lines of known-findings.jsonl with status "open" suppress exactly one recorded case each"""
    p = os.path.join(V, "known-findings.jsonl")
    return [json.loads(l) for l in open(p, encoding="utf-8") if l.strip()] if os.path.exists(p) else []

def probe_known(ctx):
    """Re-execute the inputs of the open findings of this property."""
    for kf in known_findings():
        if kf.get("status") != "open" or kf.get("property") != ctx.pid:
            continue
        p = ctx.path("known.ndjson")
        open(p, "w", encoding="utf-8").write(json.dumps(kf["case"]) + "\n")
        o = exec_cases(ctx, kf["family"], p, {"CASE_TIMEOUT": str(kf.get("timeout", 10))})
        line = json.loads(open(o, encoding="utf-8").readline())
        hit = all(line.get(k) == v for k, v in kf["fails_with"].items())
        if hit and "judge" in kf:
            # the finding is what the specification rejects about this input
            before = len(ctx.bad)
            traces = ctx.traces
            try:
                judge(ctx, kf["judge"]["spec"], kf["judge"]["cfg"], o, "known finding", kf["family"])
            except Enough:
                pass
            hit = len(ctx.bad) > before
            del ctx.bad[before:]
            ctx.traces = traces
        if hit:
            ctx.known.append(kf["what"])
            log("KNOWN-FINDING: property=%s %s" % (ctx.pid, kf["what"]))

def finish(ctx, level, t0, assumptions):
    os.makedirs(EV, exist_ok=True)
    rc = 0
    for k, b in enumerate(ctx.bad[:5]):
        d = os.path.join(EV, "replays"); os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, "%s-%d.json" % (ctx.pid, k + 1))
        json.dump(dict(b, property=ctx.pid), open(rp, "w", encoding="utf-8"), indent=1, ensure_ascii=False)
        log("  rejected: %s: %s" % (b["why"], json.dumps(b["line"], ensure_ascii=False)[:600]))
        log("VIOLATION property=%s replay=%s" % (ctx.pid, rp))
        rc = 1
    ev = {"property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "level": level,
          "coverage": {"states": ctx.states, "transitions": ctx.transitions,
                       "traces_validated_against_impl": ctx.traces, "samples": ctx.samples, "steps": ctx.steps,
                       "known_findings_seen": ctx.known},
          "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(ctx.bad)}
    json.dump(ev, open(os.path.join(EV, ctx.pid + ".json"), "w", encoding="utf-8"), indent=1, ensure_ascii=False)
    return rc

def main():
    import plans
    if len(sys.argv) < 2:
        print(__doc__); return 2
    if sys.argv[1] == "setup":
        build()
        for f in sorted(glob.glob(os.path.join(SPEC, "*.tla"))):
            p = subprocess.run(["java", "-Dfile.encoding=UTF-8", "-cp", CP, "tla2sany.SANY", f], cwd=SPEC,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                raise ToolError("spec does not parse: %s\n%s" % (f, p.stdout[-2000:]))
        log("setup ok")
        return 0
    if sys.argv[1] == "replay":
        b = json.load(open(sys.argv[2], encoding="utf-8"))
        build()
        ctx = Ctx("replay", "quick", 1)
        if b["family"] == "macro":
            o = plans.macro_trace(ctx, b["line"].get("cases") or [b["line"]])
            b["cfg"] = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
        else:
            p = ctx.path("case.ndjson")
            open(p, "w", encoding="utf-8").write(json.dumps(b["line"]) + "\n")
            o = exec_cases(ctx, b["family"], p)
        if o:
            try:
                judge(ctx, b["spec"], b["cfg"], o, "replay", b["family"])
            except Enough:
                pass
        for x in ctx.bad:
            log("rejected: " + x["why"])
        shutil.rmtree(ctx.work, ignore_errors=True)
        return 1 if ctx.bad else 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    log("%s (%s, seed %d)" % (pid, tier, seed))
    build()
    ctx = Ctx(pid, tier, seed)
    try:
        plan = plans.PLANS[pid]
        try:
            plan["run"](ctx)
            probe_known(ctx)
        except Enough:
            pass
        except ToolError as e:
            if not ctx.bad:
                raise
            log("stopped: %s" % e)
        return finish(ctx, plan.get("level", "model_checking"), t0, plan["assumptions"])
    finally:
        if not os.environ.get("KEEP_WORK"):
            shutil.rmtree(ctx.work, ignore_errors=True)

if __name__ == "__main__":
    sys.path.insert(0, V)
    sys.modules.setdefault("check", sys.modules["__main__"])
    sys.dont_write_bytecode = True
    try:
        rc = main()
    except ToolError as e:
        print("ERROR (no verdict):", e, flush=True)
        rc = 2
    sys.exit(rc)

"""Checks C01-C16: every operation x vector type x feature level, lane terms against the specification."""
import sys, os, re
import concurrent.futures as cf
import build, lanes, ops, irparse, absint, decide, terms as T, report

EXPL = ("Static analysis (abstract interpretation) of the LLVM IR the compiler emits from the current /repo/src: for every operation, vector type "
        "and x86 feature level one call site of the public operation is compiled (never executed); the analysis computes each result lane as a term over "
        "the source lanes and compares its canonical form with the required term (rules: canonical form, piecewise-affine form, sums of one-lane "
        "functions, operand multisets for float reductions). A difference is reported only when the two forms provably differ at some lane values. "
        "Counts are obligations (result lanes, absence of panics and of out-of-bounds accesses) of this run.")
BASE = ("sse2", "sse42", "avx2", "portable")


def where(mod, f, t=None):
    w = lanes.locs(mod, f, t, 3)
    return "; ".join("%s:%s" % (a, b) for a, b, _ in w) or "?"


def analyse_probe(R, mod, c, p, cfg, want_fn=None):
    """obligations of one probe under one configuration; returns the result or None"""
    key = "%s@%s" % (p.key, cfg)
    f = mod.funcs.get(p.name)
    if f is None:
        R.bad(key, "the compiler emitted no code for this call"); return None
    R.stat("call sites analysed")
    try: r = lanes.analyse(mod, p)
    except absint.Undecided as e:
        R.undecided("analysis", "%s: %s" % (key, e)); return None
    except RecursionError:
        R.undecided("analysis", "%s: recursion" % key); return None
    R.stat("IR instructions interpreted", r.it.steps)
    for b in f.blocks():
        for i in f.block(b):
            if i.dbg:
                for fl, l, fn in mod.where(i.dbg):
                    if fl.startswith("src/") and "verif_probe" not in fl: R.functions.add(fl + "::" + fn)
    if p.meta.get("must_panic"):
        if r.diverges: R.ok("panics on an argument out of range")
        else: R.bad(key, "returns normally although the argument is out of range: " + "; ".join(x[1] for x in r.problems)[:200])
        return None
    for ev in r.events:
        if ev[1] == "panic":
            w = "; ".join("%s:%s" % x[:2] for x in (ev[3] or [])[:3])
            sat = decide.satisfiable(ev[0], R.seed)
            if sat: R.bad(key + " panics", "the call can panic (%s) %s%s" % (ev[2], w, "" if sat is True else " for " + sat))
            elif sat is None: R.undecided("no panic", "%s: panic guarded by %s" % (key, T.show(ev[0], 4)))
    for kind, text, w in r.problems:
        R.bad(key + " " + kind, text + " at " + "; ".join("%s:%s" % x[:2] for x in w[:3]))
    if r.diverges:
        R.bad(key + " panics", "the call never returns"); return None
    return r


def run_cfg(args):
    pid, cfg, tier, seed = args
    sys.setrecursionlimit(20000)
    R = report.Report(pid, tier, seed)
    P = ops.probes(pid)
    opts = [("O3", dict(opt=3))]
    if tier == "thorough": opts += [("O3-checked", dict(opt=3, debug=True)), ("O1", dict(opt=1))]
    for oname, kw in opts:
        try: c = build.compile_probes(cfg, [(p.name, p.src) for p in P], lanes.HEADER, **kw)
        except build.BuildError as e:
            R.notes.append("%s/%s: %s" % (cfg, oname, e))
            if cfg in BASE: R.bad("build@" + cfg, str(e))
            continue
        mod = irparse.Module(c.ir)
        R.stat("configurations compiled")
        suffix = "" if oname == "O3" else "/" + oname
        for p in P:
            if p.name in c.dropped:
                if not p.meta.get("optional") and p.meta.get("only", cfg) == cfg and not (cfg == build.PORTABLE and max(w * n for _, w, n in p.ins + p.outs) > 128): R.bad("%s@%s missing" % (p.key, cfg), "the operation is not available: " + c.dropped[p.name])
                else: R.stat("operation/type pairs the library does not offer")
                continue
            r = analyse_probe(R, mod, c, p, cfg + suffix)
            if r is None: continue
            w = p.want(r.L)
            if any(v is None or any(x is None for x in v) for v in w.values()):
                R.notes.append("%s: no specification written for this pair" % p.key); continue
            check_lanes(R, mod, p, r, w, cfg + suffix)
    return R.dump()


def check_lanes(R, mod, p, r, w, cfg):
    bad = []
    for o in w:
        for i, (g, x) in enumerate(zip(r.out[o], w[o])):
            res = decide.compare(g, x, assoc=p.assoc, floats=p.floats, seed=R.seed)
            if res[0] != "equal":
                for alt in p.meta.get("alts", []):
                    r2 = decide.compare(g, alt(r.L)[o][i], floats=p.floats, seed=R.seed)
                    if r2[0] == "equal" or (r2[0] == "undecided" and res[0] == "differ"): res = r2
                    if r2[0] == "equal": break
            if res[0] == "equal": R.ok(res[1])
            elif res[0] == "undecided": R.undecided("lane", "%s@%s lane %s[%d]: %s" % (p.key, cfg, o, i, res[1]))
            else: bad.append((o, i, res[1], g))
    if bad:
        o, i, text, g = bad[0]
        R.bad("%s@%s" % (p.key, cfg), "%d wrong result lanes, first %s[%d]: %s [%s]" % (len(bad), o, i, text, where(mod, r.fn, g)))
    elif len(R.samples) < 2:
        o = next(iter(w))
        R.samples.append("%s@%s: %s[0] = %s" % (p.key, cfg, o, T.show(r.out[o][0], 4)))


def check(pid, tier, seed, cfgs=None):
    R = report.Report(pid, tier, seed)
    cfgs = cfgs or build.LEVELS
    with cf.ProcessPoolExecutor(min(10, len(cfgs))) as ex:
        for d in ex.map(run_cfg, [(pid, c, tier, seed) for c in cfgs]): R.merge(d)
    R.stat("feature levels and the portable build", len(cfgs))
    R.assumptions = ["the lane semantics of LLVM IR and of the x86 intrinsics as modelled in lib/x86models.py (Intel SDM)",
                     "rustc/LLVM translate the source faithfully to the analysed IR",
                     "feature level none is compiled with SSE disabled through -C target-feature"]
    return R.finish(EXPL)

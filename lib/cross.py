"""C20: the result lanes of every operation at every feature level are the same function of the source lanes."""
import re, sys
import concurrent.futures as cf
import build, lanes, ops, irparse, absint, decide, terms as T, report
from lanecheck import where

CHUNK = {"C06": 2, "C07": 3, "C08": 2, "C10": 2}
ESTIMATE = re.compile(r"^(recip|rsqrt) ")


def unit(a):
    pid, k, cfgs, kw, seed = a
    sys.setrecursionlimit(20000)
    R = report.Report("C20", "quick", seed)
    P = [p for p in ops.probes(pid) if not p.meta.get("must_panic") and not ESTIMATE.match(p.key)][k::CHUNK.get(pid, 1)]
    mods = {}
    for cfg in cfgs:
        try: c = build.compile_probes(cfg, [(p.name, p.src) for p in P], lanes.HEADER, tag="cr", **kw)
        except build.BuildError as e:
            R.notes.append("%s: %s" % (cfg, e)); continue
        mods[cfg] = (irparse.Module(c.ir), c)
    for p in P:
        forms = []                                   # distinct results met so far: (level, lanes, panics)
        for cfg, (mod, c) in mods.items():
            if p.name in c.dropped or p.name not in mod.funcs: continue
            R.stat("call sites analysed")
            try: r = lanes.analyse(mod, p)
            except (absint.Undecided, RecursionError) as e:
                R.undecided("analysis", "%s@%s: %s" % (p.key, cfg, e)); continue
            if r.diverges:
                forms.append((cfg, None, mod, r)); continue
            out = [(o, i, g) for o in r.out for i, g in enumerate(r.out[o])]
            if any(f[1] is not None and all(x[2] is y[2] for x, y in zip(f[1], out)) for f in forms):
                R.ok("identical canonical lanes", len(out)); continue
            forms.append((cfg, out, mod, r))
        if not forms: continue
        base = forms[-1]                              # the most capable level
        R.ok("reference", len(base[1] or ()))
        for f in forms[:-1]:
            if (f[1] is None) != (base[1] is None):
                R.bad("%s %s/%s" % (p.key, f[0], base[0]), "one of the two levels never returns"); continue
            bad = []
            fl = p.floats or any(w in (32, 64) for _, w, _ in p.outs) and p.key.split()[-1].startswith("f")
            for (o, i, g), (_, _, h) in zip(f[1], base[1]):
                res = decide.compare(g, h, assoc=p.assoc, floats=fl, seed=seed)
                if res[0] == "equal": R.ok(res[1])
                elif res[0] == "undecided": R.undecided("lane", "%s %s/%s lane %s[%d]: %s" % (p.key, f[0], base[0], o, i, res[1]))
                else: bad.append((o, i, res[1], g, h))
            if bad:
                o, i, text, g, h = bad[0]
                R.bad("%s %s/%s" % (p.key, f[0], base[0]), "%d lanes differ between %s and %s, first %s[%d]: %s [%s | %s]" % (len(bad), f[0], base[0], o, i, text.replace("required", base[0] + " has"), where(f[2], f[3].fn, g), where(base[2], base[3].fn, h)))
    return R.dump()


def check(pid, tier, seed):
    R = report.Report(pid, tier, seed)
    base = [(("C%02d" % i), k) for i in [*range(1, 17), 37] for k in range(CHUNK.get("C%02d" % i, 1))]
    base.sort(key=lambda x: x[0] not in CHUNK)
    us = [(p, k, build.LEVELS, {}, seed) for p, k in base]
    if tier == "thorough": us += [(p, k, build.LEVELS, kw, seed) for kw in (dict(debug=True), dict(opt=1)) for p, k in base]
    with cf.ProcessPoolExecutor(9) as ex:
        for d in ex.map(unit, us): R.merge(d)
    R.assumptions = ["the lane semantics of LLVM IR and of the x86 intrinsics as modelled in lib/x86models.py (Intel SDM)", "estimates, float association order and not-a-number handling of minimum/maximum are exempt, as the property says"]
    return R.finish("Static analysis (abstract interpretation of the compiled IR) of every operation and vector type at all nine x86 feature levels and for the portable sources: the canonical form of each result lane over the "
                    "source lanes is compared between levels; a difference is reported only when the two forms provably differ at some lane values.")

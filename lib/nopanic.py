"""C33: no panic is reachable from any operation for any lane values, in the optimised and in the checked build profile."""
import sys
import concurrent.futures as cf
import build, lanes, ops, irparse, report, lanecheck

CHUNK = {"C06": 2, "C07": 3, "C08": 2, "C10": 2}


def unit(a):
    pid, k, cfg, kw, seed = a
    sys.setrecursionlimit(20000)
    R = report.Report("C33", "quick", seed)
    P = ops.probes(pid)[k::CHUNK.get(pid, 1)]
    try: c = build.compile_probes(cfg, [(p.name, p.src) for p in P], lanes.HEADER, tag="np", **kw)
    except build.BuildError as e:
        R.notes.append("%s: %s" % (cfg, e))
        if cfg in lanecheck.BASE: R.bad("build@" + cfg, str(e))
        return R.dump()
    mod = irparse.Module(c.ir)
    prof = cfg + ("/checked" if kw.get("debug") else "") + ("/O%s" % kw["opt"] if kw.get("opt", 3) != 3 else "")
    for p in P:
        if p.name in c.dropped: continue
        n = len(R.viol)
        r = lanecheck.analyse_probe(R, mod, c, p, prof)
        if r is not None and len(R.viol) == n: R.ok("no reachable panic")
    return R.dump()


def check(pid, tier, seed):
    R = report.Report(pid, tier, seed)
    cfgs = build.LEVELS
    base = [(("C%02d" % i), k) for i in [*range(1, 17), 37] for k in range(CHUNK.get("C%02d" % i, 1))]
    base.sort(key=lambda x: x[0] not in CHUNK)
    us = [(p, k, c, dict(debug=True), seed) for p, k in base for c in (cfgs if tier == "thorough" else ("none", "sse2", "ssse3", "sse41", "avx", "avx2", build.PORTABLE))]
    if tier == "thorough": us += [(p, k, c, kw, seed) for p, k in base for c in cfgs for kw in ({}, dict(debug=True, opt=1))]
    with cf.ProcessPoolExecutor(9) as ex:
        for d in ex.map(unit, us): R.merge(d)
    R.assumptions = ["the lane semantics of LLVM IR and of the x86 intrinsics as modelled in lib/x86models.py (Intel SDM)"]
    return R.finish("Static analysis (abstract interpretation) of the IR of every operation compiled with overflow checks and debug assertions: every panic, unreachable and memory fault met on any path is a violation "
                    "unless its guard is false for all lane values; offsets beyond the lane count must reach a panic instead.")

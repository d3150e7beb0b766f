"""C38: with the tracing feature on, every operation still returns the required lanes.  The unoptimised IR of the traced build is analysed;
the call that prints once per site (LocalKey::with and the closure it runs) is replaced by an effect summary over what its closure captures."""
import re, sys
import concurrent.futures as cf
import build, lanes, ops, irparse, absint, terms as T, report, lanecheck
from features import plain, graph

CHUNK = {"C06": 4, "C07": 5, "C08": 3, "C10": 3, "C37": 3}


def effects(mod, ir):
    """summaries of the printing machinery, by name: nothing of it may reach the lanes"""
    H = {}
    names = set(mod.funcs) | set(x for x in re.findall(r'^declare [^\n]*?@("[^"]+"|[\w.$]+)\(', ir, re.M))
    def fmt(it, st, name, a, tys, rt):
        for i in range(3): it.store(st, T.lin(64, 8 * i, [(a[0], 1)]), T.leaf(64, "text%d" % i))
        return None, st
    def once(it, st, name, a, tys, rt):
        # what the closure captured: plain data (the text) is consumed; a captured reference to anything of ours would be unknown
        o, off = it.deref(a[1])
        for i in range(off, (o.size or 0) - 7, 8):
            w = it.load(st, T.lin(64, i - off, [(a[1], 1)]), 64)
            if any(x.id in it.objs for x in T.leaves(w)): raise absint.Undecided("the tracing closure captures a reference")
        it.traced = getattr(it, "traced", 0) + 1
        return None, st
    def drop(it, st, name, a, tys, rt): return None, st
    for n in names:
        p = plain(n.strip("\""))
        if p == "alloc::fmt::format": H[n] = fmt
        elif re.match(r"std::thread::local::LocalKey<.*>::with$", p): H[n] = once
        elif p == "core::ptr::drop_in_place":
            f = mod.funcs.get(n)
            if f is None or re.search(r"String|closure", str(f.params()[0][0])): H[n] = drop
    return H


OWN = re.compile(r"(^|[< ])faster::|^p_|verif_probe")
UNWRAP = re.compile(r"^core::(result|option)::.*::(unwrap|expect|unwrap_err|expect_err)$")
HARD = re.compile(r"^(std::panicking::begin_panic|core::panicking::panic(_fmt)?|std::process::(exit|abort)|std::rt::begin_panic\w*)$")
HARMLESS = re.compile(r"core::fmt::Error|BorrowMutError|BorrowError")


def machinery(R, mod, ir, cfg):
    """the code that prints (whatever runs inside the guard's closure): it may not turn an error into a panic, end the program or enter itself"""
    refs, need, glob, asm = graph(ir)
    P = {n: plain(n) for n in set(refs) | set(need)}
    def reach(n):
        par, todo = {n: None}, [n]
        while todo:
            x = todo.pop()
            for y in refs.get(x) or glob.get(x) or ():
                if y not in par: par[y] = x; todo.append(y)
        return par
    with_ = [n for n in refs if re.match(r"std::thread::local::LocalKey<.*>::with$", P[n])]
    inside, groups = {}, {}
    for w in with_:
        for x in reach(w):
            if x in refs and OWN.search(P[x]): inside[x] = w
    for n in sorted(x for x in refs if OWN.search(P[x])):
        bad = None
        for y, d in refs[n].items():
            t = P.get(y, plain(y))
            if UNWRAP.match(t):
                errs = [e for e in reach(y) if re.search(r"Debug.*::fmt", P.get(e, ""))]
                io = any("std::io::error::Error" in P[e] or "VarError" in P[e] for e in errs)
                if io or n in inside and not (errs and all(HARMLESS.search(P[e]) for e in errs)): bad = (t, d, "turns a failure of the tracing output into a panic")
            elif n in inside and HARD.match(t): bad = (t, d, "ends the operation")
        if n in inside and not bad:
            r = reach(n)
            again = [x for x in r if x in with_]
            if again: bad = (P[again[0]], None, "enters the tracing guard again while it is held, which panics")
        if n in inside: R.ok("the tracing code cannot panic of its own accord") if not bad else None
        if bad:
            g = groups.setdefault((bad[0], bad[2]), [])
            g.append(P[n])
    for (t, why), fs in sorted(groups.items()):
        R.bad("tracing %s@%s" % (t, cfg), "%s %s: called in %s%s" % (t, why, fs[0], " and %d more functions" % (len(fs) - 1) if len(fs) > 1 else ""))


def unit(a):
    pid, k, cfg, seed = a
    sys.setrecursionlimit(20000)
    R = report.Report("C38", "quick", seed)
    P = [p for p in ops.probes(pid) if not p.meta.get("must_panic") and not p.key.startswith(("operator eq ", "operator ne "))][k::CHUNK.get(pid, 1)]
    try: c = build.compile_probes(cfg, [(p.name, p.src) for p in P], lanes.HEADER, opt=0, features=("default", "std", "trace"), tag="tr")
    except build.BuildError as e:
        R.bad("build@" + cfg, str(e)); return R.dump()
    mod = irparse.Module(c.ir)
    H = effects(mod, c.ir)
    machinery(R, mod, c.ir, cfg)
    for p in P:
        if p.name in c.dropped or p.name not in mod.funcs: continue
        R.stat("call sites analysed")
        try: r = lanes.analyse(mod, p, H)
        except (absint.Undecided, RecursionError) as e:
            R.undecided("analysis", "%s@%s: %s" % (p.key, cfg, re.sub(r"_ZN\S+", lambda m: plain(m.group(0)), str(e)))); continue
        R.stat("tracing calls met", getattr(r.it, "traced", 0))
        if r.diverges:
            R.bad("%s@%s/traced" % (p.key, cfg), "the call never returns with tracing on"); continue
        for kind, text, w in r.problems: R.bad("%s@%s/traced %s" % (p.key, cfg, kind), text + " at " + "; ".join("%s:%s" % x[:2] for x in w[:3]))
        w = p.want(r.L)
        if any(v is None or any(x is None for x in v) for v in w.values()): continue
        lanecheck.check_lanes(R, mod, p, r, w, cfg + "/traced")
    return R.dump()


def check(pid, tier, seed):
    R = report.Report(pid, tier, seed)
    base = [("C%02d" % i, k) for i in [*range(1, 17), 37] for k in range(CHUNK.get("C%02d" % i, 1))]
    base.sort(key=lambda x: x[0] not in CHUNK)
    cfgs = build.LEVELS if tier == "thorough" else ("sse2", "sse41", "avx2", build.PORTABLE)
    with cf.ProcessPoolExecutor(9) as ex:
        for d in ex.map(unit, [(p, k, c, seed) for p, k in base for c in cfgs]): R.merge(d)
    R.assumptions = ["the standard library's printing, formatting and thread-local machinery only writes its own memory, and the closure given to it only what it captures",
                     "the lane semantics of LLVM IR and of the x86 intrinsics as modelled in lib/x86models.py (Intel SDM)"]
    return R.finish("Static analysis (abstract interpretation) of the unoptimised IR of every operation compiled with the tracing feature: the result lanes are compared with the required terms; the printing call is replaced by an "
                    "effect summary, valid because its closure captures no reference.")

"""C17: loads, stores, lane access and constructors of every vector type, by the sequence engine of itcore."""
import re, sys
import concurrent.futures as cf
import build, lanes, irparse, absint, terms as T, report, itcore, iters
from itcore import Case, SCALARS

M = 1 << 64
CASES = []


def case(*a, **k):
    CASES.append(Case(*a, pids=("C17",), defs=0, **k))
    CASES[-1].vecs = set(re.findall(r"\b(\w+)\.as_(?:mut_)?ptr\(\) as \*", a[3]))     # buffers holding a vector value, aligned as one


def offsets(n_s, n):
    return sorted({0, 1, 2, n, max(0, n_s - n), max(0, n_s - n + 1), n_s, n_s + 1, M - 1, M - n, M - n + 1, M - n - 1, M // 2, M // 8, M // 8 * 3})


def fars(n):
    """(length, offset) around powers of two, where an index could be cut short"""
    for p in (15, 16, 31, 32, 48):
        for k in (M - 1 & (1 << p) - 1, 1 << p):
            for m in (k + n, k + n - 1, 2 * k + 3): yield m, k


def build_cases(v, deep, portable=False):
    del CASES[:]
    k_, b, n = lanes.TYPES[v]
    t = "%s%d" % (k_, b)
    z = T.const(b, 0)
    V = dict(v=v, t=t)
    lens = sorted({0, 1, n - 1, n, n + 1, 2 * n}) if not deep else sorted({0, 1, 2, n - 1, n, n + 1, n + 2, 2 * n - 1, 2 * n, 2 * n + 1, 3 * n})
    def lruns(_):
        for m in lens:
            for k in offsets(m, n): yield dict(n_s=m, n_o=n, k=k)
        for m, k in fars(n): yield dict(n_s=m, n_o=n, k=k)
    def load(_, a, B):
        if a["k"] + n > a["n_s"]: return dict(panic=True)
        return dict(trace=[], after=dict(o=list(B["s"][a["k"]:a["k"] + n])), alloc=0)
    OUT = "*(o.as_mut_ptr() as *mut %s) = " % v
    IN = "let v = *(s.as_ptr() as *const %s); " % v
    case("%s load" % v, t, [("s", t), ("o", t)], OUT + "<%(v)s as Packed>::load(s, k);" % V, lruns, load, params=("k",), mut=("o",))
    case("%s load_unchecked" % v, t, [("s", t), ("o", t)], OUT + "<%(v)s as Packed>::load_unchecked(s, k);" % V, lambda _: (a for a in lruns(0) if a["k"] + n <= a["n_s"]), load, params=("k",), mut=("o",))
    def sruns(_):
        for m in lens:
            for k in offsets(m, n): yield dict(n_s=n, n_o=m, k=k)
        for m, k in fars(n): yield dict(n_s=n, n_o=m, k=k)
    def store(_, a, B):
        if a["k"] + n > a["n_o"]: return dict(panic=True)
        return dict(trace=[], after=dict(o=itcore.spliced(B["o"], a["k"], B["s"])), alloc=0)
    case("%s store" % v, t, [("s", t), ("o", t)], IN + "<%(v)s as Packed>::store(v, o, k);" % V, sruns, store, params=("k",), mut=("o",))
    case("%s store_unchecked" % v, t, [("s", t), ("o", t)], IN + "<%(v)s as Packed>::store_unchecked(v, o, k);" % V, lambda _: (a for a in sruns(0) if a["k"] + n <= a["n_o"]), store, params=("k",), mut=("o",))
    idx = list(range(n)) + [n, n + 1, 2 * n, M - 1, M - n, M // 2]
    case("%s extract" % v, t, [("s", t)], IN + "e_sc_%(t)s(1, <%(v)s as Packed>::extract(&v, k));" % V, lambda _: (dict(n_s=n, k=k) for k in idx),
         lambda _, a, B: dict(trace=[("sc", 1, B["s"][a["k"]])], alloc=0) if a["k"] < n else dict(panic=True), params=("k",))
    case("%s extract_unchecked" % v, t, [("s", t)], IN + "e_sc_%(t)s(1, <%(v)s as Packed>::extract_unchecked(&v, k));" % V, lambda _: (dict(n_s=n, k=k) for k in range(n)),
         lambda _, a, B: dict(trace=[("sc", 1, B["s"][a["k"]])], alloc=0), params=("k",))
    def rep(_, a, B):
        if a["k"] >= n: return dict(panic=True)
        return dict(trace=[], after=dict(o=B["s"][:a["k"]] + [B["x"][0]] + B["s"][a["k"] + 1:]), alloc=0)
    for u in ("", "_unchecked"):
        case("%s replace%s" % (v, u), t, [("s", t), ("x", t), ("o", t)], "let mut v = *(s.as_ptr() as *const %(v)s); " % V + OUT + "<%s as Packed>::replace%s(&mut v, k, x[0]);" % (v, u),
             lambda _, u=u: (dict(n_s=n, n_x=1, n_o=n, k=k) for k in (idx if not u else range(n))), rep, params=("k",), mut=("o",))
    case("%s replace keeps self" % v, t, [("s", t), ("x", t), ("o", t)], "let mut v = *(s.as_ptr() as *const %(v)s); let _ = <%(v)s as Packed>::replace(&mut v, k, x[0]); " % V + OUT + "v;", lambda _: (dict(n_s=n, n_x=1, n_o=n, k=k) for k in (0, n - 1)),
         lambda _, a, B: dict(trace=[], after=dict(o=B["s"]), alloc=0), params=("k",), mut=("o",))
    case("%s splat" % v, t, [("x", t), ("o", t)], OUT + "<%(v)s as Packed>::splat(x[0]);" % V, lambda _: (dict(n_x=1, n_o=n),), lambda _, a, B: dict(trace=[], after=dict(o=B["x"] * n), alloc=0), mut=("o",))
    case("%s default" % v, t, [("o", t)], OUT + "<%(v)s as Packed>::default();" % V, lambda _: (dict(n_o=n),), lambda _, a, B: dict(trace=[], after=dict(o=[z] * n), alloc=0), mut=("o",))
    case("%s coalesce of splat" % v, t, [("x", t)], "e_sc_%(t)s(1, <%(v)s as Packed>::coalesce(<%(v)s as Packed>::splat(x[0])));" % V, lambda _: (dict(n_x=1),), lambda _, a, B: dict(trace=[("sc", 1, B["x"][0])], alloc=0, nan=True))
    case("%s lane count and size" % v, t, [("s", t)], IN + "num(1, <%(v)s as Packed>::WIDTH); num(2, <%(v)s as Packed>::width(&v)); num(3, <%(t)s as Packable>::SIZE); num(4, std::mem::size_of::<%(v)s>()); num(5, <<%(v)s as Packed>::Scalar as Packable>::SIZE);" % V, lambda _: (dict(n_s=n),),
         lambda _, a, B: dict(trace=[("num", 1, n), ("num", 2, n), ("num", 3, b // 8), ("num", 4, n * b // 8), ("num", 5, b // 8)], alloc=0))
    # the same calls as a user writes them: where a vector type has an inherent function of that name, it is the one called
    un = lambda f, key: (lambda _: (a for a in f(0) if a["k"] + n <= a[key]))
    case("%s load, plain call" % v, t, [("s", t), ("o", t)], OUT + "%(v)s::load(s, k);" % V, lruns, load, params=("k",), mut=("o",))
    case("%s store, plain call" % v, t, [("s", t), ("o", t)], IN + "v.store(o, k);", sruns, store, params=("k",), mut=("o",))
    case("%s load_unchecked, plain call" % v, t, [("s", t), ("o", t)], OUT + "%(v)s::load_unchecked(s, k);" % V, un(lruns, "n_s"), load, params=("k",), mut=("o",))
    case("%s store_unchecked, plain call" % v, t, [("s", t), ("o", t)], IN + "v.store_unchecked(o, k);", un(sruns, "n_o"), store, params=("k",), mut=("o",))
    case("%s extract, plain call" % v, t, [("s", t)], IN + "e_sc_%(t)s(1, v.extract(k));" % V, lambda _: (dict(n_s=n, k=k) for k in idx),
         lambda _, a, B: dict(trace=[("sc", 1, B["s"][a["k"]])], alloc=0) if a["k"] < n else dict(panic=True), params=("k",))
    case("%s extract_unchecked, plain call" % v, t, [("s", t)], IN + "e_sc_%(t)s(1, v.extract_unchecked(k));" % V, lambda _: (dict(n_s=n, k=k) for k in range(n)),
         lambda _, a, B: dict(trace=[("sc", 1, B["s"][a["k"]])], alloc=0), params=("k",))
    for u in ("", "_unchecked"):
        case("%s replace%s, plain call" % (v, u), t, [("s", t), ("x", t), ("o", t)], "#[allow(unused_mut)] let mut v = *(s.as_ptr() as *const %(v)s); " % V + OUT + "v.replace%s(k, x[0]);" % u,
             lambda _, u=u: (dict(n_s=n, n_x=1, n_o=n, k=k) for k in (idx if not u else range(n))), rep, params=("k",), mut=("o",))
    case("%s splat, plain call" % v, t, [("x", t), ("o", t)], OUT + "%(v)s::splat(x[0]);" % V, lambda _: (dict(n_x=1, n_o=n),), lambda _, a, B: dict(trace=[], after=dict(o=B["x"] * n), alloc=0), mut=("o",))
    case("%s new" % v, t, [("s", t), ("o", t)], OUT + "%s::new(%s);" % (v, ", ".join("s[%d]" % i for i in range(n))), lambda _: (dict(n_s=n, n_o=n),), lambda _, a, B: dict(trace=[], after=dict(o=list(B["s"])), alloc=0), mut=("o",))
    # slices of every length, at their start
    l0 = lambda _: (dict(n_s=m, n_o=n, k=0) for m in sorted(set(lens) | {n + 3, 3 * n}))
    s0 = lambda _: (dict(n_s=n, n_o=m, k=0) for m in sorted(set(lens) | {n + 3, 3 * n}))
    case("%s from_slice_unaligned" % v, t, [("s", t), ("o", t)], OUT + "%(v)s::from_slice_unaligned(s);" % V, l0, load, params=("k",), mut=("o",))
    case("%s write_to_slice_unaligned" % v, t, [("s", t), ("o", t)], IN + "v.write_to_slice_unaligned(o);", s0, store, params=("k",), mut=("o",))
    case("%s from_slice_unaligned_unchecked" % v, t, [("s", t), ("o", t)], OUT + "%(v)s::from_slice_unaligned_unchecked(s);" % V, un(l0, "n_s"), load, params=("k",), mut=("o",))
    case("%s write_to_slice_unaligned_unchecked" % v, t, [("s", t), ("o", t)], IN + "v.write_to_slice_unaligned_unchecked(o);", un(s0, "n_o"), store, params=("k",), mut=("o",))
    if portable:
        case("%s load_unaligned" % v, t, [("s", t), ("o", t)], OUT + "%(v)s::load_unaligned(s);" % V, l0, load, params=("k",), mut=("o",))
        case("%s store_unaligned" % v, t, [("s", t), ("o", t)], IN + "v.store_unaligned(o);", s0, store, params=("k",), mut=("o",))
        for al in ("aligned", "unaligned"):
            case("%s load_%s_unchecked" % (v, al), t, [("s", t), ("o", t)], OUT + "%s::load_%s_unchecked(s);" % (v, al), un(l0, "n_s"), load, params=("k",), mut=("o",))
            case("%s store_%s_unchecked" % (v, al), t, [("s", t), ("o", t)], IN + "v.store_%s_unchecked(o);" % al, un(s0, "n_o"), store, params=("k",), mut=("o",))
    return list(CASES)


def scalar_cases(t, deep):
    """the default vector of each element type: aliases, and the slice-like sources"""
    del CASES[:]
    b = itcore.bits(t)
    V = dict(t=t)
    def ok(W, a, ln): return a["k"] + W <= ln
    case("%ss constructor" % t, t, [("x", t)], "obs_%(t)s(1, %(t)ss(x[0])); num(2, <%(t)ss as Packed>::WIDTH); num(3, <<%(t)s as Packable>::Vector as Packed>::WIDTH);" % V, lambda W: (dict(n_x=1),), lambda W, a, B: dict(trace=[("vec", 1, tuple(B["x"] * W)), ("num", 2, W), ("num", 3, W)], alloc=0))
    runs = lambda W: (dict(n_s=m, k=k) for m, k in [(m, k) for m in (0, W - 1, W, W + 1, 2 * W) for k in offsets(m, W)] + list(fars(W)))
    for nm, mk, m in (("slice", "s", 0), ("slice mut", "s", 1), ("iter", "it", 0)):
        pre = "let it = SIMDIter { position: 0, data: s, default: <%(t)ss as Packed>::default() }; " % V if nm == "iter" else ""
        mut = ("s",) if m else ()
        case("%s %s load" % (t, nm), t, [("s", t)], pre + "obs_%s(1, SIMDArray::load(&%s, k));" % (t, mk), runs, lambda W, a, B: dict(trace=[("vec", 1, tuple(B["s"][a["k"]:a["k"] + W]))], alloc=0) if ok(W, a, a["n_s"]) else dict(panic=True), params=("k",), mut=mut)
        case("%s %s load_unchecked" % (t, nm), t, [("s", t)], pre + "obs_%s(1, SIMDArray::load_unchecked(&%s, k));" % (t, mk), lambda W: (a for a in runs(W) if ok(W, a, a["n_s"])), lambda W, a, B: dict(trace=[("vec", 1, tuple(B["s"][a["k"]:a["k"] + W]))], alloc=0), params=("k",), mut=mut)
        case("%s %s load_scalar" % (t, nm), t, [("s", t)], pre + "e_sc_%s(1, SIMDArray::load_scalar(&%s, k)); num(2, SIMDSized::scalar_len(&%s));" % (t, mk, mk), runs, lambda W, a, B: dict(trace=[("sc", 1, B["s"][a["k"]]), ("num", 2, a["n_s"])], alloc=0) if a["k"] < a["n_s"] else dict(panic=True), params=("k",), mut=mut)
        case("%s %s load_scalar_unchecked" % (t, nm), t, [("s", t)], pre + "e_sc_%s(1, SIMDArray::load_scalar_unchecked(&%s, k));" % (t, mk), lambda W: (a for a in runs(W) if a["k"] < a["n_s"]), lambda W, a, B: dict(trace=[("sc", 1, B["s"][a["k"]])], alloc=0), params=("k",), mut=mut)
    for u in ("", "_unchecked"):
        case("%s slice mut store%s" % (t, u), t, [("x", t), ("s", t)], "let mut s = s; let v = *(x.as_ptr() as *const %ss); SIMDArrayMut::store%s(&mut s, v, k);" % (t, u), lambda W, u=u: (dict(a, n_x=W) for a in runs(W) if not u or ok(W, a, a["n_s"])),
             lambda W, a, B: dict(trace=[], after=dict(s=itcore.spliced(B["s"], a["k"], B["x"])), alloc=0) if ok(W, a, a["n_s"]) else dict(panic=True), params=("k",), mut=("s",))
        case("%s slice mut store_scalar%s" % (t, u), t, [("x", t), ("s", t)], "let mut s = s; SIMDArrayMut::store_scalar%s(&mut s, x[0], k);" % u, lambda W, u=u: (dict(a, n_x=1) for a in runs(W) if not u or a["k"] < a["n_s"]),
             lambda W, a, B: dict(trace=[], after=dict(s=itcore.spliced(B["s"], a["k"], B["x"])), alloc=0) if a["k"] < a["n_s"] else dict(panic=True), params=("k",), mut=("s",))
    return list(CASES)


def run_unit(args):
    cfg, names, tier, seed, kw = args
    sys.setrecursionlimit(20000)
    R = report.Report("C17", tier, seed)
    todo = []
    if cfg == build.PORTABLE: names = [x for x in names if x not in lanes.TYPES or lanes.TYPES[x][1] * lanes.TYPES[x][2] == 128]
    for x in names: todo += build_cases(x, tier == "thorough", cfg == build.PORTABLE) if x in lanes.TYPES else scalar_cases(x, tier == "thorough")
    try: comp = build.compile_probes(cfg, [(c.name, c.src) for c in todo], itcore.header(), tag="ac", **kw)
    except build.BuildError as e:
        R.bad("build@" + cfg, str(e)); return R.dump()
    iters.NOW["cfg"] = cfg
    mod = irparse.Module(comp.ir)
    itcore.widths_of(mod, cfg)
    prof = {(0, False): "/O0", (3, True): "/checked"}.get((kw.get("opt", 3), kw.get("debug", False)), "")
    for c in todo:
        if c.name in comp.dropped:
            R.bad("%s@%s missing" % (c.key, cfg), comp.dropped[c.name]); continue
        R.stat("operations analysed")
        for v in c.runs(itcore.WIDTHS[(cfg, c.t)]):
            R.stat("argument valuations analysed")
            try: run = itcore.analyse(mod, cfg, c, v)
            except absint.Undecided as e:
                R.undecided("analysis", "%s@%s %s: %s" % (c.key, cfg, v, e)); continue
            want = c.want(itcore.WIDTHS[(cfg, c.t)], v, run.B)
            if want.get("nan") and prof == "/checked" and c.t[0] == "f": continue        # a not-a-number splat is not equal to itself: the debug assertion may reject it
            itcore.judge(R, cfg + prof, c, v, run, want)
    return R.dump()


def check(pid, tier, seed):
    R = report.Report(pid, tier, seed)
    ts = list(lanes.TYPES)
    groups = [ts[i::6] for i in range(6)] + [list(SCALARS)]
    cfgs = build.LEVELS if tier == "thorough" else iters.QUICK_CFG + (build.PORTABLE,)
    us = [(c, g, tier, seed, {}) for c in cfgs for g in groups]
    if tier == "thorough": us += [(c, g, tier, seed, kw) for kw in (dict(opt=0), dict(debug=True)) for c in iters.QUICK_CFG for g in groups]
    else: us += [("avx2", g, tier, seed, dict(debug=True)) for g in groups] + [(build.PORTABLE, groups[0] + groups[3], tier, seed, dict(debug=True))] + [("avx2", g, tier, seed, dict(opt=0)) for g in groups[:2]]
    with cf.ProcessPoolExecutor(9) as ex:
        for d in ex.map(run_unit, us): R.merge(d)
    R.assumptions = ["rustc/LLVM translate the source faithfully to the analysed IR", "slice lengths and offsets are the enumerated boundary values, including wrap-around ones; contents are arbitrary"]
    return R.finish("Static analysis (abstract interpretation) of the compiled IR of every load, store, lane access and constructor of every vector type: the lanes read and the bytes written are compared "
                    "with the addressed ones, and out-of-range arguments must reach a panic; contents are symbolic, lengths, offsets and lane indices are enumerated boundary values.")

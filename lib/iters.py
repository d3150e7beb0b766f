"""Checks C21-C31, C34: the vector iterators, as whole call sequences (see itcore)."""
import sys, os, re
import concurrent.futures as cf
import build, lanes, irparse, absint, decide, terms as T, report, itcore
from itcore import Case, SCALARS, bits, WIDTHS

NOW = {"cfg": None, "long": True, "marks": ()}          # feature level of the running worker (widths differ); lengths the code under analysis compares with


def W_(t): return WIDTHS[(NOW["cfg"], t)]
def dflt(t): return T.const(bits(t), 0)


def lens(W, deep, long=True, mul=1):
    l = {0, 1, W - 1, W, W + 1, 2 * W, 3 * W - 1}
    if long and NOW["long"] and W <= 8: l.add(20 * W + W // 2)               # long enough for anything that works in blocks of vectors
    if deep: l |= {2, W // 2, W // 2 + 1, 2 * W - 1, 2 * W + 1, 3 * W, 3 * W + 1, 4 * W + W // 2, 5 * W + 1}
    left = NOW.get("near", NEAR) // mul
    for m in sorted({m for c in NOW["marks"] for m in (c, c * W)}):
        if (left := left - 3 * m) < 0: break
        l |= {m - 1, m, m + 1}
    return sorted(x for x in l if x >= 0)


NEAR = 14000


def marks(mod, name, W):
    """Constants which the code of a call sequence compares numbers with, masks or divides them by: a length or position on either side of each is analysed."""
    seen, todo, out = set(), [name], set()
    while todo:
        f = todo.pop()
        if f in seen or f not in mod.funcs: continue
        seen.add(f)
        F = mod.funcs[f]
        for b in F.blocks():
            for i in F.block(b):
                t = i.text.split(", !dbg")[0]
                m = re.search(r"= icmp \w+ i\d+ [^,]+, (-?\d+)$", t) or re.search(r"= (?:and|urem|udiv) (?:exact )?i\d+ [^,]+, (\d+)$", t) or re.search(r"= add (?:nsw |nuw )*i\d+ [^,]+, -(\d+)$", t)
                if m:
                    c = int(m.group(1))
                    out.add(c)
                    if "= and " in t: out.add(c + 1)
                m = re.search(r"= lshr (?:exact )?i\d+ [^,]+, (\d+)$", t)
                if m: out.add(1 << int(m.group(1)))
                if t.lstrip().startswith("switch"): out |= {int(x) for x in re.findall(r"i\d+ (-?\d+), label", t)}
                todo += re.findall(r'@"?([\w.$]+)"?\(', t)
    l = sorted(c for c in out if 3 * W + 1 < c < 1 << 48)
    if len(l) > 8:                                                           # unrolled loops compare with whole runs of constants
        l = sorted(set(l[-4:]) | {c for i, c in enumerate(l) if (i == 0 or c - l[i - 1] > 8) and (i + 1 == len(l) or l[i + 1] - c > 8)})
    return tuple(l)


def far(deep, mul=1, bufs=("n_s",), **extra):
    """positions around powers of two far beyond any enumerated length, where a counter or offset could be cut short"""
    def runs(W):
        for P in (8, 15, 16, 24, 31, 32, 40, 52):
            for r in (0, 1, W - 1) if deep else (1, 0):
                for s in (0, 1) if deep else (0,):
                    a = (1 << P) - W - s
                    n = a + 2 * W + r
                    v = dict([(b, n * mul) for b in bufs], a=a)
                    for x, f in extra.items(): v[x] = f(W, n, a) if callable(f) else f
                    yield v
        for c in NOW["marks"]:
            for m in {c, c * W}:
                if not 4 * W < m < 1 << 52: continue
                for a in (m - W, m):
                    n = m + 2 * W + 1
                    v = dict([(b, n * mul) for b in bufs], a=a)
                    for x, f in extra.items(): v[x] = f(W, n, a) if callable(f) else f
                    yield v
    return runs


KALL = lambda W, n, a: (n - a) // W + 1


def blocks(src, W, d, pos=0):
    """(full vectors, tail or None): the rule of C22"""
    out = []
    while pos + W <= len(src): out.append(tuple(src[pos:pos + W])); pos += W
    if pos < len(src):
        n = W - (len(src) - pos)
        return out, (tuple(d[:n]) + tuple(src[pos:]), n)
    return out, None


def fl(k, W, t): return tuple(T.leaf(bits(t), "f%d[%d]" % (k, i)) for i in range(W))
def gl(k, W, t): return tuple(T.leaf(bits(t), "g%d[%d]" % (k, i)) for i in range(W))


def fcalls(src, W, d, t, pos=0):
    """trace of an opaque map over the whole iteration, and the scalars it leaves"""
    full, tail = blocks(src, W, d, pos)
    tr, out = [], []
    for k, v in enumerate(full): tr.append(("f", k, v)); out += fl(k, W, t)
    if tail:
        k = len(full)
        tr.append(("f", k, tail[0])); out += fl(k, W, t)[tail[1]:]
    return tr, out


CASES = []


def case(*a, **k):
    CASES.append(Case(*a, **k))


NEXT = "for _ in 0..k { match it.next() { Some(v) => obs_%(t)s(1, v), None => num(2, 0) } } "
END = "match it.end() { Some((v, n)) => { obs_%(t)s(3, v); num(4, n) } None => num(5, 0) } "
STOP = "num(6, if it.next().is_some() { 1 } else { 0 }); match it.end() { Some(_) => num(7, 1), None => num(7, 0) } "


def want_drain(src, W, d, a, k, stop=True, pos_of=None):
    full, tail = blocks(src, W, d, a)
    tr = []
    for j in range(k): tr.append(("vec", 1, full[j]) if j < len(full) else ("num", 2, 0))
    if tail: tr += [("vec", 3, tail[0]), ("num", 4, tail[1])]
    else: tr.append(("num", 5, 0))
    if stop: tr += [("num", 6, 0), ("num", 7, 0)]
    return tr


def drain_runs(deep, early=False, starts=True):
    def runs(W):
        for n in lens(W, deep, not early):
            for a in ((0,) if not starts else sorted({0, 1, W - 1, W} if deep else {0, 1})):
                if a > n: continue
                f = (n - a) // W
                for k in ((f + 1, f + 2) if not early else range(0, f + 1) if f < 24 else (0, f - 1, f)):
                    if early and k == f and deep is False: continue
                    yield dict(n_s=n, a=a, k=k)
    return runs


def simple_runs(deep, pos=False):
    def runs(W):
        for n in lens(W, deep):
            for a in (sorted({0, 1, W}) if pos else (0,)):
                if a <= n: yield dict(n_s=n, a=a)
    return runs


def sources(t):
    """(name, expression making an iterator over s, needs mut)"""
    return [("slice", "s.simd_iter(d0)", False), ("slice_mut", "s.simd_iter_mut(d0)", True)]


def build_cases(t, deep):
    del CASES[:]
    w = bits(t); D = dict(t=t)
    # ---- C22 / C34: next, next, ..., end, and the reported numbers
    for nm, mk, m in sources(t):
        mut = ("s",) if m else ()
        case("%s.%s next* end" % (t, nm), t, [("s", t)], "let mut it = %s; it.advance(a); " % mk + (NEXT + END + STOP) % D,
             drain_runs(deep), lambda W, v, B: dict(trace=want_drain(B["s"], W, B["d0"], v["a"], v["k"]), alloc=0), params=("a", "k"), mut=mut, far=far(deep, k=KALL), pids=("C22",))
        case("%s.%s early end" % (t, nm), t, [("s", t)], "let mut it = %s; it.advance(a); " % mk + (NEXT + END + STOP) % D,
             drain_runs(True, early=True), lambda W, v, B: dict(trace=None, alloc=0, panic="may"), params=("a", "k"), mut=mut, pids=("C21",))
        case("%s.%s advance anywhere" % (t, nm), t, [("s", t)], "let mut it = %s; it.advance(a); " % mk + (NEXT + END + STOP) % D + "it.advance(b); " + NEXT % D + END % D,
             lambda W: (dict(n_s=n, a=a, b=b, k=1) for n in (0, 1, W, W + 1, 2 * W + 1) for a in (0, 1, W, n, n + 1, 2 ** 64 - 1, 2 ** 64 - W, 2 ** 63) for b in (0, 1, 2 ** 64 - 1)),
             lambda W, v, B: dict(trace=None, alloc=0, panic="may"), params=("a", "b", "k"), mut=mut, pids=("C21",))
    REP = "num(10, it.len()); num(11, it.scalar_len()); num(12, it.scalar_pos()); num(13, it.vector_pos()); num(14, it.vector_len()); num(15, it.width()); match it.size_hint() { (l, Some(h)) => { num(16, l); num(17, h) } _ => num(18, 0) } "
    def reports(n, W, k0, k, a=0):
        tr = []
        for j in range(k0, k + 1):
            pos = min(a + j * W, a + (n - a) // W * W)
            tr += [("num", 10, (n - pos) // W), ("num", 11, n), ("num", 12, pos), ("num", 13, pos // W), ("num", 14, n // W), ("num", 15, W), ("num", 16, (n - pos) // W), ("num", 17, (n - pos) // W)]
        return tr
    for nm, mk in (("slice", "s.simd_iter(d0)"), ("map", "s.simd_iter(d0).simd_map(|v| v)"), ("zip map", "(s.simd_iter(d0), s.simd_iter(d0)).zip().simd_map(|(v, _)| v)"), ("zip", "(s.simd_iter(d0), s.simd_iter(d0)).zip()")):
        case("%s.%s lengths and positions" % (t, nm), t, [("s", t)], "let mut it = %s; it.advance(a); %s for _ in 0..k { let _ = it.next(); %s } let e = it.end(); num(20, it.scalar_pos()); num(21, it.len()); num(22, it.scalar_len());" % (mk, REP, REP),
             drain_runs(deep), lambda W, v, B: dict(trace=reports(v["n_s"], W, 0, v["k"], v["a"]) + [("num", 20, v["n_s"]), ("num", 21, 0), ("num", 22, v["n_s"])], alloc=0), params=("a", "k"), far=far(deep, k=KALL), pids=("C34",))
    case("%s.map to twice the lanes" % t, t, [("s", t)], "let mut it = s.simd_iter(d0).simd_map(|v| v.be_u8s()); num(1, it.len()); num(2, it.width()); num(3, it.scalar_pos()); let _ = it.next(); num(4, it.len());",
         simple_runs(deep), lambda W, v, B: dict(trace=[("num", 1, v["n_s"] // W), ("num", 2, W * w // 8), ("num", 3, 0), ("num", 4, max(0, v["n_s"] // W - 1))], alloc=0), params=("a",), pids=("C34",)) if t not in ("f32", "f64") else None
    # ---- C23 map and collect
    case("%s.map collect" % t, t, [("s", t)], "let mut it = s.simd_iter(d0).simd_map(|v| f_%s(v)); let r = it.scalar_collect(); sl_%s(9, &r); num(8, r.len());" % (t, t),
         simple_runs(deep), lambda W, v, B: (lambda tr, o: dict(trace=tr + [("sl", 9, tuple(o)), ("num", 8, len(o))], alloc=1))(*fcalls(B["s"], W, B["d0"], t)), params=("a",), pids=("C23",))
    case("%s.collect" % t, t, [("s", t)], "let mut it = s.simd_iter(d0); let r = it.scalar_collect(); sl_%s(9, &r);" % t,
         simple_runs(deep), lambda W, v, B: dict(trace=[("sl", 9, tuple(B["s"]))], alloc=1), params=("a",), pids=("C23",))
    def chain(W, v, B):
        full, tail = blocks(B["s"], W, B["d0"])
        tr, out = [], []
        vs = [(x, 0) for x in full] + ([tail] if tail else [])
        for k, (x, n) in enumerate(vs): tr += [("f", 2 * k, x), ("f", 2 * k + 1, fl(2 * k, W, t))]; out += fl(2 * k + 1, W, t)[n:]
        return dict(trace=tr + [("sl", 9, tuple(out))], alloc=1)
    case("%s.map map collect" % t, t, [("s", t)], "let mut it = s.simd_iter(d0).simd_map(|v| f_%s(v)).simd_map(|v| f_%s(v)); let r = it.scalar_collect(); sl_%s(9, &r);" % (t, t, t), simple_runs(deep), chain, params=("a",), pids=("C23",))
    case("%s.map collect after next" % t, t, [("s", t)], "let mut it = s.simd_iter(d0).simd_map(|v| f_%s(v)); it.advance(a); if k > 0 { let _ = it.next(); } let r = it.scalar_collect(); sl_%s(9, &r);" % (t, t),
         lambda W: (dict(n_s=n, a=a, k=k) for n in lens(W, True) for a in (0, 1, W - 1, W) for k in (0, 1) if a <= n),
         lambda W, v, B: after_next(B["s"], W, B["d0"], t, v["a"], v["k"]), params=("a", "k"), far=far(deep, k=0), pids=("C23",))
    if t not in ("u8", "i8", "f32", "f64"):
        n8 = w // 8
        def wide(W, v, B):
            out = []
            for x in B["s"]: out += [T.slice_(x, 8 * i, 8) for i in range(n8)]
            return dict(trace=[("sl", 9, tuple(out))], alloc=1)
        case("%s.map to bytes collect" % t, t, [("s", t)], "let mut it = s.simd_iter(d0).simd_map(|v| v.be_u8s()); let r = it.scalar_collect(); sl_u8(9, &r);", simple_runs(deep), wide, params=("a",), pids=("C23",))
    if bits(t) >= 32:
        o = "i32" if t != "i32" else "f32"
        case("%s.map to another lane count" % t, t, [("s", t)], "let mut it = s.simd_iter(d0).simd_map(|v| %sx4::splat(0 as %s)); let r = it.scalar_collect(); num(9, r.len());" % (o, o), simple_runs(deep), lambda W, v, B: dict(trace=None, panic="may"), params=("a",), pids=("C21",))
        case("%s.map to another vector size" % t, t, [("s", t)], "let mut it = s.simd_iter(d0).simd_map(|v| u8x16::splat(7)); let r = it.scalar_collect(); num(9, r.len());", simple_runs(deep), lambda W, v, B: dict(trace=None, panic="may"), params=("a",), pids=("C21",))
        case("%s.map to bytes of another vector size" % t, t, [("s", t)], "let mut it = s.simd_iter(d0).simd_map(|v| u8x16::splat(7)); let r = it.scalar_collect(); num(9, r.len()); sl_u8(8, &r);", simple_runs(deep),
             lambda W, v, B: dict(trace=[("num", 9, len(B["s"]) * 16 // W), ("sl", 8, (T.const(8, 7),) * (len(B["s"]) * 16 // W))]), params=("a",), pids=("C23",))
    case("%s.collect_all" % t, t, [("s", t)], "let mut it = s.simd_iter(d0).simd_map(|v| f_%s(v)); it.advance(a); let r = it.scalar_collect_all(); sl_%s(9, &r);" % (t, t), simple_runs(deep, True),
         lambda W, v, B: collect_all(B["s"], W, B["d0"], t, v["a"]), params=("a",), far=far(deep), pids=("C23",))
    # ---- C24
    case("%s.do_each" % t, t, [("s", t)], "let mut it = s.simd_iter(d0); it.advance(a); it.simd_do_each(|v| obs_%s(1, v)); num(6, it.scalar_pos());" % t, simple_runs(deep, True),
         lambda W, v, B: dict(trace=[("vec", 1, x) for x in vecs(B["s"], W, B["d0"], v["a"])] + [("num", 6, len(B["s"]))], alloc=0), params=("a",), far=far(deep), pids=("C24",))
    def reduce(W, v, B, da="d1"):
        tr, acc = [], tuple(B[da])
        for k, x in enumerate(vecs(B["s"], W, B["d0"], v["a"])): tr.append(("g", k, acc, x)); acc = gl(k, W, t)
        return dict(trace=tr + [("vec", 1, acc)], alloc=0)
    case("%s.reduce" % t, t, [("s", t)], "let mut it = s.simd_iter(d0); it.advance(a); let r = it.simd_reduce(d1, |x, y| g_%s(x, y)); obs_%s(1, r);" % (t, t), simple_runs(deep, True), reduce, params=("a",), defs=2, far=far(deep), pids=("C24",))
    def mapreduce(W, v, B):
        tr, acc = [], tuple(B["d1"])
        for k, x in enumerate(vecs(B["s"], W, B["d0"], v["a"])): tr += [("f", k, x), ("g", k, acc, fl(k, W, t))]; acc = gl(k, W, t)
        return dict(trace=tr + [("vec", 1, acc)], alloc=0)
    case("%s.map reduce" % t, t, [("s", t)], "let mut it = s.simd_iter(d0).simd_map(|v| f_%s(v)); let r = it.simd_reduce(d1, |x, y| g_%s(x, y)); obs_%s(1, r);" % (t, t, t), simple_runs(deep), mapreduce, params=("a",), defs=2, pids=("C24",))
    # ---- C25
    def foreach(W, v, B):
        tr, o = fcalls(B["s"], W, B["d0"], t, v["a"])
        return dict(trace=tr + [("num", 6, len(B["s"]))], after=dict(s=itcore.spliced(B["s"], v["a"], o)), alloc=0)
    case("%s.for_each" % t, t, [("s", t)], "let mut it = s.simd_iter_mut(d0); it.advance(a); it.simd_for_each(|v| *v = f_%s(*v)); num(6, it.scalar_pos());" % t, simple_runs(deep, False), foreach, params=("a",), mut=("s",), pids=("C25",))
    case("%s.for_each after advance" % t, t, [("s", t)], "let mut it = s.simd_iter_mut(d0); it.advance(a); it.simd_for_each(|v| *v = f_%s(*v)); num(6, it.scalar_pos());" % t,
         lambda W: (dict(n_s=n, a=a) for n in lens(W, True) for a in (1, W - 1, W, W + 1, 2 * W) if a <= n), foreach, params=("a",), mut=("s",), far=far(deep), pids=("C25",))
    # ---- C26 fill
    def fill(W, v, B, all_=False):
        need = len(B["s"])
        tr, o = fcalls(B["s"], W, B["d0"], t)
        if all_: o = [x for k in range(len(tr)) for x in fl(k, W, t)]
        if v["n_o"] < len(o): return dict(trace=None, panic="may" if v["n_o"] else "may", after=dict(o="any"))
        return dict(trace=tr + [("num", 8, v["n_o"]), ("sl", 9, tuple(o)), ("num", 7, 0)], after=dict(o=o + [None] * (v["n_o"] - len(o))), alloc=0)
    def fill_runs(W):
        for n in lens(W, deep):
            for o in sorted({max(0, n - 1), n, n + 1, n + W, -(-n // W) * W, 0} if deep else {max(0, n - 1), n, n + W, -(-n // W) * W}): yield dict(n_s=n, n_o=o)
    for nm in ("fill", "fill_all"):
        case("%s.%s" % (t, nm), t, [("s", t), ("o", t)], "let p = o.as_ptr() as usize; let mut it = s.simd_iter(d0).simd_map(|v| f_%s(v)); let l = if %s { s.len() } else { (s.len() + W - 1) / W * W }; let r = it.scalar_%s(o); num(8, r.len()); sl_%s(9, &r[..l]); num(7, r.as_ptr() as usize - p);".replace("W", "<%ss as Packed>::WIDTH" % t) % (t, "true" if nm == "fill" else "false", nm, t),
             fill_runs, (lambda a: lambda W, v, B: fill(W, v, B, a))(nm == "fill_all"), mut=("o",), pids=("C26",))
    # ---- C30 containers
    full = lambda W, v, B: dict(trace=[("num", 1, len(B["s"]) // W), ("num", 2, len(B["s"])), ("num", 3, 0)] + want_drain(B["s"], W, B["d0"], 0, len(B["s"]) // W + 1), alloc=0)
    LP = "num(1, it.len()); num(2, it.scalar_len()); num(3, it.scalar_pos()); let k = it.scalar_len() / it.width() + 1; " + (NEXT + END + STOP) % D
    for nm, pre, mk, m in (("slice ref", "", "(&s).simd_iter(d0)", 0), ("slice", "", "s.simd_iter(d0)", 0), ("slice mut", "", "s.simd_iter_mut(d0)", 1), ("slice mut ref", "let mut q = s; ", "(&mut q).simd_iter_mut(d0)", 1)):
        case("%s.%s" % (t, nm), t, [("s", t)], pre + "let mut it = %s; " % mk + LP, lambda W: (dict(n_s=n) for n in lens(W, deep)), full, mut=("s",) if m else (), pids=("C30",))
    own = lambda n: (lambda W, v, B: dict(full(W, v, B), alloc=n))
    case("%s.Vec into" % t, t, [("s", t)], "let q: Vec<%s> = s.to_vec(); let mut it = q.into_simd_iter(d0); " % t + LP, lambda W: (dict(n_s=n) for n in lens(W, deep)), lambda W, v, B: dict(full(W, v, B), alloc=None), pids=("C30",))
    case("%s.Vec ref" % t, t, [("s", t)], "let q: Vec<%s> = s.to_vec(); { let mut it = q.simd_iter(d0); " % t + LP + "}", lambda W: (dict(n_s=n) for n in lens(W, deep)), lambda W, v, B: dict(full(W, v, B), alloc=None), pids=("C30",))
    case("%s.Vec mut" % t, t, [("s", t)], "let mut q: Vec<%s> = s.to_vec(); { let mut it = q.simd_iter_mut(d0); " % t + LP + "}", lambda W: (dict(n_s=n) for n in lens(W, deep)), lambda W, v, B: dict(full(W, v, B), alloc=None), pids=("C30",))
    case("%s.Box ref" % t, t, [("s", t)], "let q: Box<[%s]> = Box::from(&s[..]); { let mut it = q.simd_iter(d0); " % t + LP + "}", lambda W: (dict(n_s=n) for n in lens(W, deep)), lambda W, v, B: dict(full(W, v, B), alloc=None), pids=("C30",))
    case("%s.Box mut" % t, t, [("s", t)], "let mut q: Box<[%s]> = Box::from(&s[..]); { let mut it = q.simd_iter_mut(d0); " % t + LP + "}", lambda W: (dict(n_s=n) for n in lens(W, deep)), lambda W, v, B: dict(full(W, v, B), alloc=None), pids=("C30",))
    for N in (1, 3, 4, 8, 17, 32):
        case("%s.array %d ref" % (t, N), t, [("s", t)], "let q: &[%s; %d] = &*(s.as_ptr() as *const [%s; %d]); let mut it = q.simd_iter(d0); " % (t, N, t, N) + LP, lambda W, N=N: (dict(n_s=N),), full, pids=("C30",))
        case("%s.array %d mut" % (t, N), t, [("s", t)], "let q: &mut [%s; %d] = &mut *(s.as_mut_ptr() as *mut [%s; %d]); let mut it = q.simd_iter_mut(d0); " % (t, N, t, N) + LP, lambda W, N=N: (dict(n_s=N),), full, mut=("s",), pids=("C30",))
    # ---- C27 zips
    others = [x for x in ("u32", "i32", "f32", "u64", "f64", "i16", "u16", "u8", "i8") if x != t]
    def zdrain(k, ts):
        vs = ", ".join("v%d" % i for i in range(k))
        ob = lambda base: " ".join("obs_%s(%d, v%d);" % (ts[i], base + i, i) for i in range(k))
        return ("for _ in 0..k { match it.next() { Some((%s)) => { %s } None => num(50, 0) } } match it.end() { Some(((%s), n)) => { %s num(60, n); } None => num(61, 0) } "
                "num(62, it.next().is_some() as usize); num(63, it.end().is_some() as usize);" % (vs, ob(0), vs, ob(100)))
    def zwant(k, ts):
        def want(W, v, B):
            ns = [v["n_b%d" % i] for i in range(k)]
            if len(set(ns)) > 1 or len(set(W_(x) for x in ts)) > 1: return dict(trace=None, panic=True)
            bl = [blocks(B["b%d" % i], W, B["d%d" % i], v.get("a", 0)) for i in range(k)]
            tr = []
            for j in range(v["k"]):
                if j < len(bl[0][0]): tr += [("vec", i, bl[i][0][j]) for i in range(k)]
                else: tr.append(("num", 50, 0))
            if bl[0][1]: tr += [("vec", 100 + i, bl[i][1][0]) for i in range(k)] + [("num", 60, bl[0][1][1])]
            else: tr.append(("num", 61, 0))
            return dict(trace=tr + [("num", 62, 0), ("num", 63, 0)], alloc=0)
        return want
    def zruns(k, ls, extra=False):
        def runs(W):
            for n in ls(W):
                yield dict([("n_b%d" % i, n) for i in range(k)], k=n // W + 1)
            if extra:
                for n, i, m in ((0, k - 1, 1), (W, k - 1, W + 1), (W + 1, 1, W), (2 * W - 1, k - 1, W), (1, 1, 0), (W + 1, 1, W + 2), (3 * W, k - 1, 2 * W)):
                    v = dict([("n_b%d" % j, n) for j in range(k)], k=n // W + 1); v["n_b%d" % i] = m
                    yield v
        return runs
    def zcase(nm, k, ts, ls, extra=False, mk=None, pids=("C27",)):
        its = ", ".join((mk or (lambda i: "b%d.simd_iter(d%d)" % (i, i)))(i) for i in range(k))
        case("%s.%s" % (t, nm), t, [("b%d" % i, ts[i]) for i in range(k)], "let mut it = (%s).zip(); " % its + zdrain(k, ts), zruns(k, ls, extra), zwant(k, ts), params=("k",), defs=k, dts=list(ts), pids=pids)
    zcase("zip 2", 2, (t, t), lambda W: lens(W, deep), True)
    case("%s.zip 2 after advance" % t, t, [("b0", t), ("b1", t)], "let mut it = (b0.simd_iter(d0), b1.simd_iter(d1)).zip(); it.advance(a); " + zdrain(2, (t, t)),
         lambda W: (dict(n_b0=n, n_b1=n, a=a, k=(n - a) // W + 1) for n in lens(W, True) for a in (1, W - 1, W, W + 1) if a <= n), zwant(2, (t, t)), params=("a", "k"), defs=2, dts=[t, t], far=far(deep, bufs=("n_b0", "n_b1"), k=KALL), pids=("C27",))
    case("%s.zip of consumed iterators" % t, t, [("b0", t), ("b1", t)], "let mut x = b0.simd_iter(d0); let mut y = b1.simd_iter(d1); x.advance(a); y.advance(b); let mut it = (x, y).zip(); " + zdrain(2, (t, t)),
         lambda W: (dict(n_b0=n, n_b1=n, a=a, b=b, k=k) for n in lens(W, False, False) for a in (0, 1, W, n + 1) for b in (0, 1, W, n) for k in (0, 1, n // W + 1)), lambda W, v, B: dict(trace=None, panic="may"), params=("a", "b", "k"), defs=2, dts=[t, t], pids=("C21",))
    for x in others: zcase("zip with %s" % x, 2, (t, x), lambda W: (0, 1, W, W + 1), False)
    for k in range(3, 14): zcase("zip %d" % k, k, (t,) * k, (lambda W: lens(W, False, False)) if deep else (lambda W: (W - 1, W, 2 * W + 1)), True)
    def zmap(kind):
        def want(W, v, B):
            x, y = vecs(B["b0"], W, B["d0"]), vecs(B["b1"], W, B["d1"])
            n = blocks(B["b0"], W, B["d0"])[1]; n = n[1] if n else 0
            tr = [("g", k, a, b) for k, (a, b) in enumerate(zip(x, y))]
            out = [e for k in range(len(x)) for e in gl(k, W, t)[(n if k == len(x) - 1 else 0):]]
            if kind == "collect": return dict(trace=tr + [("sl", 9, tuple(out))], alloc=1)
            if kind == "fill": return dict(trace=tr + [("num", 8, len(out))], after=dict(o=out), alloc=0)
            if kind == "do_each": return dict(trace=[z for a, b in zip(x, y) for z in (("vec", 0, a), ("vec", 1, b))], alloc=0)
            if kind == "map reduce":
                tr, acc = [], tuple(B["d2"])
                for k, (a, b) in enumerate(zip(x, y)): tr += [("g", 2 * k, a, b), ("g", 2 * k + 1, acc, gl(2 * k, W, t))]; acc = gl(2 * k + 1, W, t)
                return dict(trace=tr + [("vec", 1, acc)], alloc=0)
            acc = tuple(B["d2"]); tr = []
            for k, (a, b) in enumerate(zip(x, y)): tr += [("vec", 0, a), ("g", k, acc, b)]; acc = gl(k, W, t)
            return dict(trace=tr + [("vec", 1, acc)], alloc=0)
        return want
    Z = "let mut it = (b0.simd_iter(d0), b1.simd_iter(d1)).zip()"
    for kind, body in (("collect", ".simd_map(|(x, y)| g_%(t)s(x, y)); let r = it.scalar_collect(); sl_%(t)s(9, &r);"), ("fill", ".simd_map(|(x, y)| g_%(t)s(x, y)); let r = it.scalar_fill(o); num(8, r.len());"),
                       ("do_each", "; it.simd_do_each(|(x, y)| { obs_%(t)s(0, x); obs_%(t)s(1, y) });"), ("reduce", "; let r = it.simd_reduce(d2, |a, (x, y)| { obs_%(t)s(0, x); g_%(t)s(a, y) }); obs_%(t)s(1, r);"),
                       ("map reduce", ".simd_map(|(x, y)| g_%(t)s(x, y)); let r = it.simd_reduce(d2, |a, v| g_%(t)s(a, v)); obs_%(t)s(1, r);")):
        case("%s.zip %s" % (t, kind), t, [("b0", t), ("b1", t)] + ([("o", t)] if kind == "fill" else []), Z + body % D, lambda W: (dict(n_b0=n, n_b1=n, n_o=n) for n in lens(W, deep)), zmap(kind), defs=3, mut=("o",) if kind == "fill" else (),
             pids=("C27", "C26") if kind == "fill" else ("C27", "C24") if kind in ("reduce", "do_each", "map reduce") else ("C27", "C23"))
    zcase("zip of iter_mut", 2, (t, t), lambda W: lens(W, False), False, mk=lambda i: ("b0.simd_iter_mut(d0)", "b1.simd_iter(d1)")[i]) if False else None
    # ---- C28 strides
    def sdrain(names):
        return " ".join("{ let mut it = %s; it.advance(a); num(30, %d); " % (x, j) + (NEXT + END + STOP) % D + "}" for j, x in enumerate(names))
    def swant(n, W, v, B, defs=None, alloc=0):
        tr = []
        for j in range(n):
            e = B["s"][j::n]
            tr += [("num", 30, j)] + want_drain(e, W, B[(defs or (lambda j: "d%d" % j))(j)], v["a"], v["k"])
        return dict(trace=tr, alloc=alloc)
    def sruns(n):
        def runs(W):
            ls = sorted({x for m in lens(W, deep, mul=4 * n) for x in (m * n, m * n + 1, m * n + n - 1)})
            for N in ls:
                for a in ((0, 1, W) if deep else (0, 1)): yield dict(n_s=N, a=a, k=N // n // W + 2)
        return runs
    for n, nm in ((2, "two"), (3, "three"), (4, "four"), (9, "nine")):
        its = ["i%d" % j for j in range(n)]
        case("%s.stride_%s" % (t, nm), t, [("s", t)], "let (%s) = s.stride_%s((%s)); " % (", ".join(its), nm, ", ".join("d%d" % j for j in range(n))) + sdrain(its), sruns(n), (lambda n: lambda W, v, B: swant(n, W, v, B))(n), params=("a", "k"), defs=n, far=far(deep, mul=n, k=KALL), pids=("C28",))
        def scol(W, v, B, n=n):
            tr = [("sl", 40 + j, tuple(B["s"][j::n])) for j in range(n)]
            return dict(trace=tr, alloc=n)
        case("%s.stride_%s collect" % (t, nm), t, [("s", t)], "let (%s) = s.stride_%s((%s)); " % (", ".join("mut " + x for x in its), nm, ", ".join("d%d" % j for j in range(n))) + " ".join("{ let r = %s.scalar_collect(); sl_%s(%d, &r); }" % (x, t, 40 + j) for j, x in enumerate(its)),
             sruns(n), scol, params=("a", "k"), defs=n, pids=("C28",))
        def szip(W, v, B, n=n):
            N = len(B["s"])
            if N % n: return dict(trace=None, panic="may")
            es = [B["s"][j::n] for j in range(n)]
            vs = [vecs(e, W, B["d%d" % j]) for j, e in enumerate(es)]
            tr = []
            for k in range(len(vs[0])): tr += [("vec", j, vs[j][k]) for j in range(n)]
            return dict(trace=tr, alloc=0)
        case("%s.stride_%s zip" % (t, nm), t, [("s", t)], "let mut it = s.stride_%s((%s)).zip(); it.simd_do_each(|(%s)| { %s });" % (nm, ", ".join("d%d" % j for j in range(n)), ", ".join(its), " ".join("obs_%s(%d, %s);" % (t, j, x) for j, x in enumerate(its))), sruns(n), szip, params=("a", "k"), defs=n, pids=("C28",))
    def vruns(W):
        for n in (1, 2, 3, 5, 7, 8) if deep else (1, 3, 5):
            for N in sorted({x for m in lens(W, deep, mul=4 * n) for x in (m * n, m * n + n - 1)}): yield dict(n_s=N, c=n, a=0, k=N // n // W + 2)
    case("%s.stride" % t, t, [("s", t)], "let ds = [d0, d1, d2, d0, d1, d2, d0, d1]; for (j, mut it) in s.stride(c, &ds[..c]).into_iter().enumerate() { num(30, j); it.advance(a); %s }" % ((NEXT + END + STOP) % D), vruns,
         lambda W, v, B: swant(v["c"], W, v, B, lambda j: "d%d" % (j % 3), None), params=("a", "k", "c"), defs=3, pids=("C28",))
    case("%s.stride defaults mismatch" % t, t, [("s", t)], "let ds = [d0, d1, d2, d0, d1, d2, d0, d1]; let v = s.stride(c, &ds[..k]); num(1, v.len());", lambda W: (dict(n_s=3 * W, c=c, k=k) for c in (0, 1, 3, 5, 2 ** 64 - 1) for k in (0, 1, 2, 4, 8)),
         lambda W, v, B: dict(trace=[("num", 1, v["c"])]) if v["c"] == v["k"] else dict(trace=None, panic=True), params=("c", "k"), defs=3, pids=("C28",))
    case("%s.stride heap defaults" % t, t, [("s", t)], "let mut ds = Vec::with_capacity(k); for _ in 0..k { ds.push(d0); } for (j, mut it) in s.stride(c, &ds[..]).into_iter().enumerate() { num(30, j); %s }" % ((NEXT + END + STOP) % D), lambda W: (dict(n_s=c + 1, c=c, k=k, a=0) for c in (1, 2, 3) for k in (0, 1, 2, 3)),
         lambda W, v, B: dict(trace=None, panic=True) if v["c"] != v["k"] else dict(swant(v["c"], W, v, B, lambda j: "d0", None), alloc=None), params=("c", "k"), pids=("C28",))
    case("%s.stride of iter" % t, t, [("s", t)], "let z = s.simd_iter(d0); let (i0, i1) = z.stride_two((d0, d1)); " + sdrain(["i0", "i1"]), sruns(2), lambda W, v, B: swant(2, W, v, B), params=("a", "k"), defs=2, pids=("C28",))
    def nested(W, v, B):
        tr = []
        for j in range(2):
            e = B["s"][0::2][j::2]
            tr += [("num", 30, j)] + want_drain(e, W, B["d%d" % j], v["a"], v["k"])
        return dict(trace=tr, alloc=0)
    case("%s.stride of stride" % t, t, [("s", t)], "let (y, _) = s.stride_two((d0, d1)); let (i0, i1) = y.stride_two((d0, d1)); " + sdrain(["i0", "i1"]), sruns(4), nested, params=("a", "k"), defs=2, pids=("C28",))
    def sload(W, v, B):
        e = B["s"][1::3]
        return dict(trace=[("vec", 1, tuple(e[v["k"]:v["k"] + W]))], alloc=0) if v["k"] + W <= len(e) else dict(trace=None, panic=True)
    offs = lambda W, n: sorted({0, 1, W, max(0, n - W), max(0, n - W + 1), n, 2 ** 63, 2 ** 64 - 1, 2 ** 64 - W, (2 ** 64 - 1) // 3, (2 ** 64 - 1) // 3 - W + 2})
    lruns = lambda W: (dict(n_s=N, k=k) for N in sorted({0, 1, 3 * W - 1, 3 * W, 3 * W + 1, 6 * W + 2}) for k in offs(W, len(range(1, N, 3))))
    case("%s.stride load" % t, t, [("s", t)], "let (_, y, _) = s.stride_three((d0, d0, d0)); obs_%s(1, y.load(k));" % t, lruns, sload, params=("k",), pids=("C28",))
    case("%s.stride load_scalar" % t, t, [("s", t)], "let (_, y, _) = s.stride_three((d0, d0, d0)); e_sc_%s(1, y.load_scalar(k));" % t, lruns,
         lambda W, v, B: dict(trace=[("sc", 1, B["s"][1::3][v["k"]])], alloc=0) if v["k"] < len(B["s"][1::3]) else dict(trace=None, panic=True), params=("k",), pids=("C28",))
    def szw(W, v, B):
        src = B["s"][v.get("b", 0):]; src = src[min(len(src), 2 * v.get("a", 0)):]
        tr = []
        def pairs(k):
            nonlocal src
            for j in range(k):
                if 2 * W <= len(src): tr.extend([("vec", 1, tuple(src[0:2 * W:2])), ("vec", 2, tuple(src[1:2 * W:2]))]); src = src[2 * W:]
                else: tr.append(("num", 3, 0))
        pairs(v["k"])
        src = src[min(len(src), 2 * v.get("c", 0)):]
        pairs(1 if "c" in v else 0)
        e, o = tuple(src[0::2]), tuple(src[1::2])
        n = W - len(e)
        if src: tr += [("vec", 4, (None,) * n + e), ("vec", 5, (None,) * n + o + (None,) * (len(e) - len(o))), ("num", 6, n)]
        else: tr.append(("num", 7, 0))
        return dict(trace=tr, alloc=0)
    SZN = "for _ in 0..%%s { match it.next() { Some((x, y)) => { obs_%(t)s(1, x); obs_%(t)s(2, y); } None => num(3, 0) } } " % D
    SZE = "match it.end() { Some(((x, y), n)) => { obs_%(t)s(4, x); obs_%(t)s(5, y); num(6, n) } None => num(7, 0) } " % D
    SZ = "let mut it = s.simd_iter(d0).stride_zip(); " + SZN % "k" + SZE
    SZB = "let mut it = s.simd_iter(d0); it.advance(b); let mut it = it.stride_zip(); it.advance(a); "
    if t in ("u8", "i8", "u16", "i16", "u32", "i32"):
        szn = lambda W: sorted({x + y for x in (0, W, 2 * W, 3 * W, 4 * W) for y in (-2, -1, 0, 1, 2) if x + y >= 0})
        case("%s.stride_zip" % t, t, [("s", t)], SZ, lambda W: (dict(n_s=n, k=n // (2 * W) + x) for n in szn(W) for x in (0, 1, 2)), szw, params=("k",), pids=("C28",))
        case("%s.stride_zip started, advanced and exhausted" % t, t, [("s", t)], SZB + SZN % "k" + "it.advance(c); " + SZN % "1" + SZE,
             lambda W: (dict(n_s=n + b, a=a, b=b, c=c, k=k) for n in szn(W) for b in (0, 1) for a in (0, 1, 2 ** 63) if a < W or b == 0 for k in sorted({0, max(0, n - 2 * a) // (2 * W) + 1}) for c in (0, 1, W, 2 ** 64 - 1 if n % 2 else 2 ** 63)
                        if max(0, max(0, n - 2 * a) - 2 * W * k - 2 * c) < 2 * W or k == 0 and max(0, max(0, n - 2 * a) - 2 * c) < 4 * W), szw, params=("a", "b", "c", "k"), pids=("C28",))
        case("%s.stride_zip odd or early" % t, t, [("s", t)], SZ + "it.advance(a); " + "let _ = it.next(); let _ = it.end();", lambda W: (dict(n_s=n, k=k, a=a) for n in lens(W, True, False) for k in (0, 1, 3) for a in (0, 1, 2 ** 63, 2 ** 64 - 1)), lambda W, v, B: dict(trace=None, panic="may"), params=("k", "a"), pids=("C21",))
        def szfin(W, v, B):
            n = (len(B["s"]) - v["b"]) // 2
            return dict(trace=[("num", 30, 0), ("num", 31, 1), ("num", 3, 0), ("num", 7, 0)], alloc=0)
        case("%s.stride_zip default" % t, t, [("s", t)], "let it = s.simd_iter(d0).stride_zip(); let (x, y) = it.default(); obs_%(t)s(1, x); obs_%(t)s(2, y); num(3, it.size());" % D, lambda W: (dict(n_s=n) for n in (0, W + 1)), lambda W, v, B: dict(trace=[("vec", 1, tuple(B["d0"])), ("vec", 2, tuple(B["d0"])), ("num", 3, w // 8)], alloc=0), pids=("C28",))
        case("%s.stride_zip finalize" % t, t, [("s", t)], SZB + "it.finalize(); num(30, it.len()); num(31, (it.scalar_pos() >= it.scalar_len()) as usize); " + SZN % "1" + SZE, lambda W: (dict(n_s=n + b, a=a, b=b) for n in szn(W) for b in (0, 1, W) for a in (0, 1, n // 2) if 2 * a <= n), szfin, params=("a", "b"), pids=("C28",))
    # ---- C34 for strides
    def srep(W, v, B):
        tr = []
        n = len(B["s"])
        e = len(range(1, n, 3))
        for j in range(v["k"] + 1):
            pos = min(j * W, e // W * W)
            tr += [("num", 10, (e - pos) // W), ("num", 11, e), ("num", 12, pos), ("num", 13, pos // W), ("num", 14, e // W), ("num", 15, W), ("num", 16, (e - pos) // W), ("num", 17, (e - pos) // W)]
        return dict(trace=tr, alloc=0)
    case("%s.stride lengths and positions" % t, t, [("s", t)], "let (_, mut it, _) = s.stride_three((d0, d0, d0)); %s for _ in 0..k { let _ = it.next(); %s }" % (REP, REP), lambda W: (dict(n_s=n, k=n // 3 // W + 1) for m in lens(W, deep, mul=9) for n in (3 * m, 3 * m + 1, 3 * m + 2)), srep, params=("k",), pids=("C34",))
    # ---- C34: the methods of the standard Iterator trait agree with next
    for nm, mk, st in (("slice", "s.simd_iter(d0)", 1), ("slice_mut", "s.simd_iter_mut(d0)", 1), ("map", "s.simd_iter(d0).simd_map(|v| v)", 1), ("zip map", "(s.simd_iter(d0), s.simd_iter(d0)).zip().simd_map(|(v, _)| v)", 1), ("zip", "(s.simd_iter(d0), s.simd_iter(d0)).zip()", 1),
                       ("stride", "s.stride_two((d0, d0)).0", 2), ("adapter", "{ let it: SIMDAdapter<_, %ss> = SIMDAdapter { iter: s.iter().map(|x| *x), scratch: d0, default: d0, position: 0 }; it }" % t, 1)):
        mu = ("s",) if nm == "slice_mut" else ()
        O = "obs_%s(%%d, v%s)" % (t, ".1" if nm == "zip" else "")
        def wstd(W, v, B, st=st):
            full, _ = blocks(B["s"][::st], W, B["d0"], 0)
            r = full[v["k"] + 1:]
            return dict(trace=[("vec", 1, full[v["k"]]) if v["k"] < len(full) else ("num", 2, 0), ("num", 3, len(r)), ("num", 4, max(0, len(r) - 1)), ("num", 5, min(len(r), 2)), ("vec", 6, r[-1]) if r else ("num", 7, 0)], alloc=0)
        case("%s.%s standard methods" % (t, nm), t, [("s", t)], "let mut it = %s; match it.nth(k) { Some(v) => %s, None => num(2, 0) } num(3, it.len()); num(4, it.by_ref().skip(1).len()); num(5, it.by_ref().zip(0..2usize).len()); match it.last() { Some(v) => %s, None => num(7, 0) }" % (mk, O % 1, O % 6),
             lambda W, st=st: (dict(n_s=st * n, k=k) for n in lens(W, deep, False, st) for k in (0, 1) if n < 4 * W + 1), wstd, params=("k",), mut=mu, pids=("C34",))
        case("%s.%s standard fold and count" % (t, nm), t, [("s", t)], "let mut it = %s; let c = it.by_ref().take(2).fold(0usize, |c, v| { %s; c + 1 }); num(2, c); num(3, it.count());" % (mk, O % 1),
             lambda W, st=st: (dict(n_s=st * n) for n in lens(W, deep, False, st) if n < 4 * W + 1), lambda W, v, B, st=st: (lambda full: dict(trace=[("vec", 1, x) for x in full[:2]] + [("num", 2, min(2, len(full))), ("num", 3, max(0, len(full) - 2))], alloc=0))(blocks(B["s"][::st], W, B["d0"], 0)[0]), mut=mu, pids=("C34",))
    # ---- C29 adaptors
    def unp(W, v, B):
        src = B["s"][v["a"]:]
        tr = [("sc", 1, x) for x in src[:v["k"]]] + [("num", 2, 0)] * max(0, v["k"] - len(src))
        rest = v["a"] + min(v["k"], len(src))
        full, tail = blocks(B["s"], W, B["d0"], rest)
        tr += [("vec", 1, x) for x in full] + ([("vec", 3, tail[0]), ("num", 4, tail[1])] if tail else [("num", 5, 0)])
        return dict(trace=tr, alloc=0)
    case("%s.unpack" % t, t, [("s", t)], "let mut z = s.simd_iter(d0); z.advance(a); let mut u = z.unpack(); for _ in 0..k { match u.next() { Some(x) => e_sc_%(t)s(1, x), None => num(2, 0) } } let mut it = u.pack(); while let Some(v) = it.next() { obs_%(t)s(1, v) } " % D + END % D,
         lambda W: (dict(n_s=n, a=a, k=k) for n in lens(W, deep) for a in (0, 1, W) if a <= n for k in (0, 1, W, n - a, n - a + 1)), unp, params=("a", "k"), far=far(deep, k=lambda W, n, a: W + 1), pids=("C29",))
    case("%s.unpack of stride" % t, t, [("s", t)], "let (_, z) = s.stride_two((d0, d0)); let mut u = z.unpack(); for _ in 0..k { match u.next() { Some(x) => e_sc_%(t)s(1, x), None => num(2, 0) } } " % D,
         lambda W: (dict(n_s=n, k=n // 2 + 1) for n in lens(W, deep)), lambda W, v, B: dict(trace=[("sc", 1, x) for x in B["s"][1::2]] + [("num", 2, 0)], alloc=0), params=("k",), pids=("C29",))
    def unr(W, v, B):
        if v["m"] > 8: return dict(trace=None, panic=True)
        full, tail = blocks(B["s"], W, B["d0"])
        tr, i = [("num", 1, v["m"])], 0
        for _ in range(v["k"]):
            c = full[i:i + v["m"]]; i += len(c)
            if c: tr += [("num", 2, len(c))] + [("vec", 3, x) for x in c]
            else: tr.append(("num", 4, 0))
            if v["m"]: tr.append(("num", 7, i // v["m"]))
        if i >= len(full): tr += [("vec", 3, tail[0]), ("num", 4, tail[1])] if tail else [("num", 5, 0)]
        else: tr += [("vec", 3, full[i]), ("num", 4, 0)]
        return dict(trace=tr, alloc=0)
    case("%s.unroll" % t, t, [("s", t)], "let mut it = s.simd_iter(d0); { let mut u = it.unroll(m); num(1, u.chunk_len()); for _ in 0..k { match u.next() { Some(c) => { num(2, c.len()); for v in c { obs_%(t)s(3, *v) } } None => num(4, 0) } if m > 0 { num(7, u.chunk_pos()) } } } " % D + END % D,
         lambda W: (dict(n_s=n, m=m, k=n // W // max(m, 1) + 1) for n in (0, 1, W, 2 * W, 3 * W + 1, 8 * W, 9 * W - 1, 17 * W) for m in ((0, 1, 2, 3, 4, 5, 7, 8, 9, 2 ** 63) if deep else (1, 2, 3, 8, 9)) if m or n < W), unr, params=("m", "k"), pids=("C29",))
    AD = AD_ = "let mut it: SIMDAdapter<_, %ss> = SIMDAdapter { iter: s.iter().map(|x| *x), scratch: d0, default: d0, position: 0 }; " % t
    case("%s.adapter" % t, t, [("s", t)], AD + "it.advance(a); " + (NEXT + END + STOP) % D, drain_runs(deep), lambda W, v, B: dict(trace=want_drain(B["s"], W, B["d0"], v["a"], v["k"]), alloc=0), params=("a", "k"), pids=("C29",))
    case("%s.adapter lengths and positions" % t, t, [("s", t)], AD + "it.advance(a); %s for _ in 0..k { let _ = it.next(); %s }" % (REP, REP), drain_runs(deep), lambda W, v, B: dict(trace=reports(v["n_s"], W, 0, v["k"], v["a"]), alloc=0), params=("a", "k"), pids=("C34",))
    case("%s.adapter collect" % t, t, [("s", t)], AD + "let mut j = it.simd_map(|v| f_%s(v)); let r = j.scalar_collect(); sl_%s(9, &r);" % (t, t), simple_runs(deep), lambda W, v, B: (lambda tr, o: dict(trace=tr + [("sl", 9, tuple(o))], alloc=1))(*fcalls(B["s"], W, B["d0"], t)), params=("a",), pids=("C29",))
    case("%s.adapter early end" % t, t, [("s", t)], AD + "it.advance(a); " + (NEXT + END + STOP) % D + "it.advance(a); " + NEXT % D, drain_runs(True, early=True), lambda W, v, B: dict(trace=None, panic="may"), params=("a", "k"), pids=("C21",))
    # ---- finalising, defaults, clones
    V8 = lambda n: "num(%d, it.scalar_pos()); num(%d, it.len()); " % (n, n + 1)
    kinds = [("slice", "s.simd_iter(d0)", 1, 0), ("slice_mut", "s.simd_iter_mut(d0)", 1, 0), ("stride", "s.stride_two((d0, d0)).1", 2, 1), ("map", "s.simd_iter(d0).simd_map(|v| f_%s(v))" % t, 1, 0), ("zip map", "(s.simd_iter(d0), s.simd_iter(d0)).zip().simd_map(|(v, _)| f_%s(v))" % t, 1, 0), ("adapter", AD_[len("let mut it: SIMDAdapter<_, %ss> = " % t):-2], 1, 0)]
    def fin(mul, off):
        def want(W, v, B):
            e = len(B["s"][off::mul])
            return dict(trace=[("num", 30, max(e, v["a"])), ("num", 31, 0), ("num", 6, 0), ("num", 7, 0), ("num", 32, max(e, v["a"])), ("num", 33, 0)], alloc=0)
        return want
    for nm, mk, mul, off in kinds:
        ty = ": SIMDAdapter<_, %ss>" % t if nm == "adapter" else ""
        case("%s.%s finalize" % (t, nm), t, [("s", t)], "let mut it%s = %s; it.advance(a); it.finalize(); " % (ty, mk) + V8(30) + STOP + V8(32),
             lambda W, mul=mul, nm=nm: (dict(n_s=n * mul, a=a) for n in lens(W, deep, mul=4) for a in (0, 1, W, n) if a <= n), fin(mul, off), params=("a",), mut=("s",) if nm == "slice_mut" else (), pids=("C22",))
    case("%s.zip finalize" % t, t, [("s", t)], "let mut it = (s.simd_iter(d0), s.simd_iter(d0)).zip(); it.advance(a); it.finalize(); " + V8(30) + STOP + V8(32), lambda W: (dict(n_s=n, a=a) for n in lens(W, deep, mul=4) for a in (0, 1, W, n) if a <= n), fin(1, 0), params=("a",), pids=("C22",))
    case("%s.reported defaults" % t, t, [("s", t)], "{ let it = s.simd_iter(d0); obs_%(t)s(1, it.default()); num(2, it.size()); } { let it = s.stride_three((d0, d1, d2)); obs_%(t)s(3, it.0.default()); obs_%(t)s(4, it.1.default()); obs_%(t)s(5, it.2.default()); num(6, it.1.size()); num(7, it.1.width()); } "
         "{ let it = (s.simd_iter(d0), s.simd_iter(d1), s.simd_iter(d2)).zip(); let (x, y, z) = it.default(); obs_%(t)s(8, x); obs_%(t)s(9, y); obs_%(t)s(10, z); num(11, it.size()); num(12, it.width()); }" % D, lambda W: (dict(n_s=n) for n in (0, W + 1)),
         lambda W, v, B: dict(trace=[("vec", 1, tuple(B["d0"])), ("num", 2, w // 8), ("vec", 3, tuple(B["d0"])), ("vec", 4, tuple(B["d1"])), ("vec", 5, tuple(B["d2"])), ("num", 6, w // 8), ("num", 7, W),
                                     ("vec", 8, tuple(B["d0"])), ("vec", 9, tuple(B["d1"])), ("vec", 10, tuple(B["d2"])), ("num", 11, w // 8), ("num", 12, W)], alloc=0), defs=3, pids=("C22",))
    for nm, mk, mul, off in [k for k in kinds if k[0] in ("slice", "stride", "adapter")]:
        ty = ": SIMDAdapter<_, %ss>" % t if nm == "adapter" else ""
        def cl(W, v, B, mul=mul, off=off):
            e = B["s"][off::mul]
            full, tail = blocks(e, W, B["d0"], v["a"])
            tr = [("vec", 1, full[0])] if v["j"] and full else [("num", 2, 0)] * v["j"]
            a = v["a"] + (W if v["j"] and full else 0)
            return dict(trace=tr + want_drain(e, W, B["d0"], a, v["k"]) * 2, alloc=0)
        case("%s.%s clone" % (t, nm), t, [("s", t)], "let mut it%s = %s; it.advance(a); { let k = j; %s } let c = it.clone(); { let mut it = c; %s } %s" % ((ty, mk, NEXT % D) + ((NEXT + END + STOP) % D,) * 2),
             lambda W, mul=mul: (dict(n_s=n * mul, a=a, j=j, k=n // W + 1) for n in lens(W, deep, False, 8) for a in (0, 1) for j in (0, 1) if a <= n), cl, params=("a", "j", "k"), pids=("C29",) if nm == "adapter" else ("C28",) if nm == "stride" else ("C22",))
    # ---- advancing in the middle: next, advance, next, end
    ONE = "for _ in 0..j { match it.next() { Some(v) => obs_%(t)s(1, v), None => num(2, 0) } } it.advance(c); num(30, it.len()); num(31, it.scalar_pos()); num(32, it.scalar_len()); " % D
    def mid(mul, off, mapped=False, pair=False):
        def want(W, v, B):
            e = B["s"][off::mul]; pos = v["a"]; tr = []; calls = 0
            def put(tag, x):
                nonlocal calls
                if pair: tr.extend([("vec", tag, x), ("vec", tag + 20, x)]); return
                if mapped: tr.append(("f", calls, x)); x = fl(calls, W, t); calls += 1
                tr.append(("vec", tag, tuple(x)))
            for r in range(v["j"] + v["k"]):
                if r == v["j"]:
                    pos += v["c"]
                    tr += [("num", 30, max(0, len(e) - pos) // W), ("num", 31, pos), ("num", 32, len(e))]
                if pos + W <= len(e): put(1, tuple(e[pos:pos + W])); pos += W
                else: tr.append(("num", 2, 0))
            tail = blocks(e, W, B["d0"], min(pos, len(e)))[1]
            if tail: put(3, tail[0]); tr.append(("num", 4, tail[1]))
            else: tr.append(("num", 5, 0))
            return dict(trace=tr + [("num", 6, 0), ("num", 7, 0)], alloc=0)
        return want
    def mruns(mul):
        def runs(W):
            for n in sorted({0, W, 2 * W + 1, 3 * W, 4 * W - 1} | {x for x in lens(W, deep, False, 16) if x > 4 * W}):
                for a in (0, 1):
                    for j in (0, 1, 2):
                        for c in sorted({0, 1, W - 1, W, W + 1, 2 * W} if n <= 4 * W else {1}):
                            if a + j * W + c <= n: yield dict(n_s=n * mul, a=a, j=j, c=c, k=max(0, n - a - j * W - c) // W + 1)
        return runs
    for nm, mk, mul, off in kinds:
        ty = ": SIMDAdapter<_, %ss>" % t if nm == "adapter" else ""
        case("%s.%s advanced midway" % (t, nm), t, [("s", t)], "let mut it%s = %s; it.advance(a); " % (ty, mk) + ONE + (NEXT + END + STOP) % D, mruns(mul), mid(mul, off, "map" in nm), params=("a", "j", "c", "k"), mut=("s",) if nm == "slice_mut" else (),
             pids=("C29",) if nm == "adapter" else ("C28",) if nm == "stride" else ("C27",) if "zip" in nm else ("C22",))
    case("%s.zip advanced midway" % t, t, [("s", t)], "let mut it = (s.simd_iter(d0), s.simd_iter(d0)).zip(); it.advance(a); " + ((ONE + (NEXT + END + STOP) % D).replace("obs_%s(1, v)" % t, "{ obs_%s(1, v.0); obs_%s(21, v.1) }" % (t, t)).replace("obs_%s(3, v);" % t, "obs_%s(3, v.0); obs_%s(23, v.1);" % (t, t))), mruns(1), mid(1, 0, pair=True), params=("a", "j", "c", "k"), pids=("C27",))
    # ---- C34 for stride zips
    if t in ("u8", "i8", "u16", "i16", "u32", "i32"):
        def szrep(W, v, B):
            tr, n = [], (len(B["s"]) - v["b"]) // 2
            pos = v["a"]
            for j in range(v["k"] + 1):
                tr += [("num", 10, (n - pos) // W), ("num", 11, n), ("num", 12, pos), ("num", 13, pos // W), ("num", 14, n // W), ("num", 15, W), ("num", 16, (n - pos) // W), ("num", 17, (n - pos) // W)]
                if pos + W <= n: pos += W
            return dict(trace=tr, alloc=0)
        case("%s.stride_zip lengths and positions" % t, t, [("s", t)], "let mut it = s.simd_iter(d0); it.advance(b); let mut it = it.stride_zip(); it.advance(a); %s for _ in 0..k { let _ = it.next(); %s }" % (REP, REP), lambda W: (dict(n_s=n, a=a, b=b, k=max(0, n // 2 - a) // W + 2) for m in lens(W, deep, False, 16) for b in (0, 1, W - 1, W + 1) for n in (2 * m + b, 2 * m + b + 1) for a in (0, 1, W - 1, W) if a <= m), szrep, params=("a", "b", "k"), pids=("C34",))
    if t == "i32":
        case("i32.tuplify", t, [("s", t)], "let x = s[0]; " + " ".join("{ let (%s) = tuplify!(%d, x); %s }" % (", ".join("a%d" % i for i in range(n)), n, " ".join("e_sc_i32(%d, a%d);" % (i, i) for i in range(n))) for n in range(1, 13)), lambda W: (dict(n_s=1),),
             lambda W, v, B: dict(trace=[("sc", i, B["s"][0]) for n in range(1, 13) for i in range(n)], alloc=0), pids=("C27",))
    return list(CASES)


def vecs(src, W, d, a=0):
    full, tail = blocks(src, W, d, a)
    return full + ([tail[0]] if tail else [])


def after_next(src, W, d, t, a, k):
    """collecting what a partially consumed iterator has left"""
    full, tail = blocks(src, W, d, a)
    calls = [(x, 0) for x in full] + ([tail] if tail else [])
    c = 1 if k and full else 0
    tr = [("f", i, x) for i, (x, n) in enumerate(calls)]
    out = [y for i, (x, n) in enumerate(calls) if i >= c for y in fl(i, W, t)[n:]]
    return dict(trace=tr + [("sl", 9, tuple(out))], alloc=1)


def collect_all(src, W, d, t, a):
    vs = vecs(src, W, d, a)
    return dict(trace=[("f", k, x) for k, x in enumerate(vs)] + [("sl", 9, tuple(y for k in range(len(vs)) for y in fl(k, W, t)))], alloc=1)


# ------------------------------------------------------------------ running
def selected(pid, t, deep):
    cs = build_cases(t, deep)
    return [c for c in cs if c is not None and (pid in c.pids or pid in ("C21", "C31"))]


def run_unit(args):
    pid, cfg, types, tier, seed, kw = args
    sys.setrecursionlimit(20000)
    R = report.Report(pid, tier, seed)
    deep = tier == "thorough"
    kw = dict(kw); part, of = kw.pop("part", (0, 1))
    NOW["cfg"], NOW["long"] = cfg, kw.get("opt", 3) > 0
    prof = {(0, False): "/O0", (3, True): "/checked"}.get((kw.get("opt", 3), kw.get("debug", False)), "")
    todo = [(t, c) for t in types for c in selected(pid, t, deep)][part::of]
    if not todo: return R.dump()
    try: comp = build.compile_probes(cfg, [(c.name, c.src) for _, c in todo], itcore.header(), tag="it", **kw)
    except build.BuildError as e:
        R.notes.append("%s: %s" % (cfg, e)); R.bad("build@" + cfg, str(e)); return R.dump()
    mod = irparse.Module(comp.ir)
    itcore.widths_of(mod, cfg)
    name = cfg + prof
    NOW["near"] = NEAR if deep or pid not in ("C21", "C31") else NEAR // 4
    if pid == "C31":
        import effects
        effects.scan(R, comp.ir, [("%s@%s" % (c.key, name), c.name) for _, c in todo if c.name not in comp.dropped], lambda k: True)
    for t, c in todo:
        if c.name in comp.dropped:
            R.bad("%s@%s missing" % (c.key, cfg), comp.dropped[c.name]); continue
        R.stat("call sequences analysed")
        f = mod.funcs[c.name]
        for b in f.blocks():
            for i in f.block(b):
                if i.dbg:
                    for fle, l, fn in mod.where(i.dbg):
                        if fle.startswith("src/") and "verif_probe" not in fle: R.functions.add(fle + "::" + fn)
        NOW["marks"] = marks(mod, c.name, W_(t)) if kw.get("opt", 3) > 0 and not kw.get("debug", False) else ()
        if os.environ.get("VERIF_MARKS") and NOW["marks"]: print("MARKS", c.key, cfg, NOW["marks"], len(list(c.runs(W_(t)))))
        for v in c.runs(W_(t)):
            R.stat("length/position valuations analysed")
            try: run = itcore.analyse(mod, cfg, c, v)
            except absint.Undecided as e:
                R.undecided("analysis", "%s@%s %s: %s" % (c.key, cfg, v, e)); continue
            except RecursionError:
                R.undecided("analysis", "%s@%s: recursion" % (c.key, cfg)); continue
            R.stat("IR instructions interpreted", run.it.steps)
            want = c.want(W_(t), v, run.B)
            if pid == "C21": safety(R, name, c, v, run, want)
            elif pid == "C31": itcore.effects(R, name, c, v, run, want)
            else: itcore.judge(R, name, c, v, run, want)
    return R.dump()


def safety(R, cfg, c, v, run, want):
    """C21: only memory obligations"""
    itcore.judge_memory(R, cfg, c, v, run, want)


EXPL = ("Static analysis (abstract interpretation) of the LLVM IR the compiler emits from the current /repo/src: each public call sequence over the "
        "iterators is compiled with opaque user callbacks (never executed) and interpreted with symbolic slice contents and the listed lengths, positions "
        "and feature levels; the sequence of callback arguments, the results, the final buffers, every memory access, panic and allocation are compared with the rule.")
QUICK_CFG = ("none", "sse42", "avx2")


def units(pid, tier):
    """(feature level, element types, compiler profile): O3 is what users run; unoptimised IR still has every access that the optimiser
    may have dropped as undefined behaviour; the checked profile has overflow checks and debug assertions"""
    if tier == "thorough":
        us = [(cfg, (t,), {}) for cfg in build.LEVELS for t in SCALARS]
        us += [(cfg, (t,), dict(opt=0)) for cfg in QUICK_CFG for t in SCALARS]
        us += [(cfg, (t,), dict(opt=3, debug=True)) for cfg in QUICK_CFG for t in SCALARS]
        return us
    us = [(cfg, g, {}) for cfg in QUICK_CFG for g in (("u8", "f64"), ("i16", "u64"), ("i32", "f32"))]
    if pid == "C21": us = [(c, ts, dict(opt=0, part=(i, 3))) for c, ts in (("avx2", ("u32",)), ("none", ("f64",)), ("sse42", ("i64",))) for i in range(3)] + us
    us.append((build.PORTABLE, ("u16", "f64"), {}))
    if pid != "C21": us += [("avx2", ("u16",), dict(opt=3, debug=True)), ("none", ("i8",), dict(opt=3, debug=True))]
    return us


def check(pid, tier, seed):
    R = report.Report(pid, tier, seed)
    us = units(pid, tier)
    with cf.ProcessPoolExecutor(9) as ex:
        for d in ex.map(run_unit, [(pid, c, ts, tier, seed, kw) for c, ts, kw in us]): R.merge(d)
    R.assumptions = ["rustc/LLVM translate the source faithfully to the analysed IR", "the x86 and allocator models of lib/x86models.py",
                     "lengths and positions are the enumerated ones around multiples of the lane count; contents are arbitrary"]
    return R.finish(EXPL)

"""Whole-API probes of the vector iterators: abstract interpretation with symbolic contents and a chosen length/position
per run of the analysis; the trace of opaque callbacks, the final memory and every access are compared with the rule."""
import sys, re, os, itertools
import concurrent.futures as cf
import build, lanes, irparse, absint, decide, terms as T, report, x86models

SCALARS = ("u8", "i8", "u16", "i16", "u32", "i32", "f32", "u64", "i64", "f64")


def bits(t): return int(t[1:])
def width(cfg, t):
    """lanes of the default vector alias: 256-bit integer vectors from AVX2, float ones from AVX"""
    return WIDTHS[(cfg, t)]


WIDTHS = {}


def header():
    h = ["#![allow(unused, non_snake_case, non_camel_case_types, improper_ctypes, improper_ctypes_definitions, unused_mut)]",
         "use crate::prelude::*; use crate::arch::current::vecs::*; use crate::vecs::*; use crate::intrin::prelude::*; use crate::zip::*; use crate::stride::*; use crate::stride_zip::*; use crate::into_iters::*; use crate::iters::*;",
         "use std::slice::{from_raw_parts, from_raw_parts_mut};", "use std::vec::Vec; use std::boxed::Box; use std::option::Option::{self,*}; use std::iter::{Iterator, ExactSizeIterator};",
         "extern \"C\" { fn e_num(tag: u64, x: u64); fn e_ptr(tag: u64, p: *const u8); }",
         "#[inline(always)] fn num(tag: u64, x: usize) { unsafe { e_num(tag, x as u64) } }"]
    for t in SCALARS:
        h.append("extern \"C\" { fn e_vec_%s(tag: u64, v: *const %ss); fn e_f_%s(v: *const %ss, o: *mut %ss); fn e_sl_%s(tag: u64, p: *const %s, n: usize); fn e_sc_%s(tag: u64, v: %s); }" % ((t,) * 9))
        h.append("#[inline(always)] fn obs_%s(tag: u64, v: %ss) { unsafe { e_vec_%s(tag, &v) } }" % (t, t, t))
        h.append("#[inline(always)] fn f_%s(v: %ss) -> %ss { unsafe { let mut o = <%ss as Packed>::default(); e_f_%s(&v, &mut o); o } }" % ((t,) * 5))
        h.append("#[inline(always)] fn sl_%s(tag: u64, s: &[%s]) { unsafe { e_sl_%s(tag, s.as_ptr(), s.len()) } }" % (t, t, t))
        h.append("extern \"C\" { fn e_g_%s(a: *const %ss, b: *const %ss, o: *mut %ss); }" % ((t,) * 4))
        h.append("#[inline(always)] fn g_%s(a: %ss, b: %ss) -> %ss { unsafe { let mut o = <%ss as Packed>::default(); e_g_%s(&a, &b, &mut o); o } }" % ((t,) * 6))
    h.append("#[no_mangle] pub static VERIF_WIDTHS: [usize; 10] = [%s];" % ", ".join("<%ss as Packed>::WIDTH" % t for t in SCALARS))
    return "\n".join(h) + "\n"


class Case:
    """one public call sequence.  bufs: [(name, scalar type)] slices passed as (ptr, len); body: rust using s: &mut [T] or &[T];
    params: extra usize parameters; runs(W): parameter valuations [dict(len_s=.., k=..)]; want(W, run, B): ..."""
    def __init__(self, key, t, bufs, body, runs, want, params=(), defs=1, mut=(), pids=(), **kw):
        self.key, self.t, self.bufs, self.body, self.runs, self.want = key, t, bufs, body, runs, want
        self.params, self.defs, self.mut, self.pids, self.kw = params, defs, mut, pids, kw
        self.vecs = ()
        if kw.get("far"): self.runs = lambda W: itertools.chain(runs(W), kw["far"](W))
        self.name = "c_" + re.sub(r"\W+", "_", key)
        ps, pre = [], []
        for b, bt in bufs:
            m = b in mut
            ps += ["%s_p: *%s %s" % (b, "mut" if m else "const", bt), "%s_n: usize" % b]
            pre.append("let %s: &%s[%s] = from_raw_parts%s(%s_p, %s_n);" % (b, "mut " if m else "", bt, "_mut" if m else "", b, b))
        for i in range(defs):
            dt = kw.get("dts", [t] * defs)[i]
            ps.append("d%d_p: *const %ss" % (i, dt)); pre.append("let d%d = *d%d_p;" % (i, i))
        ps += ["%s: usize" % x for x in params]
        self.src = "#[no_mangle] pub unsafe extern \"C\" fn %s(%s) { %s %s }" % (self.name, ", ".join(ps), " ".join(pre), body)


class Run:
    pass


BIG = 1 << 14


class Far:
    """contents of a slice too long to enumerate: lanes by index, slices as views"""
    def __init__(self, w, name, r): self.w, self.name, self.r = w, name, r
    def __len__(self): return len(self.r)
    def __iter__(self):
        if len(self.r) > BIG: raise absint.Undecided("walks a whole long slice")
        return (self[i] for i in range(len(self.r)))
    def __getitem__(self, i):
        if isinstance(i, slice): return Far(self.w, self.name, self.r[i])
        return T.leaf(self.w, "%s[%d]" % (self.name, self.r[i]))


class FarInit:
    def __init__(self, ls, q): self.ls, self.q = ls, q
    def __call__(self, off): return (self.ls[off // self.q], off % self.q) if 0 <= off < self.q * len(self.ls) else (T.undef(8), 0)


def spliced(src, a, new):
    """src with src[a:a+len(new)] replaced: all lanes, or only the changed ones of a long slice"""
    if isinstance(src, Far): return {a + i: x for i, x in enumerate(new)}
    return list(src[:a]) + list(new) + list(src[a + len(new):])


def hooks_for(run):
    """callbacks of the probes: opaque to the optimiser, recorded here"""
    H = {}
    def num(it, st, name, a, tys, rt):
        st.events.append((T.TRUE(), "obs", ("num", T.cval(a[0]), a[1]), it.where())); return None, st
    def ptr(it, st, name, a, tys, rt):
        st.events.append((T.TRUE(), "obs", ("ptr", T.cval(a[0]), a[1]), it.where())); return None, st
    H["e_num"], H["e_ptr"] = num, ptr
    for t in SCALARS:
        w = bits(t); n = WIDTHS[(run.cfg, t)]
        def ld(it, st, p, n=n, w=w): return tuple(it.load(st, T.lin(64, i * w // 8, [(p, 1)]), w) for i in range(n))
        def vec(it, st, name, a, tys, rt, ld=ld):
            st.events.append((T.TRUE(), "obs", ("vec", T.cval(a[0]), ld(it, st, a[1])), it.where())); return None, st
        def f(it, st, name, a, tys, rt, ld=ld, n=n, w=w):
            k = sum(1 for e in st.events if e[1] == "obs" and e[2][0] == "f")
            st.events.append((T.TRUE(), "obs", ("f", k, ld(it, st, a[0])), it.where()))
            for i in range(n): it.store(st, T.lin(64, i * w // 8, [(a[1], 1)]), T.leaf(w, "f%d[%d]" % (k, i)))
            return None, st
        def g(it, st, name, a, tys, rt, ld=ld, n=n, w=w):
            k = sum(1 for e in st.events if e[1] == "obs" and e[2][0] == "g")
            st.events.append((T.TRUE(), "obs", ("g", k, ld(it, st, a[0]), ld(it, st, a[1])), it.where()))
            for i in range(n): it.store(st, T.lin(64, i * w // 8, [(a[2], 1)]), T.leaf(w, "g%d[%d]" % (k, i)))
            return None, st
        def sl(it, st, name, a, tys, rt, w=w):
            if not T.is_const(a[2]): raise absint.Undecided("observed slice of symbolic length")
            m = T.cval(a[2])
            if m > 1 << 15: st.events.append((T.TRUE(), "obs", ("sl", T.cval(a[0]), "length %d" % m), it.where())); return None, st
            st.events.append((T.TRUE(), "obs", ("sl", T.cval(a[0]), tuple(it.load(st, T.lin(64, i * w // 8, [(a[1], 1)]), w) for i in range(m))), it.where()))
            return None, st
        def sc(it, st, name, a, tys, rt):
            st.events.append((T.TRUE(), "obs", ("sc", T.cval(a[0]), a[1]), it.where())); return None, st
        H["e_vec_" + t], H["e_f_" + t], H["e_sl_" + t], H["e_g_" + t], H["e_sc_" + t] = vec, f, sl, g, sc
    return H


def widths_of(mod, cfg):
    it = absint.Interp(mod)
    st = absint.State()
    try: p = it.glob("VERIF_WIDTHS")
    except Exception: raise absint.Undecided("lane counts")
    for i, t in enumerate(SCALARS): WIDTHS[(cfg, t)] = T.cval(it.load(st, T.lin(64, 8 * i, [(p, 1)]), 64))


def analyse(mod, cfg, c, vals):
    run = Run(); run.cfg = cfg
    it = absint.Interp(mod, hooks_for(run))
    st = absint.State()
    f = mod.funcs[c.name]
    args = []; run.B = {}; run.O = {}
    for b, bt in c.bufs:
        n, w = vals["n_" + b], bits(bt)
        ls = [T.leaf(w, "%s[%d]" % (b, i)) for i in range(n)] if n <= BIG else Far(w, b, range(n))
        run.B[b] = ls
        o = it.new_obj(b, w // 8 * n, FarInit(ls, w // 8) if n > BIG else (lambda ls, q: lambda off: (ls[off // q], off % q) if 0 <= off < q * len(ls) else (T.undef(8), 0))(ls, w // 8))
        if b not in c.mut: o.ro = True
        if b not in c.vecs: o.align = w // 8                # a slice starts anywhere its elements may
        run.O[b] = o
        args += [o.base, T.const(64, n)]
    for i in range(c.defs):
        dt = c.kw.get("dts", [c.t] * c.defs)[i]
        w, n = bits(dt), WIDTHS[(cfg, dt)]
        ls = [T.leaf(w, "d%d[%d]" % (i, j)) for j in range(n)]
        run.B["d%d" % i] = ls
        o = it.new_obj("d%d" % i, w // 8 * n, (lambda ls, q: lambda off: (ls[off // q], off % q) if 0 <= off < q * len(ls) else (T.undef(8), 0))(ls, w // 8))
        args.append(o.base)
    for p in c.params: args.append(T.const(64, vals[p] & (1 << 64) - 1))
    r = it.call_fn(f, args, st)
    run.diverges = r is None
    run.st = r[1] if r else st
    run.it = it
    run.trace = [e for e in run.st.events if e[1] == "obs"]
    run.panics = [e for e in run.st.events if e[1] == "panic"]
    run.allocs = [e for e in run.st.events if e[1] == "alloc"]
    run.after = {}
    for b, bt in c.bufs:
        w = bits(bt)
        if vals["n_" + b] > BIG:
            idx = sorted({k // (w // 8) for k in (run.st.mem.get(run.O[b].base.id) or {})})
            run.after[b] = {i: it.load(run.st, T.lin(64, i * (w // 8), [(run.O[b].base, 1)]), w) for i in idx}
            continue
        run.after[b] = [it.load(run.st, T.lin(64, i * (w // 8), [(run.O[b].base, 1)]), w) for i in range(vals["n_" + b])]
    return run


# ------------------------------------------------------------------ comparing a trace
def show_obs(o):
    def s(x):
        if isinstance(x, tuple): return "[" + ", ".join(s(y) for y in x[:40]) + "]"
        if isinstance(x, T.Term): return T.show(x, 3)
        return str(x)
    return "%s(%s)" % (o[0], ", ".join(s(x) for x in o[1:]))


def same(a, b, seed):
    """True / False / None"""
    if isinstance(a, tuple) or isinstance(a, list):
        if not isinstance(b, (tuple, list)) or len(a) != len(b): return False
        r = True
        for x, y in zip(a, b):
            k = same(x, y, seed)
            if k is False: return False
            if k is None: r = None
        return r
    if isinstance(b, T.Term) or isinstance(a, T.Term):
        if isinstance(b, int): b = T.const(a.w, b)
        if isinstance(a, int): a = T.const(b.w, a)
        if b is None: return True
        if a is b: return True
        k = decide.compare(a, b, seed=seed)
        return {"equal": True, "differ": False, "undecided": None}[k[0]]
    if b is None: return True
    return a == b


def compare_trace(got, want, seed):
    """-> None (equal) | ("differ", text, where) | ("undecided", text)"""
    for i in range(max(len(got), len(want))):
        if i >= len(got): return ("differ", "after %d callbacks nothing more is reported, required %s" % (i, show_obs(want[i])), None)
        if i >= len(want): return ("differ", "unexpected further report %s" % show_obs(got[i][2]), got[i][3])
        k = same(got[i][2], want[i], seed)
        if k is False: return ("differ", "report %d is %s, required %s" % (i, show_obs(got[i][2]), show_obs(want[i])), got[i][3])
        if k is None: return ("undecided", "report %d: %s against %s" % (i, show_obs(got[i][2]), show_obs(want[i])))
    return None


def wtext(w):
    out = []
    for x in (w or []):
        k = "%s:%s" % x[:2]
        if x[0].startswith("src/") and "verif_probe" not in x[0] and k not in out: out.append(k)
    return "; ".join(out)[:200] or "?"


def judge(R, cfg, c, vals, run, want):
    """want: dict(trace=[...], after={buf: lanes}, panic=None|True|'may', alloc=int|None)"""
    vs = ", ".join("%s=%d" % (k.replace("n_", "len "), v) for k, v in sorted(vals.items()))
    base = "%s@%s" % (c.key, cfg)
    bad = False
    for kind, text, w in run.it.problems:
        bad = True
        R.bad("%s %s" % (base, kind), "%s (%s) at %s" % (text, vs, wtext(w)))
    R.ok("every access inside its buffer", 0 if bad else 1)
    pan = want.get("panic")
    if run.diverges:
        if pan: R.ok("panics as documented")
        else:
            e = run.panics[-1] if run.panics else None
            R.bad(base + " panics", "panics or never returns (%s) %s %s" % (vs, e[2] if e else "", wtext(e[3]) if e else "")); bad = True
        return bad
    if run.panics:
        sat = [decide.satisfiable(e[0], R.seed) for e in run.panics]
        if any(sat): R.bad(base + " panics", "can panic (%s) at %s" % (vs, wtext(run.panics[0][3]))); bad = True
        elif any(x is None for x in sat): R.undecided("no panic", "%s (%s)" % (base, vs))
    if pan is True:
        R.bad(base + " accepts", "returns normally where a panic is required (%s)" % vs); return True
    if want.get("trace") is not None:
        r = compare_trace(run.trace, want["trace"], R.seed)
        if r is None: R.ok("reported values equal the rule")
        elif r[0] == "undecided": R.undecided("reported values", "%s (%s): %s" % (base, vs, r[1]))
        else:
            bad = True
            R.bad(base + " result", "%s (%s) at %s" % (r[1], vs, wtext(r[2])))
    if not bad or True:
        for b, ls in run.after.items():
            w = (want.get("after") or {}).get(b, run.B[b])
            if w == "any": continue
            if isinstance(ls, dict):                        # long slice: the written lanes and the ones that must change
                ks = sorted(set(ls) | (set(w) if isinstance(w, dict) else set()))
                ls = [ls.get(i, run.B[b][i]) for i in ks]
                w = [w[i] if isinstance(w, dict) and i in w else run.B[b][i] for i in ks]
                names = ks
            else: names = None
            k = same(tuple(ls), tuple(w), R.seed)
            if k is True: R.ok("final buffer contents")
            elif k is None: R.undecided("final contents", "%s (%s) %s" % (base, vs, b))
            else:
                bad = True
                i = next(i for i, (x, y) in enumerate(zip(ls, w)) if same(x, y, R.seed) is False) if len(ls) == len(w) else 0
                R.bad(base + " contents", "%s[%d] ends as %s, required %s (%s)" % (b, names[i] if names else i, T.show(ls[i], 3), T.show(w[i], 3) if isinstance(w[i], T.Term) else w[i], vs))
    if want.get("alloc") is not None and len(run.allocs) > want["alloc"]:
        bad = True
        R.bad(base + " allocates", "%d heap allocations, allowed %d (%s) at %s" % (len(run.allocs), want["alloc"], vs, wtext(run.allocs[0][3]) if run.allocs else "?"))
    return bad


def has_undef(x):
    seen, st = set(), [x]
    while st:
        y = st.pop()
        if isinstance(y, (tuple, list)): st.extend(y); continue
        if not isinstance(y, T.Term) or id(y) in seen: continue
        seen.add(id(y))
        if y.op == "undef": return True
        st.extend(y.a)
    return False


def vtext(vals): return ", ".join("%s=%d" % (k.replace("n_", "len "), v) for k, v in sorted(vals.items()))


def judge_memory(R, cfg, c, vals, run, want):
    base = "%s@%s" % (c.key, cfg)
    for kind, text, w in run.it.problems:
        R.bad("%s %s" % (base, kind), "%s (%s) at %s" % (text, vtext(vals), wtext(w)))
    if not run.it.problems: R.ok("every access inside a live buffer")
    for e in run.trace:
        if has_undef(e[2]):
            R.bad("%s uninitialised" % base, "uninitialised memory is passed on: %s (%s) at %s" % (show_obs(e[2])[:160], vtext(vals), wtext(e[3]))); break
    else:
        R.ok("no uninitialised value is observed")
    for b, ls in run.after.items():
        if has_undef(list(ls.values()) if isinstance(ls, dict) else ls): R.bad("%s uninitialised" % base, "uninitialised memory is written to %s (%s)" % (b, vtext(vals)))


def effects(R, cfg, c, vals, run, want):
    base = "%s@%s" % (c.key, cfg)
    n = want.get("alloc")
    if n is None: return
    if run.diverges: return
    if len(run.allocs) > n: R.bad(base + " allocates", "%d heap allocations, allowed %d (%s) at %s" % (len(run.allocs), n, vtext(vals), wtext(run.allocs[0][3])))
    else: R.ok("heap allocations within the allowed number")

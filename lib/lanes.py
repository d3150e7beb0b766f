"""Vector types and probe helpers for the lane-wise operations."""
import re
import terms as T, irparse, absint

TYPES = {}
for total in (128, 256, 512):
    for k, b in (("u", 8), ("i", 8), ("u", 16), ("i", 16), ("u", 32), ("i", 32), ("f", 32), ("u", 64), ("i", 64), ("f", 64)):
        n = total // b
        TYPES["%s%dx%d" % (k, b, n)] = (k, b, n)
HEADER = "#![allow(unused, non_snake_case, improper_ctypes_definitions)]\nuse crate::prelude::*; use crate::vecs::*; use crate::intrin::prelude::*;\nuse crate::arch::current::vecs::{%s};\n" % ", ".join(TYPES)
HEADER += "use crate::intrin::eq::Eq as FEq;\n"


def name(k, b, n): return "%s%dx%d" % (k, b, n)


class Probe:
    """One public operation on concrete types.  ins: [(argname, lanebits, lanes)], outs: the same.
    want(L): dict/list of expected lanes per out, given L[arg][i] leaf terms."""
    def __init__(self, key, src, ins, outs, want, **kw):
        self.key, self.src, self.ins, self.outs, self.want = key, src, ins, outs, want
        self.floats = kw.get("floats", False)
        self.assoc = kw.get("assoc")
        self.admissible = kw.get("admissible")
        self.meta = kw
        self.name = "p_" + re.sub(r"\W+", "_", key)


def fn(name, ins, outs, body, pre=""):
    """ins/outs: [(argname, rust type)]"""
    ps = ", ".join(["%s: *const %s" % x for x in ins] + ["%s: *mut %s" % x for x in outs])
    return '#[no_mangle] pub unsafe extern "C" fn %s(%s) { %s }' % (name, ps, body)


class Result:
    pass


def analyse(mod, probe, hooks=None):
    """run the abstract interpreter on one probe -> Result(lanes per out | panics | problems)"""
    it = absint.Interp(mod, hooks)
    st = absint.State()
    f = mod.funcs[probe.name]
    r = Result()
    r.fn, r.it = f, it
    args, outs = [], []
    L = {}
    for (nm, w, n) in probe.ins:
        ls = [T.leaf(w, "%s[%d]" % (nm, i)) for i in range(n)]
        L[nm] = ls
        o = it.new_obj(nm, w // 8 * n, (lambda ls, b: lambda off: (ls[off // b], off % b) if 0 <= off < b * len(ls) else (T.undef(8), 0))(ls, w // 8))
        args.append(o.base)
    for (nm, w, n) in probe.outs:
        o = it.new_obj("out." + nm, w // 8 * n, lambda off: (T.undef(8), 0))
        outs.append((o, nm, w, n)); args.append(o.base)
    r.L = L
    res = it.call_fn(f, args, st)
    r.diverges = res is None
    r.st = res[1] if res else st
    r.events = r.st.events
    r.out = {}
    if res:
        for o, nm, w, n in outs:
            r.out[nm] = [it.load(r.st, T.lin(64, i * (w // 8), [(o.base, 1)]), w) for i in range(n)]
    r.problems = it.problems
    return r


def locs(mod, fnobj, t=None, limit=4):
    """library source locations involved in a function (innermost repo frames)"""
    out = []
    def add(dbg):
        for f, l, fn in mod.where(dbg):
            if f.startswith("src/") and "verif_probe" not in f:
                s = (f, l, fn)
                if s not in out: out.append(s)
                return
    if t is not None:
        seen, todo = set(), [t]
        while todo and len(out) < limit:
            u = todo.pop(0)
            if u.id in seen: continue
            seen.add(u.id)
            if u.loc: add(u.loc)
            todo += [x for x in u.a if isinstance(x, T.Term)]
    if not out:
        for b in fnobj.blocks():
            for i in fnobj.block(b):
                if i.dbg: add(i.dbg)
                if len(out) >= limit: break
    return out[:limit]

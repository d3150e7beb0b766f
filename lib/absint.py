"""Abstract interpretation of LLVM IR in the lane-provenance domain (terms.py) with a byte-accurate
memory domain.  Control-flow merges join states with condition-gated terms; only conditions the
dataflow already folds to a constant select a branch.  No values are ever supplied for inputs."""
import re
import terms as T
from terms import Term


class Undecided(Exception):
    pass


class Obj:
    __slots__ = ("name", "size", "base", "init", "kind", "bytes0", "ro", "align")

    def __init__(self, name, size, init, kind):
        self.name, self.size, self.init, self.kind = name, size, init, kind
        self.base = T.leaf(64, "&" + name)
        self.ro = False
        self.align = None    # known alignment of the base address; None: not tracked


class State:
    __slots__ = ("mem", "events", "facts", "live")

    def __init__(self): self.mem, self.events, self.facts, self.live = {}, [], frozenset(), {}

    def fork(self):
        s = State()
        s.mem = dict(self.mem); s.events = list(self.events); s.facts = self.facts; s.live = dict(self.live)
        return s


class Interp:
    MAXSTEPS = 400000

    def __init__(self, mod, hooks=None):
        self.mod = mod
        self.objs = {}       # base term id -> Obj
        self.hooks = hooks or {}
        self.steps = 0
        self.problems = []   # (kind, text, where)
        self.nalloc = 0
        self.visited = set()
        self.pdom = {}
        self.curdbg = None
        self.callers = []
        self.unmodelled = set()
        self.constmem = {}
        self.conds = {}      # id of a path condition -> the condition

    # ------------------------------------------------------------ objects and memory
    def new_obj(self, name, size, init, kind="arg"):
        o = Obj(name, size, init, kind)
        self.objs[o.base.id] = o
        return o

    def aligned(self, st, p, n):
        """reports an access that needs its address to be a multiple of n where the buffer does not promise it"""
        if n <= 1: return
        try: o, off = self.deref(p)
        except Undecided: return
        if o.align is None or (o.align % n == 0 and off % n == 0): return
        if any(T.mentions(self.conds[i], o.base) for i in st.facts if i in self.conds): return      # the address was tested on the way here
        self.problem("misaligned", "access that requires an address which is a multiple of %d, at offset %d of %s, whose alignment is %d" % (n, off, o.name, o.align))

    def where(self):
        out = list(self.mod.where(self.curdbg))
        for d in reversed(self.callers): out += self.mod.where(d)
        return out

    def problem(self, kind, text):
        self.problems.append((kind, text, [w for w in self.where()]))

    def deref(self, p):
        if p.op == "leaf":
            o = self.objs.get(p.id)
            if o: return o, 0
        if p.op == "lin" and len(p.a) >= 3:
            # base + const
            bases = [(i, p.a[i]) for i in range(1, len(p.a), 2) if p.a[i].id in self.objs and p.a[i + 1] == 1]
            if len(bases) == 1 and len(p.a) == 3:
                c = p.a[0]
                if c >> 63: c -= 1 << 64
                return self.objs[bases[0][1].id], c
            if len(bases) == 1: raise Undecided("symbolic address %s" % T.show(p))
        if p.op == "undef":
            raise Undecided("undefined address")
        raise Undecided("address %s" % T.show(p))

    def _bytes(self, st, o):
        b = st.mem.get(o.base.id)
        return b if b is not None else {}

    def load(self, st, p, w):
        n = (w + 7) // 8
        o, off = self.deref(p)
        if o.size is not None and (off < 0 or off + n > o.size):
            self.problem("oob-read", "read of %d bytes at offset %d of %s (%s bytes)" % (n, off, o.name, o.size))
        if st.live.get(o.base.id) == "freed": self.problem("use-after-free", "read of freed %s" % o.name)
        b = self._bytes(st, o)
        parts = []
        i = 0
        while i < n:
            e = b.get(off + i) or o.init(off + i)
            t, k = e
            run = 1
            while i + run < n:
                e2 = b.get(off + i + run) or o.init(off + i + run)
                if e2[0] is t and e2[1] == k + run and (k + run) * 8 < t.w: run += 1
                else: break
            lo = k * 8
            hi = min(t.w, lo + run * 8)
            s = T.slice_(t, lo, hi - lo)
            if hi - lo < run * 8: s = T.zext(s, run * 8)
            parts.append(s)
            i += run
        v = T.concat(parts)
        return T.slice_(v, 0, w) if v.w > w else v

    def store(self, st, p, t):
        if t.w % 8: t = T.zext(t, (t.w + 7) // 8 * 8)
        n = t.w // 8
        o, off = self.deref(p)
        if o.size is not None and (off < 0 or off + n > o.size):
            self.problem("oob-write", "write of %d bytes at offset %d of %s (%s bytes)" % (n, off, o.name, o.size))
        if o.ro: self.problem("write-ro", "write to shared %s" % o.name)
        if st.live.get(o.base.id) == "freed": self.problem("use-after-free", "write of freed %s" % o.name)
        b = dict(self._bytes(st, o))
        for i in range(n): b[off + i] = (t, i)
        st.mem[o.base.id] = b

    def read_bytes(self, st, o, off, n):
        b = self._bytes(st, o)
        return [b.get(off + i) or o.init(off + i) for i in range(n)]

    def memcpy(self, st, d, s, n):
        if not T.is_const(n): raise Undecided("copy of symbolic length %s" % T.show(n))
        n = T.cval(n)
        if n == 0: return
        so, soff = self.deref(s); do, doff = self.deref(d)
        if so.size is not None and (soff < 0 or soff + n > so.size):
            self.problem("oob-read", "copy of %d bytes from offset %d of %s (%s bytes)" % (n, soff, so.name, so.size))
        if do.size is not None and (doff < 0 or doff + n > do.size):
            self.problem("oob-write", "copy of %d bytes to offset %d of %s (%s bytes)" % (n, doff, do.name, do.size))
        src = self.read_bytes(st, so, soff, n)
        b = dict(self._bytes(st, do))
        for i, e in enumerate(src): b[doff + i] = e
        st.mem[do.base.id] = b

    # ------------------------------------------------------------ values
    def undef_of(self, ty):
        ty = self.mod.resolve(ty)
        k = ty[0]
        if k == "v": return [T.undef(self.sw(ty[2])) for _ in range(ty[1])]
        if k == "a": return [self.undef_of(ty[2]) for _ in range(ty[1])]
        if k == "s": return [self.undef_of(e) for e in ty[1]]
        return T.undef(self.sw(ty))

    def zero_of(self, ty):
        ty = self.mod.resolve(ty)
        k = ty[0]
        if k == "v": return [T.zero(self.sw(ty[2])) for _ in range(ty[1])]
        if k == "a": return [self.zero_of(ty[2]) for _ in range(ty[1])]
        if k == "s": return [self.zero_of(e) for e in ty[1]]
        return T.zero(self.sw(ty))

    def sw(self, ty):
        if ty[0] in ("i", "f"): return ty[1]
        if ty[0] == "p": return 64
        raise Undecided("scalar width of %r" % (ty,))

    def val(self, regs, ty, v):
        k = v[0]
        if k == "loc":
            return regs[v[1]]
        if k == "c": return T.const(self.sw(ty), v[1])
        if k == "undef": return self.undef_of(ty)
        if k == "zero": return self.zero_of(ty)
        if k == "null": return T.zero(64)
        if k == "agg": return [self.val(regs, t, x) for t, x in v[1]]
        if k == "bytes": return [T.const(8, x) for x in v[1]]
        if k == "glob": return self.glob(v[1][1:])
        if k == "ce":
            op = v[1]
            if op == "gep":
                return self.gep(regs, v[2], (v[3], v[4]), v[5])
            if op in ("bitcast", "ptrtoint", "inttoptr", "trunc", "zext", "sext"):
                return self.cast(op, v[2], self.val(regs, v[2], v[3]), v[4])
            if op == "icmp": return self.icmp1(v[2], self.val(regs, v[3], v[4]), self.val(regs, v[3], v[5]))
            return self.bin1(op, self.val(regs, v[2], v[3]), self.val(regs, v[2], v[4]))
        raise Undecided("value %r" % (v,))

    def glob(self, name):
        o = self.constmem.get(name)
        if o is None:
            if name in self.mod.globals:
                o = self._global_obj(name)
            else:
                o = self.new_obj("@" + name, 0, lambda off: (T.undef(8), 0), "fn")
            self.constmem[name] = o
        return o.base

    def _global_obj(self, name):
        from irparse import Toks, tokenize, ptype, pvalue
        s = self.mod.globals[name]
        m = re.match(r"(?:(?:private|internal|external|hidden|dso_local|unnamed_addr|local_unnamed_addr|thread_local|linkonce_odr|weak|constant_)\s*)*(constant|global) (.*)$", s)
        if not m or re.match(r"external|.*thread_local", s.split("constant")[0].split("global")[0]):
            return self.new_obj("@" + name, None, lambda off: (T.leaf(8, "@%s[%d]" % (name, off)), 0), "extern")
        tk = Toks(tokenize(m.group(2).split(", align")[0].split(", section")[0]), self.mod)
        ty = ptype(tk); v = pvalue(tk, ty)
        size = self.mod.size(ty)
        box = {}
        o = self.new_obj("@" + name, size, lambda off: box["b"].get(off, (T.undef(8), 0)), "const")
        self.constmem[name] = o
        m = re.search(r", align (\d+)", s)
        o.align = int(m.group(1)) if m else None
        b = {}
        def put(off, ty, val):
            ty = self.mod.resolve(ty)
            if ty[0] == "s" or ty[0] == "a":
                for i, x in enumerate(val):
                    fo, ft = self.mod.field(ty, i); put(off + fo, ft, x)
            else:
                t = self.bits(ty, val)
                for i in range((t.w + 7) // 8): b[off + i] = (t, i)
        box["b"] = b
        put(0, ty, self.val({}, ty, v))
        return o

    def bits(self, ty, v):
        ty = self.mod.resolve(ty)
        if ty[0] == "v": return T.concat(list(v))
        if isinstance(v, Term): return v
        raise Undecided("bits of %r" % (ty,))

    def unbits(self, ty, t):
        ty = self.mod.resolve(ty)
        if ty[0] == "v":
            w = self.sw(ty[2])
            return [T.slice_(t, i * w, w) for i in range(ty[1])]
        return t

    def gep(self, regs, bt, p, idx):
        if self.mod.resolve(p[0])[0] == "v": raise Undecided("vector gep")
        a = self.val(regs, *p)
        ty = bt
        first = True
        for it, iv in idx:
            v = self.val(regs, it, iv)
            if first:
                sz = self.mod.size(ty); first = False
                a = T.lin(64, 0, [(a, 1), (T.sext(v, 64) if v.w < 64 else v, sz)])
            else:
                r = self.mod.resolve(ty)
                if r[0] == "s":
                    off, ty = self.mod.field(r, T.cval(v)); a = T.lin(64, off, [(a, 1)])
                else:
                    ty = r[2]
                    a = T.lin(64, 0, [(a, 1), (T.sext(v, 64) if v.w < 64 else v, self.mod.size(ty))])
        return a

    def cast(self, op, sty, v, dty):
        s, d = self.mod.resolve(sty), self.mod.resolve(dty)
        if op in ("bitcast", "inttoptr", "ptrtoint"):
            if s[0] == "p" and d[0] == "p": return v
            if op != "bitcast":
                w = self.sw(d)
                return T.trunc(v, w) if w < v.w else T.zext(v, w)
            return self.unbits(d, self.bits(s, v))
        if s[0] == "v":
            return [self.cast1(op, x, self.sw(d[2])) for x in v]
        return self.cast1(op, v, self.sw(d))

    def cast1(self, op, x, w):
        if op == "trunc": return T.trunc(x, w)
        if op == "zext": return T.zext(x, w) if x.op != "undef" else T.undef(w)
        if op == "sext": return T.sext(x, w)
        return T.fop(op, w, x)

    def bin1(self, op, a, b, fl=()):
        w = a.w
        if op == "add": return T.add(a, b)
        if op == "sub": return T.sub(a, b)
        if op == "mul": return T.mul(a, b)
        if op == "and": return T.and_(a, b)
        if op == "or": return T.or_(a, b)
        if op == "xor": return T.xor(a, b)
        if op in ("shl", "lshr", "ashr"):
            if T.is_const(b): return {"shl": T.shl, "lshr": T.lshr, "ashr": T.ashr}[op](a, T.cval(b))
            if a.op == "undef" or b.op == "undef": return T.undef(w)
            return T.mk("v" + op, w, a, b)
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"): return T.fop(op, w, a, b)
        if op in ("udiv", "urem", "sdiv", "srem"):
            if T.is_const(b) and T.cval(b):
                k = T.cval(b)
                if op == "udiv" and k & (k - 1) == 0: return T.lshr(a, k.bit_length() - 1)
                if op == "urem" and k & (k - 1) == 0: return T.and_(a, T.const(w, k - 1))
                if T.is_const(a):
                    return T.const(w, T.ev(T.mk(op, w, a, b), {}, {})) if op != "srem" else T.mk(op, w, a, b)
            if a.op == "undef" or b.op == "undef": return T.undef(w)
            return T.mk(op, w, a, b)
        raise Undecided("op " + op)

    def icmp1(self, pred, a, b):
        # object base addresses are non-null and at least 16-aligned only as declared
        n = self.ptrcmp(pred, a, b)
        if n is not None: return n
        if pred == "eq": return T.eq(a, b)
        if pred == "ne": return T.not_(T.eq(a, b))
        if pred == "slt": return T.slt(a, b)
        if pred == "sgt": return T.slt(b, a)
        if pred == "sle": return T.not_(T.slt(b, a))
        if pred == "sge": return T.not_(T.slt(a, b))
        if pred == "ult": return T.ult(a, b)
        if pred == "ugt": return T.ult(b, a)
        if pred == "ule": return T.not_(T.ult(b, a))
        if pred == "uge": return T.not_(T.ult(a, b))
        raise Undecided(pred)

    def _base(self, p):
        if p.op == "leaf" and p.id in self.objs: return p, 0
        if p.op == "lin" and len(p.a) == 3 and p.a[2] == 1 and p.a[1].id in self.objs:
            c = p.a[0]
            return p.a[1], c - (1 << 64) if c >> 63 else c
        return None, None

    def ptrcmp(self, pred, a, b):
        if a.w != 64: return None
        x, i = self._base(a); y, j = self._base(b)
        if x is not None and x is y:
            r = {"eq": i == j, "ne": i != j, "ult": i < j, "ugt": i > j, "ule": i <= j, "uge": i >= j,
                 "slt": i < j, "sgt": i > j, "sle": i <= j, "sge": i >= j}[pred]
            return T.const(1, r)
        if pred in ("eq", "ne"):
            nz = (x is not None and T.is_const(b) and T.cval(b) == 0) or (y is not None and T.is_const(a) and T.cval(a) == 0)
            if nz: return T.const(1, pred == "ne")
            if x is not None and y is not None and x is not y:
                return T.const(1, pred == "ne")
        return None

    # ------------------------------------------------------------ functions
    def ipdom(self, fn):
        r = self.pdom.get(fn.name)
        if r is not None: return r
        succ = {}
        for b in fn.blocks():
            t = fn.block(b)[-1]
            if t.op == "br": s = [x for x in t.x[1:] if x]
            elif t.op == "switch": s = [t.x[1]] + [l for _, l in t.x[2]]
            elif t.op == "invoke": s = [t.x[-2]]
            elif t.op == "ret": s = ["<exit>"]
            else: s = []
            succ[b] = s
        # blocks that reach an exit
        reach = {"<exit>"}
        ch = True
        while ch:
            ch = False
            for b, s in succ.items():
                if b not in reach and any(x in reach for x in s): reach.add(b); ch = True
        order = [b for b in fn.order if b in reach]
        full = set(order) | {"<exit>"}
        pd = {b: set(full) for b in order}
        pd["<exit>"] = {"<exit>"}
        ch = True
        while ch:
            ch = False
            for b in reversed(order):
                ss = [pd[x] for x in succ[b] if x in reach]
                new = set.intersection(*ss) | {b} if ss else {b}
                if new != pd[b]: pd[b] = new; ch = True
        ip = {}
        for b in order:
            c = pd[b] - {b}
            # immediate: the candidate post-dominated by all others
            ip[b] = next((x for x in c if all(y in pd[x] for y in c)), "<exit>")
        self.pdom[fn.name] = ip
        return ip

    def call_fn(self, fn, args, st, depth=0):
        if depth > 60: raise Undecided("recursion in " + fn.name)
        regs = {}
        for (ty, nm, at), v in zip(fn.params(), args):
            if nm is None: nm = "%%%d" % len(regs)
            regs[nm] = v
        r = self.region(fn, regs, st, fn.entry(), None, "<exit>", depth)
        return r

    def region(self, fn, regs, st, blk, pred, stop, depth):
        """-> None (diverges) or (regs, state, retval)"""
        skipphi = False
        while True:
            if blk == stop:
                self.phis(fn, regs, blk, pred)
                return regs, st, None
            if not skipphi: self.phis(fn, regs, blk, pred)
            skipphi = False
            nxt = None
            for ins in fn.block(blk):
                self.steps += 1
                if self.steps > self.MAXSTEPS: raise Undecided("step limit in " + fn.name)
                op = ins.op
                if op == "phi": continue
                if ins.dbg: self.curdbg = ins.dbg
                T.CUR["loc"] = self.curdbg
                x = ins.x
                if op == "br":
                    if x[0] is None: nxt = ("go", x[1])
                    else: nxt = ("if", self.val(regs, *x[0]), x[1], x[2])
                elif op == "switch":
                    nxt = ("sw", self.val(regs, *x[0]), x[1], [(self.val(regs, *c), l) for c, l in x[2]])
                elif op == "ret":
                    return regs, st, (self.val(regs, *x) if x else None)
                elif op in ("unreachable", "resume"):
                    st.events.append((T.TRUE(), "unreachable", None, None))
                    self.diverge(st)
                    return None
                elif op == "invoke" or op == "call":
                    r = self.call(fn, regs, st, ins, depth)
                    if r is None:
                        self.diverge(st)
                        return None
                    v, st = r
                    if ins.res: regs[ins.res] = v
                    if op == "invoke": nxt = ("go", x[-2])
                else:
                    regs[ins.res] = self.step(regs, st, ins, op, x) if ins.res else self.step(regs, st, ins, op, x)
            if nxt is None: raise Undecided("block without terminator %s" % blk)
            if nxt[0] == "go":
                pred, blk = blk, nxt[1]; continue
            if nxt[0] == "if":
                c = nxt[1]
                arms = [(c, nxt[2]), (T.not_(c), nxt[3])]
            else:
                arms = []
                rest = T.TRUE()
                for cv, l in nxt[3]:
                    e = T.eq(nxt[1], cv)
                    arms.append((T.and_(rest, e), l)); rest = T.and_(rest, T.not_(e))
                arms.append((rest, nxt[2]))
            arms2 = []
            for c, l in arms:
                c = self.assume(st, c)
                if T.is_const(c) and not T.cval(c): continue
                arms2.append((c, l))
                if T.is_const(c): break
            if not arms2: return None
            if any(c.op == "undef" for c, _ in arms2): 
                self.problem("undef-branch", "branch on an undefined value")
                raise Undecided("branch on undefined value")
            if len(arms2) == 1:
                pred, blk = blk, arms2[0][1]; continue
            # same target for all arms
            self.depthcheck(depth)
            j = self.ipdom(fn).get(blk, "<exit>")
            results = []
            n0 = len(st.events)
            for c, l in arms2:
                s2 = st.fork()
                s2.facts = st.facts | {c.id}
                self.conds[c.id] = c
                if l == j and j != "<exit>":
                    r2 = dict(regs)
                    self.phis(fn, r2, j, blk)
                    results.append((c, (r2, s2, None)))
                else:
                    try:
                        r = self.region(fn, dict(regs), s2, l, blk, j, depth + 1)
                    except RecursionError:
                        raise Undecided("nesting")
                    if r is not None: results.append((c, r))
                    else:
                        # keep divergence events of that arm
                        for ev in s2.events[n0:]: st.events.append((T.and_(c, ev[0]),) + ev[1:])
            for (c, r) in results:
                # events of diverging siblings were appended to st; carry them
                pass
            if not results: return None
            extra = st.events[n0:]
            regs, st, ret = self.merge(fn, regs, st, n0, extra, results, j)
            if j == "<exit>": return regs, st, ret
            blk, pred, skipphi = j, None, True
            if blk == stop: return regs, st, None

    def diverge(self, st):
        self.divs = getattr(self, "divs", [])

    def depthcheck(self, d):
        if d > 90: raise Undecided("branch nesting (unbounded loop)")

    def assume(self, st, c):
        if T.is_const(c): return c
        if c.id in st.facts: return T.TRUE()
        n = T.not_(c)
        if n.id in st.facts: return T.FALSE()
        if c.op == "and" and c.w == 1:
            parts = [self.assume(st, x) for x in c.a]
            return T.and_(*parts)
        if c.op == "or" and c.w == 1:
            return T.or_(*[self.assume(st, x) for x in c.a])
        f = self.hooks.get("assume")
        if f:
            r = f(self, st, c)
            if r is not None: return r
        return c

    def merge(self, fn, regs, st, n0, extra, results, j):
        base_events = st.events[:n0] + extra
        (c, (r0, s0, v0)) = results[-1]
        evs = [(T.and_(c, e[0]),) + e[1:] for e in s0.events[n0:]]
        if len(results) == 1:
            s0.events = base_events + s0.events[n0:]
            return r0, s0, v0
        mem, live, facts = s0.mem, s0.live, s0.facts
        out_regs = dict(regs)
        phis = [i for i in fn.block(j) if i.op == "phi"] if j != "<exit>" else []
        pv = {i.res: r0[i.res] for i in phis}
        ret = v0
        allev = [evs]
        for c, (r, s, v) in reversed(results[:-1]):
            for i in phis: pv[i.res] = self.mergev(c, r[i.res], pv[i.res])
            if j == "<exit>" and ret is not None: ret = self.mergev(c, v, ret)
            mem = self.mergemem(c, s.mem, mem)
            live = {k: (s.live.get(k) if s.live.get(k) == live.get(k) else "maybe") for k in set(live) | set(s.live)}
            facts = facts & s.facts
            allev.append([(T.and_(c, e[0]),) + e[1:] for e in s.events[n0:]])
        ns = State()
        ns.mem, ns.live, ns.facts = mem, live, facts
        ns.events = base_events + [e for l in reversed(allev) for e in l]
        out_regs.update(pv)
        return out_regs, ns, ret

    def mergev(self, c, a, b):
        if a is b: return a
        if isinstance(a, list):
            if not isinstance(b, list) or len(a) != len(b): raise Undecided("merge shape")
            return [self.mergev(c, x, y) for x, y in zip(a, b)]
        if a is None: return b
        if b is None: return a
        return T.ite(c, a, b)

    def mergemem(self, c, a, b):
        out = dict(b)
        for k in set(a) | set(b):
            x, y = a.get(k), b.get(k)
            if x is y: continue
            o = self.objs[k]
            x, y = x or {}, y or {}
            d = dict(y)
            for off in sorted(set(x) | set(y)):
                e, f = x.get(off) or o.init(off), y.get(off) or o.init(off)
                if e == f: d[off] = e; continue
                (t, i), (u, j) = e, f
                if t.w == u.w and i == j: d[off] = (T.ite(c, t, u), i)
                else:
                    p = T.slice_(t, i * 8, 8) if t.w >= i * 8 + 8 else T.zext(T.slice_(t, i * 8, t.w - i * 8), 8)
                    q = T.slice_(u, j * 8, 8) if u.w >= j * 8 + 8 else T.zext(T.slice_(u, j * 8, u.w - j * 8), 8)
                    d[off] = (T.ite(c, p, q), 0)
            out[k] = d
        return out

    def phis(self, fn, regs, blk, pred):
        new = {}
        for ins in fn.block(blk):
            if ins.op != "phi": break
            ty, inc = ins.x
            for v, l in inc:
                if l == pred:
                    new[ins.res] = self.val(regs, ty, v); break
            else:
                if pred is not None or True: raise Undecided("phi without predecessor %s in %s" % (pred, blk))
        regs.update(new)

    # ------------------------------------------------------------ instructions
    def step(self, regs, st, ins, op, x):
        V = lambda tv: self.val(regs, tv[0], tv[1])
        R = self.mod.resolve
        if op == "bin":
            o, ty, a, b, fl = x
            a, b = self.val(regs, ty, a), self.val(regs, ty, b)
            if isinstance(a, list): return [self.bin1(o, p, q, fl) for p, q in zip(a, b)]
            return self.bin1(o, a, b, fl)
        if op == "fneg":
            a = V(x)
            return [T.fop("fneg", t.w, t) for t in a] if isinstance(a, list) else T.fop("fneg", a.w, a)
        if op == "cast":
            o, ty, v, d = x
            return self.cast(o, ty, self.val(regs, ty, v), d)
        if op == "icmp":
            pred, ty, a, b = x
            a, b = self.val(regs, ty, a), self.val(regs, ty, b)
            if isinstance(a, list): return [self.icmp1(pred, p, q) for p, q in zip(a, b)]
            return self.icmp1(pred, a, b)
        if op == "fcmp":
            pred, ty, a, b = x
            a, b = self.val(regs, ty, a), self.val(regs, ty, b)
            if isinstance(a, list): return [T.fcmp(pred, p, q) for p, q in zip(a, b)]
            return T.fcmp(pred, a, b)
        if op == "select":
            c, a, b = V(x[0]), V(x[1]), V(x[2])
            if isinstance(c, list): return [T.ite(k, p, q) for k, p, q in zip(c, a, b)]
            c = self.assume(st, c)
            return self.mergev(c, a, b) if not T.is_const(c) else (a if T.cval(c) else b)
        if op == "load":
            ty, pty, p = x
            a = self.val(regs, pty, p)
            self.aligned(st, a, ins.aligns())
            return self.load_ty(st, a, ty)
        if op == "store":
            (ty, v), p = x
            a = V(p)
            self.aligned(st, a, ins.aligns())
            self.store_ty(st, a, ty, self.val(regs, ty, v))
            return None
        if op == "getelementptr":
            return self.gep(regs, x[0], x[1], x[2])
        if op == "extractelement":
            v, i = V(x[0]), V(x[1])
            if not T.is_const(i):
                r = None
                if i.op == "undef": return T.undef(v[0].w)
                # gated selection over the finite lane set
                r = v[-1]
                for k in range(len(v) - 2, -1, -1): r = T.ite(T.eq(i, T.const(i.w, k)), v[k], r)
                return r
            k = T.cval(i)
            if k >= len(v):
                self.problem("lane-oob", "extract of lane %d of %d" % (k, len(v)))
                return T.undef(v[0].w)
            return v[k]
        if op == "insertelement":
            v, e, i = V(x[0]), V(x[1]), V(x[2])
            if not T.is_const(i):
                return [T.ite(T.eq(i, T.const(i.w, k)), e, v[k]) for k in range(len(v))]
            k = T.cval(i)
            if k >= len(v):
                self.problem("lane-oob", "insert of lane %d of %d" % (k, len(v)))
                return [T.undef(t.w) for t in v]
            v = list(v); v[k] = e
            return v
        if op == "shufflevector":
            a, b, m = V(x[0]), V(x[1]), V(x[2])
            ab = a + b
            return [T.undef(a[0].w) if k.op == "undef" else ab[T.cval(k)] for k in m]
        if op == "extractvalue":
            v = V(x[0])
            for i in x[1]: v = v[i]
            return v
        if op == "insertvalue":
            a, e = V(x[0]), V(x[1])
            def ins_(a, idx):
                a = list(a)
                a[idx[0]] = e if len(idx) == 1 else ins_(a[idx[0]], idx[1:])
                return a
            return ins_(a, x[2])
        if op == "alloca":
            n = 1
            if x[1]:
                k = V(x[1])
                if not T.is_const(k): raise Undecided("dynamic alloca")
                n = T.cval(k)
            self.nalloc += 1
            o = self.new_obj("alloca%d" % self.nalloc, self.mod.size(x[0]) * n, lambda off: (T.undef(8), 0), "alloca")
            o.align = ins.aligns() or None
            return o.base
        if op == "landingpad": return [T.undef(64), T.undef(32)]
        raise Undecided("instruction " + op)

    def load_ty(self, st, p, ty):
        r = self.mod.resolve(ty)
        if r[0] in ("s", "a"):
            out = []
            n = len(r[1]) if r[0] == "s" else r[1]
            for i in range(n):
                off, ft = self.mod.field(r, i)
                out.append(self.load_ty(st, T.lin(64, off, [(p, 1)]), ft))
            return out
        if r[0] == "v":
            w = self.sw(r[2])
            if w == 1: return self.unbits(r, self.load(st, p, r[1]))
            return self.unbits(r, self.load(st, p, w * r[1]))
        return self.load(st, p, self.sw(r))

    def store_ty(self, st, p, ty, v):
        r = self.mod.resolve(ty)
        if r[0] in ("s", "a"):
            n = len(r[1]) if r[0] == "s" else r[1]
            for i in range(n):
                off, ft = self.mod.field(r, i)
                self.store_ty(st, T.lin(64, off, [(p, 1)]), ft, v[i])
            return
        self.store(st, p, self.bits(r, v))

    # ------------------------------------------------------------ calls
    def call(self, fn, regs, st, ins, depth):
        rt, callee, args, attrs = ins.x[:4]
        if callee[0] == "ce" and callee[1] == "bitcast": callee = callee[3]
        if callee[0] != "glob":
            c = self.val(regs, ("p", rt), callee) if callee[0] == "loc" else None
            if c is not None and c.op == "leaf" and c.a[0].startswith("&@"):
                name = c.a[0][2:]
            else: raise Undecided("indirect call")
        else:
            name = callee[1][1:]
        vals = [None if ty[0] == "metadata" else self.val(regs, ty, v) for ty, v in args]
        tys = [ty for ty, _ in args]
        h = self.hooks.get(name)
        if h is None:
            for pre, f in self.hooks.get("prefix", ()):
                if name.startswith(pre): h = f; break
        if h:
            return h(self, st, name, vals, tys, rt)
        if name.startswith("llvm."):
            import x86models
            if name.startswith("llvm.mem") and not (T.is_const(vals[2]) and not T.cval(vals[2])):
                for i, n in ins.aligns(): self.aligned(st, vals[i], n)
            return x86models.call(self, st, name, vals, tys, rt), st
        f = self.mod.funcs.get(name)
        if f is not None:
            save = self.curdbg
            if self.is_cold_panic(name, f):
                st.events.append((T.TRUE(), "panic", name, self.where()))
                return None
            self.visited.add(name)
            self.callers.append(save)
            try: r = self.call_fn(f, vals, st, depth + 1)
            finally: self.callers.pop()
            self.curdbg = save
            if r is None: return None
            return r[2], r[1]
        import x86models
        r = x86models.extern(self, st, name, vals, tys, rt)
        if r is None:
            raise Undecided("call of unknown function " + name)
        if r == "panic":
            st.events.append((T.TRUE(), "panic", name, self.where()))
            return None
        return r

    def is_cold_panic(self, name, f):
        ids = f.attr_ids()
        at = " ".join(self.mod.attrs.get(i, "") for i in ids)
        return "noreturn" in at.split()

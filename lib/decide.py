"""Equality of lane terms: canonical form first; piecewise-affine form for unary integer functions; and a
distinguishing valuation of the two terms before a difference is ever reported."""
import random
import terms as T
from terms import Term

MASK = lambda w: (1 << w) - 1


# ------------------------------------------------------------------ piecewise affine maps over one signed leaf
class NotPWA(Exception):
    pass


LIMIT = 40


def _wrap(ps, w):
    """pieces (lo,hi,a,b) with integer value a*x+b -> value reduced to signed w-bit range"""
    lo_, hi_ = -(1 << (w - 1)), (1 << (w - 1)) - 1
    out = []
    for lo, hi, a, b in ps:
        va, vb = a * lo + b, a * hi + b
        mn, mx = min(va, vb), max(va, vb)
        k0, k1 = (mn - lo_) >> w, (mx - lo_) >> w
        if k1 - k0 > LIMIT: raise NotPWA
        if a == 0:
            out.append((lo, hi, 0, b - (k0 << w))); continue
        for k in range(k0, k1 + 1):
            # lo_ + k*2^w <= a x + b <= hi_ + k*2^w
            l, h = lo_ + (k << w) - b, hi_ + (k << w) - b
            if a > 0: xl, xh = -(-l // a), h // a
            else: xl, xh = -(-h // a) if True else 0, l // a
            if a < 0:
                xl = -((h) // (-a)); xh = (-l) // (-a)
            xl, xh = max(xl, lo), min(xh, hi)
            if xl <= xh: out.append((xl, xh, a, b - (k << w)))
    return _norm(out)


def _norm(ps):
    ps = sorted(ps)
    out = []
    for lo, hi, a, b in ps:
        if lo == hi: pass
        if out and out[-1][2] == a and out[-1][3] == b and out[-1][1] + 1 == lo:
            out[-1] = (out[-1][0], hi, a, b)
        elif out and out[-1][1] + 1 == lo and lo == hi and out[-1][2] * lo + out[-1][3] == a * lo + b:
            out[-1] = (out[-1][0], hi, out[-1][2], out[-1][3])
        else: out.append((lo, hi, a, b))
    # absorb single points into the following piece
    res = []
    for p in reversed(out):
        if res and p[0] == p[1] and p[1] + 1 == res[-1][0] and res[-1][2] * p[0] + res[-1][3] == p[2] * p[0] + p[3]:
            res[-1] = (p[0], res[-1][1], res[-1][2], res[-1][3])
        else: res.append(p)
    res.reverse()
    if len(res) > LIMIT: raise NotPWA
    return res


def _zip(p, q):
    out, i, j = [], 0, 0
    while i < len(p) and j < len(q):
        lo, hi = max(p[i][0], q[j][0]), min(p[i][1], q[j][1])
        if lo <= hi: out.append((lo, hi, p[i][2], p[i][3], q[j][2], q[j][3]))
        if p[i][1] < q[j][1]: i += 1
        else: j += 1
    return out


def _unsigned(ps, w):
    out = []
    for lo, hi, a, b in ps:
        # split at value 0
        neg, pos = _cut(lo, hi, a, b)
        for l, h in neg: out.append((l, h, a, b + (1 << w)))
        for l, h in pos: out.append((l, h, a, b))
    return _norm(out)


def _cut(lo, hi, a, b):
    """split [lo,hi] by sign of a*x+b -> (negative ranges, nonnegative ranges)"""
    if a == 0: return ([(lo, hi)], []) if b < 0 else ([], [(lo, hi)])
    if a > 0:
        z = -(b // a) if b % a == 0 else -(b // a)   # smallest x with a x + b >= 0
        z = -(b // a)
        neg = [(lo, min(hi, z - 1))] if lo <= min(hi, z - 1) else []
        pos = [(max(lo, z), hi)] if max(lo, z) <= hi else []
        return neg, pos
    z = b // (-a)                                    # largest x with a x + b >= 0
    pos = [(lo, min(hi, z))] if lo <= min(hi, z) else []
    neg = [(max(lo, z + 1), hi)] if max(lo, z + 1) <= hi else []
    return neg, pos


def _cond(t, x, memo):
    """set of x (list of ranges with bool) for a 1-bit term"""
    k = ("c", t.id)
    if k in memo: return memo[k]
    if t.op == "const": r = [(x.lo, x.hi, bool(T.cval(t)))]
    elif t.op in ("slt", "ult", "eq"):
        p, q = _pwa(t.a[0], x, memo), _pwa(t.a[1], x, memo)
        if t.op == "ult": p, q = _unsigned(p, t.a[0].w), _unsigned(q, t.a[1].w)
        r = []
        for lo, hi, a, b, c, d in _zip(p, q):
            neg, pos = _cut(lo, hi, a - c, b - d)
            if t.op in ("slt", "ult"):
                r += [(l, h, True) for l, h in neg] + [(l, h, False) for l, h in pos]
            else:
                r += [(l, h, False) for l, h in neg]
                for l, h in pos:
                    n2, p2 = _cut(l, h, c - a, d - b)
                    r += [(u, v, False) for u, v in n2] + [(u, v, True) for u, v in p2]
        r.sort()
    elif t.op == "xor" and len(t.a) == 2 and T.is_const(t.a[0]):
        r = [(l, h, not v) for l, h, v in _cond(t.a[1], x, memo)]
    elif t.op in ("and", "or"):
        r = _cond(t.a[0], x, memo)
        for u in t.a[1:]:
            s = _cond(u, x, memo)
            out, i, j = [], 0, 0
            while i < len(r) and j < len(s):
                lo, hi = max(r[i][0], s[j][0]), min(r[i][1], s[j][1])
                if lo <= hi: out.append((lo, hi, (r[i][2] and s[j][2]) if t.op == "and" else (r[i][2] or s[j][2])))
                if r[i][1] < s[j][1]: i += 1
                else: j += 1
            r = out
    elif t.op == "slice" and t.w == 1 and t.a[1] == t.a[0].w - 1:
        p = _pwa(t.a[0], x, memo); r = []
        for lo, hi, a, b in p:
            n, q = _cut(lo, hi, a, b)
            r += [(l, h, True) for l, h in n] + [(l, h, False) for l, h in q]
        r.sort()
    else: raise NotPWA
    if len(r) > 4 * LIMIT: raise NotPWA
    memo[k] = r
    return r


class X:
    def __init__(self, leaf):
        self.leaf = leaf
        self.lo, self.hi = -(1 << (leaf.w - 1)), (1 << (leaf.w - 1)) - 1


def _pwa(t, x, memo):
    """signed value of t as piecewise affine function of the signed leaf"""
    r = memo.get(t.id)
    if r is not None: return r
    w = t.w
    if t.op == "leaf":
        if t is not x.leaf: raise NotPWA
        r = [(x.lo, x.hi, 1, 0)]
    elif t.op == "const": r = [(x.lo, x.hi, 0, T.sval(t) if w > 1 else -T.cval(t))]
    elif t.op == "sext": r = _pwa(t.a[0], x, memo)
    elif t.op == "lin":
        r = [(x.lo, x.hi, 0, T._sg(t.a[0], w))]
        for i in range(1, len(t.a), 2):
            k = T._sg(t.a[i + 1], w)
            r = [(lo, hi, a + k * c, b + k * d) for lo, hi, a, b, c, d in _zip(r, _pwa(t.a[i], x, memo))]
        r = _wrap(r, w)
    elif t.op == "slice" and t.a[1] == 0: r = _wrap(_pwa(t.a[0], x, memo), w)
    elif t.op == "concat":
        # low piece + constant / sign-free high pieces
        lowu = _unsigned(_pwa(t.a[0], x, memo), t.a[0].w)
        pos = t.a[0].w
        for p in t.a[1:]:
            q = _pwa(p, x, memo)
            lowu = [(lo, hi, a + (c << pos), b + (d << pos)) for lo, hi, a, b, c, d in _zip(lowu, q)]
            pos += p.w
            if p is not t.a[-1]:
                raise NotPWA
        r = _wrap(lowu, w)
    elif t.op in ("smin", "smax", "umin", "umax"):
        p, q = _pwa(t.a[0], x, memo), _pwa(t.a[1], x, memo)
        if t.op[0] == "u": p, q = _unsigned(p, w), _unsigned(q, w)
        r = []
        for lo, hi, a, b, c, d in _zip(p, q):
            neg, pos = _cut(lo, hi, a - c, b - d)
            if t.op.endswith("min"): r += [(l, h, a, b) for l, h in neg] + [(l, h, c, d) for l, h in pos]
            else: r += [(l, h, c, d) for l, h in neg] + [(l, h, a, b) for l, h in pos]
        r = _wrap(_norm(r), w)
    elif t.op == "ite":
        c = _cond(t.a[0], x, memo)
        p, q = _pwa(t.a[1], x, memo), _pwa(t.a[2], x, memo)
        r = []
        for lo, hi, v in c:
            for l, h, a, b in (p if v else q):
                l2, h2 = max(l, lo), min(h, hi)
                if l2 <= h2: r.append((l2, h2, a, b))
        r = _norm(r)
    elif w == 1:
        r = [(l, h, 0, -1 if v else 0) for l, h, v in _cond(t, x, memo)]
    elif t.op == "xor" and len(t.a) == 2 and T.is_const(t.a[0]) and T.cval(t.a[0]) == MASK(w):
        r = [(lo, hi, -a, -b - 1) for lo, hi, a, b in _pwa(t.a[1], x, memo)]
    else: raise NotPWA
    r = _norm(r)
    memo[t.id] = r
    return r


def pwa(t):
    ls = [l for l in T.leaves(t)]
    if len(ls) != 1: raise NotPWA
    return _pwa(t, X(ls[0]), {})


# ------------------------------------------------------------------ sums of one-lane functions
class NotSep(Exception):
    pass


def _summands(t, out, k=1):
    w = t.w
    if t.op == "lin":
        out.append((t.a[0] * k, None))
        for i in range(1, len(t.a), 2): _summands(t.a[i], out, k * t.a[i + 1])
    elif t.op == "popcount":
        x = t.a[0]
        if x.op == "concat":
            for q in x.a: _summands(T.mk("popcount", w, q) if not T.is_const(q) else T.const(w, bin(T.cval(q)).count("1")), out, k)
        elif x.w > 4:
            for i in range(0, x.w, 4): _summands(T.mk("popcount", w, T.slice_(x, i, min(4, x.w - i))), out, k)
        else: out.append((k, t))
    elif t.op == "const": out.append((T.cval(t) * k, None))
    else: out.append((k, t))


def _atoms(t, out, seen):
    """the leaf bit ranges a term depends on"""
    if t.id in seen: return
    seen.add(t.id)
    if t.op == "leaf": out.add((t, 0, t.w)); return
    if t.op == "slice" and t.a[0].op == "leaf": out.add((t.a[0], t.a[1], t.w)); return
    for x in t.a:
        if isinstance(x, Term): _atoms(x, out, seen)


def _groups(t):
    ss = []
    _summands(t, ss)
    c, g = 0, {}
    for k, x in ss:
        if x is None: c += k; continue
        at = set()
        _atoms(x, at, set())
        if len({a[0].id for a in at}) != 1: raise NotSep
        leaf = next(iter(at))[0]
        lo, hi = min(a[1] for a in at), max(a[1] + a[2] for a in at)
        g.setdefault(leaf, []).append((lo, hi, k, x))
    return c, g


def _const_diff(p, q, w):
    """difference of two piecewise affine maps if constant modulo 2^w, else None (and a point where they part)"""
    d = None
    for lo, hi, a, b, c, e in _zip(p, q):
        for x in (lo, hi):
            v = (a * x + b - c * x - e) % (1 << w)
            if d is None: d = v
            elif v != d: return None, x
    return d, None


def separable(got, want):
    """both sides as sums of functions of one lane each: compared function by function.
    -> True | counterexample text | raises NotSep"""
    w = got.w
    c1, g1 = _groups(got); c2, g2 = _groups(want)
    c = c1 - c2
    for leaf in set(g1) | set(g2):
        a, b = g1.get(leaf, []), g2.get(leaf, [])
        try:
            x = X(leaf)
            f = lambda ss: _pwa(T.lin(w, 0, [(t, k) for _, _, k, t in ss]), x, {})
            d, pt = _const_diff(f(a), f(b), w)
            if d is None: return "the contribution of %s is wrong (for instance for %s = %d)" % (leaf.a[0], leaf.a[0], pt)
            c += d; continue
        except NotPWA: pass
        # disjoint bit ranges of the lane: tabulate each over its own finite domain
        cuts = sorted({(lo, hi) for lo, hi, _, _ in a + b})
        rng = []
        for lo, hi in cuts:
            if rng and lo < rng[-1][1]: rng[-1] = (rng[-1][0], max(hi, rng[-1][1]))
            else: rng.append((lo, hi))
        for lo, hi in rng:
            if hi - lo > 8: raise NotSep
            d = None
            for v in range(1 << (hi - lo)):
                env = {leaf.id: v << lo}
                memo = {}
                try: s = sum(k * T.ev(t, env, memo) for l, h, k, t in a if lo <= l < hi) - sum(k * T.ev(t, env, memo) for l, h, k, t in b if lo <= l < hi)
                except T.NoValue: raise NotSep
                s %= 1 << w
                if d is None: d = s
                elif d != s: return "the contribution of bits %d..%d of %s is wrong" % (lo, hi, leaf.a[0])
            c += d
    if c % (1 << w): return "the result is off by the constant %d" % (c % (1 << w))
    return True


# ------------------------------------------------------------------ boolean combinations of lane comparisons
class NotBool(Exception):
    pass


class Bdd:
    """ordered decision diagrams over 1-bit terms; a node is (level, low, high) interned, 0/1 are the constants"""
    def __init__(self):
        self.nodes, self.ids, self.vars, self.memo, self.terms = [None, None], {}, {}, {}, []

    def node(self, v, lo, hi):
        if lo == hi: return lo
        k = (v, lo, hi)
        if k not in self.ids:
            if len(self.nodes) > 20000: raise NotBool
            self.ids[k] = len(self.nodes); self.nodes.append(k)
        return self.ids[k]

    def ite(self, c, x, y):
        if c == 1 or x == y: return x
        if c == 0: return y
        k = (c, x, y)
        if k in self.memo: return self.memo[k]
        v = min(self.nodes[n][0] for n in k if n > 1)
        cof = lambda n, b: self.nodes[n][1 + b] if n > 1 and self.nodes[n][0] == v else n
        r = self.node(v, self.ite(cof(c, 0), cof(x, 0), cof(y, 0)), self.ite(cof(c, 1), cof(x, 1), cof(y, 1)))
        self.memo[k] = r
        return r

    def bits(self, t, cache):
        """the decision diagram of every bit of a term, lowest first"""
        r = cache.get(t.id)
        if r is not None: return r
        if t.op == "const": r = [(T.cval(t) >> i) & 1 for i in range(t.w)]
        elif t.op == "ite":
            c = self.bits(t.a[0], cache)[0]
            r = [self.ite(c, x, y) for x, y in zip(self.bits(t.a[1], cache), self.bits(t.a[2], cache))]
        elif t.op == "concat": r = [b for p in t.a for b in self.bits(p, cache)]
        elif t.op in ("and", "or", "xor"):
            ps = [self.bits(p, cache) for p in t.a]
            r = ps[0]
            for q in ps[1:]:
                r = [self.ite(x, y, 0) if t.op == "and" else self.ite(x, 1, y) if t.op == "or" else self.ite(x, self.ite(y, 0, 1), y) for x, y in zip(r, q)]
        elif t.w == 1 and t.op != "undef":
            if t.id not in self.vars: self.vars[t.id] = len(self.terms); self.terms.append(t)
            r = [self.node(self.vars[t.id], 0, 1)]
        else: raise NotBool
        cache[t.id] = r
        return r


def boolean(got, want):
    """both sides as boolean combinations of lane comparisons: the same function of the comparisons, or lane values
    (confirmed by evaluation) on which the two differ -> True | text | None (differ as functions, no lane values found)"""
    B, cache = Bdd(), {}
    g, w = B.bits(want, cache), B.bits(got, cache)
    if len(B.terms) < 2: raise NotBool
    if g == w: return True
    d = 0
    for x, y in zip(g, w): d = B.ite(x, B.ite(y, d, 1), B.ite(y, 1, d))
    path, n = {}, d
    while n > 1:
        v, lo, hi = B.nodes[n]
        path[v] = int(lo == 0); n = lo if lo else hi
    for dflt in (1, 0):
        env = {}
        for v, t in enumerate(B.terms):
            if t.op not in ("eq", "feq") or any(x.op not in ("leaf", "const") for x in t.a): continue
            one = T.f2b(1.0, t.a[0].w) if t.op == "feq" else 1
            two = T.f2b(2.0, t.a[0].w) if t.op == "feq" else 2
            same = path.get(v, dflt)
            for i, x in enumerate(t.a):
                if x.op == "leaf": env.setdefault(x.id, T.cval(t.a[1 - i]) if same and T.is_const(t.a[1 - i]) else one if same or i == 0 else two)
        ls = T.leaves(got) | T.leaves(want)
        for l in ls: env.setdefault(l.id, 0)
        try:
            m = {}
            if T.ev(got, env, m) != T.ev(want, env, m):
                odd = [t for v, t in enumerate(B.terms) if path.get(v) == 0]
                return "with %s the result is %#x, required %#x" % (", ".join(T.show(t, 2) + " false" for t in odd[:3]) or "all comparisons true", T.ev(got, env, m), T.ev(want, env, m))
        except T.NoValue: pass
    return None


# ------------------------------------------------------------------ min / max without not-a-number
def nonan(t, memo):
    """rewrite a term under the assumption that no lane is a not-a-number"""
    r = memo.get(t.id)
    if r is not None: return r
    a = [nonan(x, memo) if isinstance(x, Term) else x for x in t.a]
    if t.op == "fnan": r = T.FALSE()
    elif t.op in ("x86min", "fmin"): r = T.mk("fmin", t.w, *sorted(a, key=lambda t: t.id))
    elif t.op in ("x86max", "fmax"): r = T.mk("fmax", t.w, *sorted(a, key=lambda t: t.id))
    elif t.op == "ite":
        c, x, y = a
        r = None
        n = False
        if c.op == "xor" and T.is_const(c.a[0]): c, x, y = c.a[1], y, x
        parts = c.a if c.op == "or" else [c]
        fl = [p for p in parts if p.op == "flt"]
        if len(fl) == 1 and all(p.op in ("flt", "feq") for p in parts):
            p, q = fl[0].a
            if {p.id, q.id} == {x.id, y.id}: r = T.mk("fmin" if p is x else "fmax", t.w, *sorted((x, y), key=lambda t: t.id))
        if r is None: r = T.ite(a[0], a[1], a[2])
    elif t.op in ("and", "or", "xor"): r = {"and": T.and_, "or": T.or_, "xor": T.xor}[t.op](*a)
    elif t.op == "concat": r = T.concat(a)
    elif t.op == "slice": r = T.slice_(a[0], a[1], t.w)
    elif all(x is y for x, y in zip(a, t.a)): r = t
    else: r = T.mk(t.op, t.w, *a)
    memo[t.id] = r
    return r


def nan_free(env, ls):
    zeros = 0
    for l in ls:
        if l.w not in (32, 64): continue
        v = env[l.id]
        if _isnan(v, l.w): return False
        if v & MASK(l.w - 1) == 0: zeros += 1
    return zeros < 2


# ------------------------------------------------------------------ float association
def fl_multiset(t, op):
    out, todo = [], [t]
    while todo:
        u = todo.pop()
        if u.op == op: todo += u.a
        elif u.op == "const" and T.cval(u) in ((0, 1 << (u.w - 1)) if op == "fadd" else (0x3f800000 if u.w == 32 else 0x3ff0000000000000,)): pass
        else: out.append(u)
    return sorted(x.id for x in out)


# ------------------------------------------------------------------ valuations
SPECIAL32 = [0, 0x80000000, 0x3f800000, 0xbf800000, 0x40200000, 0xc0200000, 0x3f000000, 0xbf000000, 0x7f800000, 0xff800000, 0x7fc00000, 1, 0x7f7fffff, 0x4effffff, 0xcf000000, 0x402ccccd, 0xc02ccccd]
SPECIAL64 = [0, 1 << 63, 0x3ff0000000000000, 0xbff0000000000000, 0x4004000000000000, 0xc004000000000000, 0x3fe0000000000000, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 1, 0x7fefffffffffffff, 0x41dfffffffc00000, 0xc1e0000000000000, 0x400599999999999a]


def valuations(terms, seed=1, n=160, leafcls=None, floats=False):
    """boundary and mixed valuations of the leaves of the given terms"""
    ls = set()
    for t in terms: ls |= T.leaves(t)
    ls = sorted(ls, key=lambda l: l.id)
    cs = set()
    for t in terms: cs |= T.consts_in(t)
    rnd = random.Random(seed)
    pool = {}
    for l in ls:
        w = l.w
        v = {0, 1, 2, MASK(w), 1 << (w - 1), (1 << (w - 1)) - 1, (1 << (w - 1)) + 1, MASK(w) - 1, 3, 0x55555555_55555555 & MASK(w)}
        for cw, c in cs:
            for d in (-1, 0, 1):
                v.add((c + d) & MASK(w))
                if cw < w and c >> (cw - 1): v.add(((c | (MASK(w) ^ MASK(cw))) + d) & MASK(w))
        for k in (8, 16, 32):
            if k < w:
                for d in (-1, 0, 1): v |= {((1 << k) + d) & MASK(w), ((1 << (k - 1)) + d) & MASK(w), (-(1 << (k - 1)) + d) & MASK(w)}
        if w == 32: v |= set(SPECIAL32)
        if w == 64: v |= set(SPECIAL64)
        pool[l.id] = sorted(v)
    if not ls:
        yield {}; return
    for k in range(n):
        env = {}
        for l in ls:
            p = pool[l.id]
            m = k % 4
            if m == 0: env[l.id] = p[rnd.randrange(len(p))]
            elif m == 1: env[l.id] = rnd.getrandbits(l.w)
            elif m == 2: env[l.id] = p[(k // 4 + l.id) % len(p)]
            else: env[l.id] = p[rnd.randrange(len(p))] if rnd.random() < .5 else rnd.getrandbits(l.w)
            if floats and l.w in (32, 64) and k % 8 == 5:
                import struct
                x = rnd.uniform(-1000, 1000)
                env[l.id] = T.f2b(x, l.w)
        yield env


def compare(got, want, floats=False, allow_undef=False, admissible=None, seed=1, assoc=None):
    """compare_ with every non-syntactic "equal" cross-checked by evaluating both terms at a few lane values"""
    r = compare_(got, want, floats, allow_undef, admissible, seed, assoc)
    if r[0] == "equal" and r[1] in ("piecewise-affine", "sum of one-lane functions"):
        n = 0
        for env in valuations([got, want], seed, floats=False):
            try: g, w = T.ev(got, env, {}), T.ev(want, env, {})
            except T.NoValue: continue
            if g != w: raise AssertionError("analysis rule %s is wrong: %s / %s" % (r[1], T.show(got, 5), T.show(want, 5)))
            n += 1
            if n >= 3: break
    return r


def compare_(got, want, floats=False, allow_undef=False, admissible=None, seed=1, assoc=None):
    """-> ("equal", how) | ("differ", text) | ("undecided", text)
    admissible(env) restricts the valuations the property speaks about."""
    if got is want: return ("equal", "canonical")
    if got.op == "undef": return ("differ", "lane is undefined (never written, or read from outside the source)")
    if assoc == "minmax":
        if nonan(got, {}) is nonan(want, {}): return ("equal", "minimum/maximum of the same operands")
        ls = T.leaves(got) | T.leaves(want)
        admissible = lambda env: nan_free(env, ls)
        assoc = None
    elif assoc:
        if fl_multiset(got, assoc) == fl_multiset(want, assoc): return ("equal", "same summands/factors")
    exact = None
    if not floats and T.leaves(got) == T.leaves(want):
        # both depend on the same single lane (pwa raises otherwise)
        try:
            a, b = pwa(got), pwa(want)
            exact = a == b
            if exact: return ("equal", "piecewise-affine")
            for lo, hi, p, q, r, s in _zip(a, b):
                if p * lo + q != r * lo + s: x = lo
                elif p * hi + q != r * hi + s: x = hi
                else: continue
                return ("differ", "for %s = %d the result is %d, required %d" % (next(iter(T.leaves(want) | T.leaves(got))).a[0], x, p * x + q, r * x + s))
            if a and b and (a[0][0], a[-1][1]) == (b[0][0], b[-1][1]): return ("equal", "piecewise-affine")       # affine pieces that agree at both ends
        except NotPWA:
            pass
    if not floats and (got.op in ("lin", "popcount", "concat") or want.op in ("lin", "popcount", "concat")):
        try:
            r = separable(got, want)
            if r is True: return ("equal", "sum of one-lane functions")
            return ("differ", r)
        except NotSep: pass
    if got.w <= 8 and got.w == want.w:
        try:
            r = boolean(got, want)
            if r is True: return ("equal", "boolean form")
            if r: return ("differ", r)
        except (NotBool, RecursionError): pass
    tried = novalue = 0
    for env in valuations([got, want], seed, floats=floats):
        if admissible and not admissible(env): continue
        memo = {}
        try: wv = T.ev(want, env, memo)
        except T.NoValue as e: continue
        try: gv = T.ev(got, env, memo)
        except T.NoValue as e:
            if str(e) == "undef": return ("differ", "lane may be undefined: %s" % T.show(got, 4))
            novalue += 1; continue
        tried += 1
        if gv != wv:
            if floats and assoc: continue
            if floats and _isnan(gv, got.w) and _isnan(wv, want.w): continue
            ls = sorted(T.leaves(got) | T.leaves(want), key=lambda l: l.id)
            s = ", ".join("%s=%#x" % (l.a[0], env[l.id]) for l in ls[:6])
            return ("differ", "with %s the result is %#x, required %#x" % (s, gv, wv))
    if assoc and set(T.leaves(got)) != set(T.leaves(want)):
        return ("differ", "lanes used: %s; required: %s" % (sorted(l.a[0] for l in T.leaves(got)), sorted(l.a[0] for l in T.leaves(want))))
    if assoc:
        a, b = fl_multiset(got, assoc), fl_multiset(want, assoc)
        # a plain tree over the leaves with a different multiset is a different sum
        tab = {l.id for l in T.leaves(want)}
        if all(i in tab for i in a): return ("differ", "a lane is used a wrong number of times")
    return ("undecided", "%d valuations agree; forms differ: got %s want %s" % (tried, T.show(got, 5), T.show(want, 5)))


def _isnan(v, w):
    import math
    return w in (32, 64) and math.isnan(T.b2f(v, w))


def satisfiable(c, seed=1):
    """can a guard be true?  True / text of lane values / False (constant) / None (not known)"""
    if T.is_const(c): return bool(T.cval(c))
    if c.op == "undef": return True
    tried = False
    for env in valuations([c], seed):
        try:
            tried = True
            if T.ev(c, env, {}):
                ls = sorted(T.leaves(c), key=lambda l: l.id)
                return ", ".join("%s=%#x" % (l.a[0], env[l.id]) for l in ls[:4])
        except T.NoValue: pass
    return None

"""Hash-consed lane terms and their canonical form.

A term denotes a bit-vector of width w as a function of the input lanes (leaves).  The smart
constructors keep terms in a normal form in which the idioms used for one and the same lane function
(unpack + arithmetic shift = sign extension, horizontal-add trees = linear sums, byte shuffles =
slices, masks = bit selections ...) coincide.
"""
import struct, math, fractions

_tab = {}
CUR = {"loc": None}


class Term:
    __slots__ = ("op", "w", "a", "id", "loc", "_deps")

    def __repr__(self): return show(self)


def mk(op, w, *a):
    key = (op, w) + tuple(x.id if isinstance(x, Term) else ("k", x) for x in a)
    t = _tab.get(key)
    if t is None:
        t = Term()
        t.op, t.w, t.a, t.id, t.loc, t._deps = op, w, a, len(_tab), CUR["loc"], None
        _tab[key] = t
    return t


def reset():
    _tab.clear()


def mentions(t, x):
    """does x occur in t"""
    seen, todo = set(), [t]
    while todo:
        y = todo.pop()
        if y is x: return True
        if isinstance(y, Term) and y.id not in seen: seen.add(y.id); todo.extend(y.a)
    return False


def const(w, v): return mk("const", w, v & ((1 << w) - 1))
def undef(w): return mk("undef", w)
def leaf(w, name): return mk("leaf", w, name)
def is_const(t): return t.op == "const"
def cval(t): return t.a[0]
def sval(t):
    v = t.a[0]
    return v - (1 << t.w) if v >> (t.w - 1) else v
def ones(w): return const(w, -1)
def zero(w): return const(w, 0)
TRUE = lambda: const(1, 1)
FALSE = lambda: const(1, 0)


def show(t, depth=6):
    if t.op == "const": return "%d:i%d" % (sval(t) if t.w > 1 else t.a[0], t.w)
    if t.op == "leaf": return t.a[0]
    if t.op == "undef": return "undef"
    if depth == 0: return "..."
    if t.op == "slice": return "%s<%d:%d>" % (show(t.a[0], depth - 1), t.a[1], t.a[1] + t.w)
    if t.op == "lin":
        c, parts = t.a[0], t.a[1:]
        s = []
        for i in range(0, len(parts), 2):
            k = parts[i + 1]
            if k >> (t.w - 1): k -= 1 << t.w
            s.append(("%s" if k == 1 else "%d*%%s" % k) % show(parts[i], depth - 1))
        if c: s.append(str(c - (1 << t.w) if c >> (t.w - 1) else c))
        return "(" + " + ".join(s) + ")"
    n = {"concat": "cat"}.get(t.op, t.op)
    if t.op == "concat" and len(t.a) == 2 and is_const(t.a[1]) and cval(t.a[1]) == 0:
        return "zext%d(%s)" % (t.w, show(t.a[0], depth - 1))
    return "%s%d(%s)" % (n, t.w, ", ".join(show(x, depth - 1) if isinstance(x, Term) else str(x) for x in t.a))


# ---------------------------------------------------------------- bit structure
def pieces(t):
    return list(t.a) if t.op == "concat" else [t]


def slice_(t, lo, w):
    if lo == 0 and w == t.w: return t
    assert 0 <= lo and lo + w <= t.w, (t, lo, w)
    if t.op == "const": return const(w, cval(t) >> lo)
    if t.op == "undef": return undef(w)
    if t.op == "slice": return slice_(t.a[0], t.a[1] + lo, w)
    if t.op == "concat":
        out, pos = [], 0
        for p in t.a:
            a, b = max(lo, pos), min(lo + w, pos + p.w)
            if a < b: out.append(slice_(p, a - pos, b - a))
            pos += p.w
        return concat(out)
    if t.op == "ite":
        return ite(t.a[0], slice_(t.a[1], lo, w), slice_(t.a[2], lo, w))
    if t.op in ("and", "or", "xor"):
        return {"and": and_, "or": or_, "xor": xor}[t.op](*[slice_(x, lo, w) for x in t.a])
    if t.op == "sext":
        x = t.a[0]
        if lo + w <= x.w: return slice_(x, lo, w)
        if lo >= x.w - 1: return sext(slice_(x, x.w - 1, 1), w) if w > 1 else slice_(x, x.w - 1, 1)
        return sext(slice_(x, lo, x.w - lo), w)
    if lo == 0 and t.op == "lin":
        return lin(w, t.a[0], [(slice_(t.a[i], 0, w), t.a[i + 1]) for i in range(1, len(t.a), 2)])
    if lo > 0 and t.op == "popcount" and urange(t)[1] < 1 << lo: return zero(w)
    if lo == 0 and t.op == "mul":
        return mul(*[slice_(x, 0, w) for x in t.a])
    if lo > 0 and t.op == "lin":
        # low bits that are zero and do not carry: (x<<k) handled by shl -> concat, nothing to do
        pass
    return mk("slice", w, t, lo)


def concat(ps):
    out = []
    for p in ps:
        if p.op == "concat": out.extend(p.a)
        elif p.w: out.append(p)
    res = []
    for p in out:
        if res:
            q = res[-1]
            if q.op == "const" and p.op == "const":
                res[-1] = const(q.w + p.w, cval(q) | cval(p) << q.w); continue
            if q.op == "undef" and p.op == "undef":
                res[-1] = undef(q.w + p.w); continue
            if p.op == "slice":
                b = p.a[0]
                if q.op == "slice" and q.a[0] is b and q.a[1] + q.w == p.a[1]:
                    res[-1] = slice_(b, q.a[1], q.w + p.w); continue
                # slice(lo=0) of compound terms may have been pushed inside: try to recombine
                if p.a[1] > 0 and p.a[1] == q.w and slice_(b, 0, q.w) is q:
                    res[-1] = slice_(b, 0, q.w + p.w); continue
                if q.op != "slice" and p.a[1] - q.w >= 0 and slice_(b, p.a[1] - q.w, q.w) is q:
                    res[-1] = slice_(b, p.a[1] - q.w, q.w + p.w); continue
        res.append(p)
    if len(res) == 1: return res[0]
    w = sum(p.w for p in res)
    # all ites under one condition
    if all(p.op == "ite" for p in res):
        c = res[0].a[0]
        if all(p.a[0] is c for p in res):
            return ite(c, concat([p.a[1] for p in res]), concat([p.a[2] for p in res]))
    c0 = next((p.a[0] for p in res if p.op == "ite"), None)
    if c0 is not None and all(p.op == "const" or (p.op == "ite" and p.a[0] is c0) for p in res) and \
            all(p.op == "const" or (p.a[1].op == "const" and p.a[2].op == "const") for p in res):
        return ite(c0, concat([p.a[1] if p.op == "ite" else p for p in res]),
                   concat([p.a[2] if p.op == "ite" else p for p in res]))
    # x, then copies of its sign bit
    if len(res) == 2 and res[0].op == "sext" and False: pass
    if len(res) >= 2:
        for k in range(1, len(res)):
            x = concat(res[:k]) if k > 1 else res[0]
            s = slice_(x, x.w - 1, 1)
            if not is_const(s) and all(_all_sign(p, s) for p in res[k:]):
                return sext(x, w)
            if k >= 2: break
    # zext of a small exact sum stays a sum
    if len(res) == 2 and res[1].op == "const" and cval(res[1]) == 0:
        b = res[0]
        if b.op == "slice" and b.a[1] == 0 and b.a[0].w >= w and urange(b.a[0])[1] < 1 << b.w: return slice_(b.a[0], 0, w)
        d = _zext_lin(res[0], w)
        if d is not None: return d
    return mk("concat", w, *res)


def _all_sign(p, s):
    """p is entirely copies of sign bit s?"""
    if p is s: return True
    if p.op == "sext" and p.a[0] is s: return True
    if p.op == "ite" and is_const(p.a[1]) and is_const(p.a[2]) and cval(p.a[1]) == (1 << p.w) - 1 and cval(p.a[2]) == 0:
        return signbit_of(p.a[0]) is s
    return False


def signbit_of(c):
    """c = (x <s 0)  ->  the term for x's top bit"""
    if c.op == "slt" and is_const(c.a[1]) and cval(c.a[1]) == 0:
        return slice_(c.a[0], c.a[0].w - 1, 1)
    return c if c.op in ("slice", "leaf") else None


def zext(t, w):
    return t if w == t.w else concat([t, zero(w - t.w)])


def sext(t, w):
    if w == t.w: return t
    if t.op == "const": return const(w, sval(t))
    if t.op == "undef": return undef(w)
    if t.op == "sext": return sext(t.a[0], w)
    if t.w == 1 and t.op != "slice": return ite(t, ones(w), zero(w))
    if t.op == "ite": return ite(t.a[0], sext(t.a[1], w), sext(t.a[2], w))
    if t.op == "concat" and is_const(t.a[-1]) and not (cval(t.a[-1]) >> (t.a[-1].w - 1)):
        return concat(list(t.a) + [zero(w - t.w)])
    if t.op == "lin":
        r = srange_lin(t)
        if r is not None:
            return lin(w, sval(const(t.w, t.a[0])), [(sext(t.a[i], w), _sg(t.a[i + 1], t.w)) for i in range(1, len(t.a), 2)])
    if t.op in ("smin", "smax"):
        return (smin if t.op == "smin" else smax)(sext(t.a[0], w), sext(t.a[1], w))
    return mk("sext", w, t)


def trunc(t, w): return slice_(t, 0, w)


def _sg(k, w):
    k &= (1 << w) - 1
    return k - (1 << w) if k >> (w - 1) else k


def srange(t):
    """signed range of a term (sound over-approximation)"""
    if is_const(t): return (sval(t), sval(t))
    if t.op == "sext": return srange(t.a[0])
    if t.op == "concat" and is_const(t.a[-1]) and cval(t.a[-1]) == 0:
        return (0, (1 << (t.w - t.a[-1].w)) - 1)
    if t.op == "ite":
        a, b = srange(t.a[1]), srange(t.a[2])
        return (min(a[0], b[0]), max(a[1], b[1]))
    if t.op == "lin":
        r = srange_lin(t)
        if r: return r
    if t.op == "popcount": return (0, t.a[0].w)
    if t.op == "smin":
        a, b = srange(t.a[0]), srange(t.a[1]); return (min(a[0], b[0]), min(a[1], b[1]))
    if t.op == "smax":
        a, b = srange(t.a[0]), srange(t.a[1]); return (max(a[0], b[0]), max(a[1], b[1]))
    return (-(1 << (t.w - 1)), (1 << (t.w - 1)) - 1)


def urange(t):
    if is_const(t): return (cval(t), cval(t))
    if t.op == "concat" and is_const(t.a[-1]) and cval(t.a[-1]) == 0:
        if len(t.a) == 2: return urange(t.a[0])
        return (0, (1 << (t.w - t.a[-1].w)) - 1)
    if t.op == "ite":
        a, b = urange(t.a[1]), urange(t.a[2])
        return (min(a[0], b[0]), max(a[1], b[1]))
    if t.op == "popcount": return (0, t.a[0].w)
    if t.op == "leaf" and t.w == 64 and t.a[0].startswith("&"): return (4096, 1 << 47)      # addresses of objects: not null, user space
    if t.op == "umin":
        a, b = urange(t.a[0]), urange(t.a[1]); return (min(a[0], b[0]), min(a[1], b[1]))
    if t.op == "lin":
        lo = hi = _sg(t.a[0], t.w)
        for i in range(1, len(t.a), 2):
            k = _sg(t.a[i + 1], t.w); a, b = urange(t.a[i])
            lo += min(k * a, k * b); hi += max(k * a, k * b)
        if lo >= 0 and hi < (1 << t.w): return (lo, hi)
    return (0, (1 << t.w) - 1)


def srange_lin(t):
    lo = hi = _sg(t.a[0], t.w)
    for i in range(1, len(t.a), 2):
        k = _sg(t.a[i + 1], t.w); a, b = srange(t.a[i])
        lo += min(k * a, k * b); hi += max(k * a, k * b)
    if -(1 << (t.w - 1)) <= lo and hi < (1 << (t.w - 1)): return (lo, hi)
    return None


def _zext_lin(t, w):
    if t.op == "lin":
        lo = hi = _sg(t.a[0], t.w)
        for i in range(1, len(t.a), 2):
            k = _sg(t.a[i + 1], t.w); a, b = urange(t.a[i])
            lo += min(k * a, k * b); hi += max(k * a, k * b)
        if lo >= 0 and hi < (1 << t.w):
            return lin(w, _sg(t.a[0], t.w), [(zext(t.a[i], w), _sg(t.a[i + 1], t.w)) for i in range(1, len(t.a), 2)])
    if t.op == "popcount":
        return mk("popcount", w, t.a[0])
    return None


# ---------------------------------------------------------------- modular linear arithmetic
def lin(w, c, parts):
    acc, cc = {}, c
    todo = list(parts)
    while todo:
        t, k = todo.pop()
        k &= (1 << w) - 1
        if not k: continue
        if t.op == "const": cc += k * cval(t)
        elif t.op == "undef": return undef(w)
        elif t.op == "lin":
            cc += k * t.a[0]
            for i in range(1, len(t.a), 2): todo.append((t.a[i], k * t.a[i + 1]))
        else:
            e = acc.get(t.id)
            acc[t.id] = (t, ((e[1] if e else 0) + k) & ((1 << w) - 1))
    cc &= (1 << w) - 1
    items = sorted(((i, t, k) for i, (t, k) in acc.items() if k))
    if not items: return const(w, cc)
    if len(items) == 1 and items[0][2] == 1 and cc == 0: return items[0][1]
    if w == 1:
        r = items[0][1]
        for _, t, _ in items[1:]: r = xor(r, t)
        return xor(r, const(1, cc)) if cc else r
    flat = []
    for _, t, k in items: flat += [t, k]
    # disjoint concat: c + zext with no overlap is kept as sum
    if len(items) == 1 and cc == 0:
        k = items[0][2]
        if k & (k - 1) == 0:      # shift left
            s = k.bit_length() - 1
            return concat([zero(s), slice_(items[0][1], 0, w - s)])
        x = items[0][1]           # a multiple of a zero-extended bit is a choice
        if x.op == "concat" and len(x.a) == 2 and x.a[0].w == 1 and x.a[0].op != "slice" and is_const(x.a[1]) and cval(x.a[1]) == 0:
            return ite(x.a[0], const(w, k), zero(w))
    return mk("lin", w, cc, *flat)


def add(a, b): return lin(a.w, 0, [(a, 1), (b, 1)])
def sub(a, b):
    return lin(a.w, 0, [(a, 1), (b, -1)])
def neg(a): return lin(a.w, 0, [(a, -1)])


def mul(*ts):
    w = ts[0].w
    k, fac, todo = 1, [], list(ts)
    while todo:
        t = todo.pop()
        if t.op == "const": k *= cval(t)
        elif t.op == "undef": return undef(w)
        elif t.op == "mul": todo += t.a
        elif t.op == "lin" and len(t.a) == 3 and t.a[0] == 0:
            k *= t.a[2]; todo.append(t.a[1])
        else: fac.append(t)
    k &= (1 << w) - 1
    if k == 0: return zero(w)
    if not fac: return const(w, k)
    if len(fac) == 1: return lin(w, 0, [(fac[0], k)])
    fac.sort(key=lambda t: t.id)
    m = mk("mul", w, *fac)
    return m if k == 1 else lin(w, 0, [(m, k)])


def shl(t, n):
    if n >= t.w: return undef(t.w)
    if n == 0: return t
    return concat([zero(n), slice_(t, 0, t.w - n)])
def lshr(t, n):
    if n >= t.w: return undef(t.w)
    return t if n == 0 else concat([slice_(t, n, t.w - n), zero(n)])
def ashr(t, n):
    if n >= t.w: return undef(t.w)
    return t if n == 0 else sext(slice_(t, n, t.w - n), t.w)


# ---------------------------------------------------------------- bitwise
def _split(ts, f):
    """apply f on aligned pieces if any operand is a concat (or const with byte structure)"""
    cuts = set()
    w = ts[0].w
    for t in ts:
        pos = 0
        for p in pieces(t):
            pos += p.w; cuts.add(pos)
        if t.op == "const":
            v, prev = cval(t), None
            for i in range(w):
                b = (v >> i) & 1
                if prev is not None and b != prev: cuts.add(i)
                prev = b
    cuts.add(w)
    cuts = sorted(cuts)
    if len(cuts) == 1: return None
    out, lo = [], 0
    for c in cuts:
        out.append(f(*[slice_(t, lo, c - lo) for t in ts])); lo = c
    return concat(out)


def _ac(op, ts):
    todo, out = list(ts), {}
    while todo:
        t = todo.pop()
        if t.op == op: todo += t.a
        else: out.setdefault(t.id, [t, 0])[1] += 1
    return out


def and_(*ts):
    w = ts[0].w
    d = _ac("and", ts)
    ts = [d[k][0] for k in sorted(d)]
    if any(t.op == "undef" for t in ts): return undef(w)
    c = (1 << w) - 1
    rest = []
    for t in ts:
        if is_const(t): c &= cval(t)
        else: rest.append(t)
    if c == 0 or not rest: return const(w, c)
    ids = {t.id for t in rest}
    for t in rest:
        if t.op == "xor" and len(t.a) == 2 and is_const(t.a[0]) and cval(t.a[0]) == (1 << w) - 1 and t.a[1].id in ids: return zero(w)
    if w == 1:
        for t in rest:
            if not_(t).id in ids: return zero(1)
    if c != (1 << w) - 1 or any(t.op == "concat" for t in rest):
        ops = rest + ([const(w, c)] if c != (1 << w) - 1 else [])
        if len(ops) == 1: return ops[0]
        r = _split(ops, and_)
        if r is not None: return r
        if c != (1 << w) - 1: return zero(w)  # uniform const piece: zeros
    if len(rest) == 1: return rest[0]
    m = _mask_ite("and", rest)
    return m if m is not None else mk("and", w, *rest)


def or_(*ts):
    w = ts[0].w
    d = _ac("or", ts)
    ts = [d[k][0] for k in sorted(d)]
    if any(t.op == "undef" for t in ts): return undef(w)
    c, rest = 0, []
    for t in ts:
        if is_const(t): c |= cval(t)
        else: rest.append(t)
    full = (1 << w) - 1
    if c == full or not rest: return const(w, c)
    if w == 1:
        ids = {t.id for t in rest}
        for t in rest:
            if not_(t).id in ids: return ones(1)
    if c or any(t.op == "concat" for t in rest):
        ops = rest + ([const(w, c)] if c else [])
        if len(ops) == 1: return ops[0]
        r = _split(ops, or_)
        if r is not None: return r
    if len(rest) == 1: return rest[0]
    m = _mask_ite("or", rest)
    return m if m is not None else mk("or", w, *rest)


def xor(*ts):
    w = ts[0].w
    d = _ac("xor", ts)
    if any(d[k][0].op == "undef" for k in d): return undef(w)
    c, rest = 0, []
    for k in sorted(d):
        t, n = d[k]
        if is_const(t):
            if n & 1: c ^= cval(t)
        elif n & 1: rest.append(t)
    if not rest: return const(w, c)
    if c == 0 and len(rest) == 1: return rest[0]
    if w > 1 and (any(t.op == "concat" for t in rest) or c not in (0, (1 << w) - 1)):
        r = _split(rest + ([const(w, c)] if c else []), xor)
        if r is not None: return r
    if c and len(rest) == 1 and rest[0].op == "ite":
        t = rest[0]
        return ite(t.a[0], xor(t.a[1], const(w, c)), xor(t.a[2], const(w, c)))
    m = _mask_ite("xor", rest + ([const(w, c)] if c else []))
    if m is not None: return m
    return mk("xor", w, *(([const(w, c)] if c else []) + rest))


def not_(t): return xor(t, ones(t.w))


def _mask_ite(op, ts):
    """distribute over an ite with constant all-ones/zero arms (vector masks)"""
    if ts[0].w == 1: return None
    for i, t in enumerate(ts):
        if t.op == "ite" and is_const(t.a[1]) and is_const(t.a[2]) and \
                {cval(t.a[1]), cval(t.a[2])} <= {0, (1 << t.w) - 1}:
            rest = ts[:i] + ts[i + 1:]
            f = {"and": and_, "or": or_, "xor": xor}[op]
            return ite(t.a[0], f(t.a[1], *rest), f(t.a[2], *rest))
    # two ites under the same condition
    its = [t for t in ts if t.op == "ite"]
    if len(its) == len(ts) and len(ts) > 1 and all(t.a[0] is its[0].a[0] for t in its):
        f = {"and": and_, "or": or_, "xor": xor}[op]
        return ite(its[0].a[0], f(*[t.a[1] for t in its]), f(*[t.a[2] for t in its]))
    if len(its) >= 2:
        c = its[0].a[0]
        if sum(1 for t in its if t.a[0] is c) == len(its) and len(its) == len(ts):
            pass
    return None


# ---------------------------------------------------------------- comparison / selection
def _consts_only(t, n=6):
    """a nest of selections between constants (an enumeration value)"""
    return is_const(t) or n > 0 and t.op == "ite" and _consts_only(t.a[1], n - 1) and _consts_only(t.a[2], n - 1)


def eq(a, b):
    if a is b: return TRUE()
    if a.op == "undef" or b.op == "undef": return undef(1)
    if is_const(a) and is_const(b): return const(1, cval(a) == cval(b))
    if a.w == 1:
        return not_(xor(a, b))
    d = lin(a.w, 0, [(a, 1), (b, -1)])
    if is_const(d): return const(1, cval(d) == 0)
    if a.id > b.id: a, b = b, a
    if is_const(a): a, b = b, a
    if is_const(b) and a.op == "ite" and _consts_only(a):
        return ite(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
    if is_const(b) and cval(b) == 0 and a.op == "leaf" and a.a[0].startswith("&"): return FALSE()   # an object's address is not null
    if is_const(b):
        r = urange(a)
        if not r[0] <= cval(b) <= r[1]: return FALSE()
    if is_const(b) and a.op == "concat":
        parts, pos = [], 0
        cs = []
        for p in a.a:
            cs.append(eq(p, slice_(b, pos, p.w)) if p.w < a.w else None); pos += p.w
        if any(is_const(c) and cval(c) == 0 for c in cs): return FALSE()
        keep = [c for c in cs if not is_const(c)]
        if len(keep) == 1: return keep[0]
        if all(is_const(p) or p.w == 1 or p.op == "ite" and _consts_only(p) for p in a.a): return and_(*keep) if keep else TRUE()
    return mk("eq", 1, a, b)


def slt(a, b):
    if a is b: return FALSE()
    if a.op == "undef" or b.op == "undef": return undef(1)
    if is_const(a) and is_const(b): return const(1, sval(a) < sval(b))
    if is_const(b) and a.op == "ite" and _consts_only(a): return ite(a.a[0], slt(a.a[1], b), slt(a.a[2], b))
    ra, rb = srange(a), srange(b)
    if ra[1] < rb[0]: return TRUE()
    if ra[0] >= rb[1]: return FALSE()
    if is_const(a) and sval(a) == -1:      # -1 < x  <=> not (x < 0)
        return not_(slt(b, zero(b.w)))
    if is_const(a): return not_(slt(b, const(b.w, sval(a) + 1)))
    if b.op == "const" and a.op == "sext" and -(1 << (a.a[0].w - 1)) <= sval(b) < (1 << (a.a[0].w - 1)):
        return slt(a.a[0], const(a.a[0].w, sval(b)))
    return mk("slt", 1, a, b)


def ult(a, b):
    if a is b: return FALSE()
    if a.op == "undef" or b.op == "undef": return undef(1)
    if is_const(a) and is_const(b): return const(1, cval(a) < cval(b))
    ra, rb = urange(a), urange(b)
    if ra[1] < rb[0]: return TRUE()
    if ra[0] >= rb[1]: return FALSE()
    if is_const(a): return not_(ult(b, const(b.w, cval(a) + 1)))
    if is_const(b) and cval(b) == 1: return eq(a, zero(a.w))
    return mk("ult", 1, a, b)


def fcmp_un(a, b):
    return mk("fun", 1, *sorted((a, b), key=lambda t: t.id))


def _cond_under(d, k, nk):
    """condition d simplified when k holds (nk: the negation of k)"""
    if d is k: return TRUE()
    if d is nk: return FALSE()
    if d.op == "xor" and is_const(d.a[0]) and d.w == 1:
        e = _cond_under(d.a[1], k, nk) if len(d.a) == 2 else None
        return d if e is None or e is d.a[1] else not_(e)
    if d.op in ("and", "or"):
        hit = [x for x in d.a if x is k or x is nk]
        if not hit: return d
        if d.op == "and": return FALSE() if nk in hit else and_(*[x for x in d.a if x is not k])
        return TRUE() if k in hit else or_(*[x for x in d.a if x is not nk])
    return d


def _under(t, k, nk, n=5):
    """a nest of selections simplified when condition k holds"""
    if t.op != "ite" or n == 0: return t
    c = _cond_under(t.a[0], k, nk)
    if is_const(c): return _under(t.a[1] if cval(c) else t.a[2], k, nk, n - 1)
    a, b = _under(t.a[1], k, nk, n - 1), _under(t.a[2], k, nk, n - 1)
    if c is t.a[0] and a is t.a[1] and b is t.a[2]: return t
    return ite(c, a, b)


def ite(c, a, b):
    if is_const(c): return a if cval(c) else b
    if a is b: return a
    if c.op == "undef": return undef(a.w)
    if c.op == "xor" and is_const(c.a[0]):       # not c
        return ite(not_(c), b, a)
    if a.op == "ite" or b.op == "ite":
        nc = not_(c)
        a, b = _under(a, c, nc), _under(b, nc, c)
    if c.op == "eq" and ((a is c.a[0] and b is c.a[1]) or (a is c.a[1] and b is c.a[0])): return b
    if a.op == "ite" and a.a[0] is c: a = a.a[1]
    if b.op == "ite" and b.a[0] is c: b = b.a[2]
    if a is b: return a
    if a.op == "undef": return b
    if b.op == "undef": return a
    w = a.w
    if w == 1 and is_const(a) and is_const(b): return c if cval(a) else not_(c)
    if w == 1 and is_const(b) and cval(b) == 0: return and_(c, a)
    if w == 1 and is_const(a) and cval(a) == 1: return or_(c, b)
    if w == 1 and is_const(a) and cval(a) == 0: return and_(not_(c), b)
    if w == 1 and is_const(b) and cval(b) == 1: return or_(not_(c), a)
    # min / max idioms
    if c.op in ("slt", "ult"):
        x, y = c.a
        mn, mx = (smin, smax) if c.op == "slt" else (umin, umax)
        if a is x and b is y: return mn(x, y)
        if a is y and b is x: return mx(x, y)
        if is_const(y):
            # x < k ? x : k-1   and  x < k ? k : x ... (canonicalised strictness)
            v = sval(y) if c.op == "slt" else cval(y)
            if a is x and is_const(b) and (sval(b) if c.op == "slt" else cval(b)) == v - 1: return mn(x, b)
            if b is x and is_const(a) and (sval(a) if c.op == "slt" else cval(a)) == v - 1: return mx(x, a)
            if b is x and is_const(a) and (sval(a) if c.op == "slt" else cval(a)) == v: return mx(x, a)
            # the same idioms on a truncated operand: x < k ? x<0:w> : k-1
            def low(t): return t.op == "slice" and t.a[1] == 0 and (t.a[0] is x or (t.a[0].op == mn.__name__ and t.a[0].a[0] is x and is_const(t.a[0].a[1]) and (sval if c.op == "slt" else cval)(t.a[0].a[1]) >= v))
            if w < x.w and v not in ((-(1 << (x.w - 1)) if c.op == "slt" else 0),):
                if is_const(b) and a.op == "slice" and a.a[0] is x and a.a[1] == 0 and cval(b) == (v - 1) & ((1 << w) - 1): return trunc(mn(x, const(x.w, v - 1)), w)
                if is_const(a) and low(b) and cval(a) == v & ((1 << w) - 1): return trunc(mx(b.a[0], const(x.w, v)), w)
                if is_const(a) and low(b) and cval(a) == (v - 1) & ((1 << w) - 1): return trunc(mx(b.a[0], const(x.w, v - 1)), w)
    return mk("ite", w, c, a, b)


def _mm(op, lo_neutral, hi_neutral, val, rng, a, b):
    if a is b: return a
    if a.op == "undef" or b.op == "undef": return undef(a.w)
    ra, rb = rng(a), rng(b)
    small = op in ("smin", "umin")
    if ra[1] <= rb[0]: return a if small else b
    if rb[1] <= ra[0]: return b if small else a
    if is_const(a): a, b = b, a
    if not is_const(b) and a.id > b.id: a, b = b, a
    if is_const(b) and a.op == op and is_const(a.a[1]):
        k = min(val(b), val(a.a[1])) if small else max(val(b), val(a.a[1]))
        return _mm(op, lo_neutral, hi_neutral, val, rng, a.a[0], const(a.w, k))
    # clamp order: canonical = min(max(x, lo), hi)
    other = {"smin": "smax", "smax": "smin", "umin": "umax", "umax": "umin"}[op]
    if not small and is_const(b) and a.op == other and is_const(a.a[1]) and val(b) <= val(a.a[1]):
        inner = _mm(op, 0, 0, val, rng, a.a[0], b)
        return _mm(other, 0, 0, val, rng, inner, a.a[1])
    return mk(op, a.w, a, b)


def smin(a, b): return _mm("smin", 0, 0, sval, srange, a, b)
def smax(a, b): return _mm("smax", 0, 0, sval, srange, a, b)
def umin(a, b): return _mm("umin", 0, 0, cval, urange, a, b)
def umax(a, b): return _mm("umax", 0, 0, cval, urange, a, b)


def sat(op, a, b):
    """sadds / uadds / ssubs / usubs: exact result clamped"""
    w = a.w
    W = w + 2
    if a.op == "undef" or b.op == "undef": return undef(w)
    e = sext if op[0] == "s" else zext
    x, y = e(a, W), e(b, W)
    r = add(x, y) if op[1:] == "adds" else sub(x, y)
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if op[0] == "s" else (0, (1 << w) - 1)
    return trunc(smin(smax(r, const(W, lo)), const(W, hi)), w)


def clamp_trunc(t, w, lo, hi):
    return trunc(smin(smax(t, const(t.w, lo)), const(t.w, hi)), w)


# ---------------------------------------------------------------- floats
def fcomm(op, a, b):
    if a.op == "const" and b.op == "const":
        r = _feval(op, a.w, [cval(a), cval(b)])
        return const(a.w, r)
    return mk(op, a.w, *sorted((a, b), key=lambda t: t.id))


def fop(op, w, *ts):
    if op in ("fadd", "fmul"): 
        if any(t.op == "undef" for t in ts): return undef(w)
        return fcomm(op, *ts)
    if any(t.op == "undef" for t in ts): return undef(w)
    if op == "fabs":
        t = ts[0]
        return concat([slice_(t, 0, w - 1), zero(1)])
    if op == "fneg":
        t = ts[0]
        return concat([slice_(t, 0, w - 1), not_(slice_(t, w - 1, 1))])
    if all(is_const(t) for t in ts):
        try: return const(w, _feval(op, w, [cval(t) for t in ts], [t.w for t in ts]))
        except (KeyError, OverflowError, ZeroDivisionError, ValueError): pass
    if len(ts) == 1 and ts[0].op == "ite" and op in ("fptosi", "fptoui", "sitofp", "uitofp", "fpext", "fptrunc") and (is_const(ts[0].a[1]) or is_const(ts[0].a[2])):
        c, x, y = ts[0].a
        return ite(c, fop(op, w, x), fop(op, w, y))
    return mk(op, w, *ts)


def divk(op, x, c):
    """x op c for a positive constant c, in the form the interpreter gives it"""
    if op == "udiv" and c & (c - 1) == 0: return lshr(x, c.bit_length() - 1)
    if op == "urem" and c & (c - 1) == 0: return and_(x, const(x.w, c - 1))
    return mk(op, x.w, x, const(x.w, c))


def fcast(dk, db, x, strict=False):
    """Rust's saturating `as` from a float to an integer (strict: the lower bound itself takes the constant, which is its value)"""
    lo, hi = (-(1 << (db - 1)), (1 << (db - 1)) - 1) if dk == "i" else (0, (1 << db) - 1)
    fl = f2b(float(lo), x.w)
    fh = f2b(float(hi), x.w)
    if b2f(fh, x.w) > hi: fh -= 1
    r = fop("fpto%si" % dk.replace("i", "s"), db, x)
    r = ite(fcmp("ogt", x, const(x.w, fl)), r, const(db, lo & ((1 << db) - 1))) if strict else ite(fcmp("ult", x, const(x.w, fl)), const(db, lo & ((1 << db) - 1)), r)
    r = ite(fcmp("ogt", x, const(x.w, fh)), const(db, hi & ((1 << db) - 1)), r)
    return ite(fcmp("ord", x, x), r, zero(db)) if dk == "i" else r


def b2f(v, w):
    return struct.unpack("<f" if w == 32 else "<d", v.to_bytes(w // 8, "little"))[0]
def f2b(x, w):
    if w == 32:
        try: return int.from_bytes(struct.pack("<f", x), "little")
        except OverflowError: return 0x7f800000 | (0x80000000 if x < 0 else 0)
    return int.from_bytes(struct.pack("<d", x), "little")
QNAN = {32: 0x7fc00000, 64: 0x7ff8000000000000}


def _rint(x):
    if math.isnan(x) or math.isinf(x): return x
    f = math.floor(x); d = x - f
    r = f if d < .5 or (d == .5 and f % 2 == 0) else f + 1
    return math.copysign(float(r), x)


def _raway(x):
    if math.isnan(x) or math.isinf(x): return x
    a = abs(x); f = math.floor(a)
    return math.copysign(float(f + 1 if a - f >= .5 else f), x)


def _fl(fn):
    def g(x):
        if math.isnan(x) or math.isinf(x): return x
        return math.copysign(float(fn(x)), x)
    return g


def _sqrt(x): return math.nan if x < 0 else (math.sqrt(x) if x == x and not math.isinf(x) else x)


FUN = {"ffloor": _fl(math.floor), "fceil": _fl(math.ceil), "ftrunc": _fl(math.trunc), "frint": _rint, "fround": _raway,
       "fsqrt": _sqrt}


def _div(x, y):
    if y == 0:
        if x == 0 or x != x: return math.nan
        return math.copysign(math.inf, x) * math.copysign(1, y)
    return x / y


def _mulf(x, y): return x * y


def _feval(op, w, vs, ws=None):
    if op == "fpext": return f2b(b2f(vs[0], 32), 64)
    if op == "fptrunc": 
        x = b2f(vs[0], 64)
        return f2b(x, 32)
    if op in ("sitofp", "uitofp"):
        v, sw = vs[0], ws[0]
        if op == "sitofp" and v >> (sw - 1): v -= 1 << sw
        if w == 32:
            return f2b(_int_to_f32(v), 32)
        return f2b(float(v), 64)
    if op in ("fptosi", "fptoui"):
        x = b2f(vs[0], ws[0])
        if x != x or math.isinf(x): raise ValueError
        v = math.trunc(x)
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if op == "fptosi" else (0, (1 << w) - 1)
        if not lo <= v <= hi: raise ValueError
        return v & ((1 << w) - 1)
    xs = [b2f(v, w) for v in vs]
    if op in FUN: r = FUN[op](xs[0])
    elif op == "fadd": r = xs[0] + xs[1]
    elif op == "fsub": r = xs[0] - xs[1]
    elif op == "fmul": r = _mulf(*xs)
    elif op == "fdiv": r = _div(*xs)
    elif op in ("frcp",): r = _div(1.0, xs[0])
    elif op in ("frsqrt",): r = _div(1.0, _sqrt(xs[0]))
    elif op in ("fmin", "fmax"):
        # IEEE minnum/maxnum
        a, b = xs
        if a != a: r = b
        elif b != b: r = a
        else: r = (min if op == "fmin" else max)(a, b)
    elif op in ("x86min", "x86max"):
        a, b = xs
        r = a if (a < b if op == "x86min" else a > b) else b
    else: raise KeyError(op)
    if r != r: return QNAN[w]
    return f2b(r, w)


def _int_to_f32(v):
    # correctly rounded int -> f32 via exact fraction
    if v == 0: return 0.0
    s, a = (-1 if v < 0 else 1), abs(v)
    n = a.bit_length()
    if n <= 24: return float(v)
    sh = n - 24
    q, r = a >> sh, a & ((1 << sh) - 1)
    half = 1 << (sh - 1)
    if r > half or (r == half and q & 1): q += 1
    return s * math.ldexp(q, sh)


def fcmp(pred, a, b):
    """ordered/unordered comparisons from: feq, flt (both ordered), fun"""
    if a.op == "undef" or b.op == "undef": return undef(1)
    def feq(): return mk("feq", 1, *sorted((a, b), key=lambda t: t.id)) if not (is_const(a) and is_const(b)) else const(1, b2f(cval(a), a.w) == b2f(cval(b), b.w))
    def flt(x, y):
        if is_const(x) and is_const(y): return const(1, b2f(cval(x), x.w) < b2f(cval(y), y.w))
        return mk("flt", 1, x, y)
    def un():
        if a is b: return mk("fnan", 1, a)
        if is_const(a) and is_const(b):
            return const(1, math.isnan(b2f(cval(a), a.w)) or math.isnan(b2f(cval(b), b.w)))
        ns = [mk("fnan", 1, t) for t in (a, b) if not (is_const(t) and not math.isnan(b2f(cval(t), t.w)))]
        return or_(*ns) if ns else FALSE()
    if pred == "false": return FALSE()
    if pred == "true": return TRUE()
    if pred in ("oeq", "une") and a is b:
        return not_(un()) if pred == "oeq" else un()
    return {"oeq": lambda: feq(), "une": lambda: not_(feq()), "olt": lambda: flt(a, b), "ogt": lambda: flt(b, a),
            "ole": lambda: or_(flt(a, b), feq()), "oge": lambda: or_(flt(b, a), feq()),
            "uno": un, "ord": lambda: not_(un()), "ult": lambda: or_(flt(a, b), un()), "ugt": lambda: or_(flt(b, a), un()),
            "ule": lambda: or_(flt(a, b), feq(), un()), "uge": lambda: or_(flt(b, a), feq(), un()),
            "ueq": lambda: or_(feq(), un()), "one": lambda: or_(flt(a, b), flt(b, a))}[pred]()


# ---------------------------------------------------------------- leaves and valuation (used to word a counterexample)
def leaves(t):
    if t._deps is None:
        if t.op == "leaf": d = frozenset((t,))
        else:
            d = frozenset()
            for x in t.a:
                if isinstance(x, Term): d |= leaves(x)
        t._deps = d
    return t._deps


def consts_in(t, seen=None, out=None):
    seen = set() if seen is None else seen
    out = set() if out is None else out
    if t.id in seen: return out
    seen.add(t.id)
    if t.op == "const": out.add((t.w, cval(t)))
    for x in t.a:
        if isinstance(x, Term): consts_in(x, seen, out)
    return out


class NoValue(Exception):
    pass


def ev(t, env, memo):
    r = memo.get(t.id)
    if r is not None: return r
    r = _ev(t, env, memo)
    memo[t.id] = r
    return r


def _ev(t, env, memo):
    op, w, a = t.op, t.w, t.a
    M = (1 << w) - 1
    if op == "const": return a[0]
    if op == "leaf":
        return env[t.id] & M
    if op == "undef": raise NoValue("undef")
    if op == "slice": return (ev(a[0], env, memo) >> a[1]) & M
    if op == "concat":
        v = pos = 0
        for p in a:
            v |= ev(p, env, memo) << pos; pos += p.w
        return v
    if op == "lin":
        v = a[0]
        for i in range(1, len(a), 2): v += ev(a[i], env, memo) * a[i + 1]
        return v & M
    if op == "ite": return ev(a[1] if ev(a[0], env, memo) else a[2], env, memo)
    vs = [ev(x, env, memo) if isinstance(x, Term) else x for x in a]
    def s(v, ww): return v - (1 << ww) if v >> (ww - 1) else v
    if op == "mul":
        v = 1
        for x in vs: v *= x
        return v & M
    if op == "sext": return s(vs[0], a[0].w) & M
    if op == "and":
        v = M
        for x in vs: v &= x
        return v
    if op == "or":
        v = 0
        for x in vs: v |= x
        return v
    if op == "xor":
        v = 0
        for x in vs: v ^= x
        return v
    if op == "eq": return int(vs[0] == vs[1])
    if op == "slt": return int(s(vs[0], a[0].w) < s(vs[1], a[0].w))
    if op == "ult": return int(vs[0] < vs[1])
    if op == "smin": return min(vs, key=lambda v: s(v, w))
    if op == "smax": return max(vs, key=lambda v: s(v, w))
    if op == "umin": return min(vs)
    if op == "umax": return max(vs)
    if op == "popcount": return bin(vs[0]).count("1")
    if op == "udiv":
        if vs[1] == 0: raise NoValue("div0")
        return vs[0] // vs[1]
    if op == "urem":
        if vs[1] == 0: raise NoValue("div0")
        return vs[0] % vs[1]
    if op == "sdiv":
        x, y = s(vs[0], w), s(vs[1], w)
        if y == 0: raise NoValue("div0")
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & M
    if op in ("vshl", "vlshr", "vashr"):
        if vs[1] >= w: raise NoValue("shift")
        return {"vshl": vs[0] << vs[1], "vlshr": vs[0] >> vs[1], "vashr": s(vs[0], w) >> vs[1]}[op] & M
    if op == "feq": return int(b2f(vs[0], a[0].w) == b2f(vs[1], a[0].w))
    if op == "flt": return int(b2f(vs[0], a[0].w) < b2f(vs[1], a[0].w))
    if op == "fnan": return int(math.isnan(b2f(vs[0], a[0].w)))
    if op == "fsum" or op == "fprod":
        x = b2f(vs[0], w)
        for v in vs[1:]: x = x + b2f(v, w) if op == "fsum" else x * b2f(v, w)
        return f2b(x, w)
    try:
        return _feval(op, w, vs, [x.w for x in a if isinstance(x, Term)])
    except (KeyError, ValueError, OverflowError, ZeroDivisionError) as e:
        raise NoValue("%s %s" % (op, e))

"""The lane-wise operations: for every operation x vector type, a probe (one call of the public operation on
its concrete types) and the required lanes as terms over the source lanes."""
import terms as T
from lanes import TYPES, name, fn, Probe, HEADER

B = {}          # property id -> generator


def prop(pid):
    def d(f): B.setdefault(pid, []).append(f); return f
    return d


ALL = list(TYPES.items())
INTS = [(t, x) for t, x in ALL if x[0] != "f"]
FLTS = [(t, x) for t, x in ALL if x[0] == "f"]


def rs(k, b): return "%s%d" % (k, b)


def mkp(key, ins, outs, body, want, **kw):
    """ins/outs: [(arg, rust type)]; outs written by the body through *o"""
    def lay(t):
        if t in TYPES: return TYPES[t][1], TYPES[t][2]
        if t.startswith("["): e, n = t[1:-1].split(";"); return int(e.strip()[1:]), int(n)
        return {"usize": 64, "bool": 8}.get(t) or int(t[1:]), 1
    p = Probe(key, None, [(a,) + lay(t) for a, t in ins], [(o,) + lay(t) for o, t in outs], want, **kw)
    p.src = fn(p.name, ins, outs, body)
    return p


fadd = lambda x, y: T.fop("fadd", x.w, x, y)
fsub = lambda x, y: T.fop("fsub", x.w, x, y)
fmul = lambda x, y: T.fop("fmul", x.w, x, y)
IR = lambda k, w: (-(1 << (w - 1)), (1 << (w - 1)) - 1) if k == "i" else (0, (1 << w) - 1)
ext = lambda k: T.sext if k == "i" else T.zext


# ---------------------------------------------------------------- C01 upcast
UP = [("u8", "u16"), ("i8", "i16"), ("u16", "u32"), ("i16", "i32"), ("u32", "u64"), ("i32", "i64"), ("i32", "f64"), ("f32", "f64")]


def conv(ek, eb, dk, db):
    if dk == "f": return (lambda x: T.fop("fpext", db, x)) if ek == "f" else (lambda x: T.fop("sitofp" if ek == "i" else "uitofp", db, x))
    return lambda x: ext(ek)(x, db)


@prop("C01")
def upcast():
    for t, (k, b, n) in ALL:
        for dk in "uif":
            db = 2 * b
            d = name(dk, db, n // 2)
            if d not in TYPES: continue
            c = conv(k, b, dk, db) if not (dk != "f" and k == "f") else None
            def want(L, c=c, n=n):
                if c is None: return {"lo": None, "hi": None}
                return {"lo": [c(x) for x in L["a"][:n // 2]], "hi": [c(x) for x in L["a"][n // 2:]]}
            # every (source, destination) pair the crate implements
            yield mkp("upcast %s %s" % (t, d), [("a", t)], [("lo", d), ("hi", d)], "let r:(%s,%s)=(*a).upcast(); *lo=r.0; *hi=r.1;" % (d, d), want,
                      optional=not (((rs(k, b), rs(dk, db)) in UP) and (n * b < 512)) )


# ---------------------------------------------------------------- C02 downcast
DOWN = [("u16", "u8"), ("i16", "i8"), ("u32", "u16"), ("i32", "i16"), ("u64", "u32"), ("i64", "i32"), ("f64", "f32")]


@prop("C02")
def downcast():
    for t, (k, b, n) in ALL:
        for dk in "uif":
            db = b // 2
            d = name(dk, db, n * 2)
            if d not in TYPES: continue
            def cv(x, k=k, b=b, dk=dk, db=db):
                if k == "f" and dk == "f": return T.fop("fptrunc", db, x)
                if k == "f" or dk == "f": return None
                lo, hi = IR(dk, db)
                e = ext(k)(x, b + 2)
                return T.clamp_trunc(e, db, lo, hi)
            def want(L, cv=cv): return {"o": [cv(x) for x in L["a"] + L["b"]]}
            yield mkp("downcast %s %s" % (t, d), [("a", t), ("b", t)], [("o", d)], "let r:%s=(*a).saturating_downcast(*b); *o=r;" % d, want,
                      optional=not (((rs(k, b), rs(dk, db)) in DOWN) and n * b < 512))


# ---------------------------------------------------------------- C03 / C04 horizontal
def hop(op, L):
    a, b = L["a"], L["b"]
    out = []
    for i in range(0, len(a), 2): out += [op(a[i], a[i + 1]), op(b[i], b[i + 1])]
    return {"o": out}


@prop("C03")
def horizontal():
    for t, (k, b, n) in ALL:
        for m, tr in (("hadd", "HAdd"), ("hsub", "HSub")):
            op = {("hadd", True): fadd, ("hsub", True): fsub, ("hadd", False): T.add, ("hsub", False): T.sub}[m, k == "f"]
            yield mkp("%s %s" % (m, t), [("a", t), ("b", t)], [("o", t)], "*o=%s::%s(&*a,*b);" % (tr, m), lambda L, op=op: hop(op, L))


@prop("C04")
def sat_horizontal():
    for t, (k, b, n) in INTS:
        for m, tr, s in (("saturating_hadd", "SaturatingHAdd", "adds"), ("saturating_hsub", "SaturatingHSub", "subs")):
            op = lambda x, y, c=("s" if k == "i" else "u") + s: T.sat(c, x, y)
            yield mkp("%s %s" % (m, t), [("a", t), ("b", t)], [("o", t)], "*o=%s::%s(&*a,*b);" % (tr, m), lambda L, op=op: hop(op, L))


# ---------------------------------------------------------------- C05 reductions
@prop("C05")
def reductions():
    for t, (k, b, n) in ALL:
        s = rs(k, b)
        if k == "f":
            def tree(op):
                def w(L):
                    r = L["a"][0]
                    for x in L["a"][1:]: r = op(r, x)
                    return {"o": [r]}
                return w
            yield mkp("sum " + t, [("a", t)], [("o", s)], "*o=Sum::sum(&*a);", tree(fadd), assoc="fadd", floats=True)
            yield mkp("product " + t, [("a", t)], [("o", s)], "*o=Packed::product(&*a);", tree(fmul), assoc="fmul", floats=True)
            yield mkp("sum_upcast " + t, [("a", t)], [("o", "i64")], "*o=UpcastSum::sum_upcast(&*a);", lambda L: {"o": [T.lin(64, 0, [(f2i(x), 1) for x in L["a"]])]}, floats=True,
                      alts=[lambda L: {"o": [T.lin(64, 0, [(f2i(x, 1), 1) for x in L["a"]])]}])
        else:
            yield mkp("sum " + t, [("a", t)], [("o", s)], "*o=Sum::sum(&*a);", lambda L, b=b: {"o": [T.lin(b, 0, [(x, 1) for x in L["a"]])]})
            yield mkp("product " + t, [("a", t)], [("o", s)], "*o=Packed::product(&*a);", lambda L: {"o": [T.mul(*L["a"])]})
            yield mkp("sum_upcast " + t, [("a", t)], [("o", "i64")], "*o=UpcastSum::sum_upcast(&*a);",
                      lambda L, k=k: {"o": [T.lin(64, 0, [(ext(k)(x, 64), 1) for x in L["a"]])]})
        def red(L, b=b):
            acc = T.const(64, 1)
            for x in L["a"]: acc = T.lin(64, 0, [(acc, 31), (T.zext(x, 64), 1)])
            return {"o": [acc]}
        x = "x.to_bits()" if k == "f" else "x as u%d" % b
        yield mkp("scalar_reduce " + t, [("a", t)], [("o", "u64")], "*o=Packed::scalar_reduce(&*a, 1u64, |c: u64, x: %s| c.wrapping_mul(31).wrapping_add((%s) as u64));" % (s, x), red)


def f2i(x, form=0):
    """the language's saturating conversion to i64: not-a-number to 0, out of range to the bound"""
    w = x.w
    lo, hi = T.const(w, T.f2b(-2.0 ** 63, w)), T.const(w, (0x5effffff if w == 32 else 0x43dfffffffffffff))
    r = T.fop("fptosi", 64, x)
    r = T.ite(T.fcmp("olt", x, lo), T.const(64, -1 << 63), r) if form else T.ite(T.fcmp("ogt", x, lo), r, T.const(64, -1 << 63))     # the bound itself converts to itself
    r = T.ite(T.fcmp("ogt", x, hi), T.const(64, (1 << 63) - 1), r)
    return T.ite(T.fcmp("uno", x, x), T.zero(64), r)


# ---------------------------------------------------------------- C06 merge
def beyond(n): return (n + 1, 1 << 63, (1 << 64) - 1, (1 << 64) - n, (1 << 64) - n - 1)


@prop("C06")
def merge():
    for t, (k, b, n) in ALL:
        yield mkp("merge_halves " + t, [("a", t), ("b", t)], [("o", t)], "*o=Merge::merge_halves(&*a,*b);", lambda L, n=n: {"o": L["a"][:n // 2] + L["b"][n // 2:]})
        yield mkp("merge_interleaved " + t, [("a", t), ("b", t)], [("o", t)], "*o=Merge::merge_interleaved(&*a,*b);",
                  lambda L, n=n: {"o": [(L["b"] if i & 1 else L["a"])[i] for i in range(n)]})
        for off in range(n + 1):
            yield mkp("merge_partitioned %s %d" % (t, off), [("a", t), ("b", t)], [("o", t)], "*o=Merge::merge_partitioned(&*a,*b,%d);" % off,
                      lambda L, off=off: {"o": L["a"][:off] + L["b"][off:]})
        for off in beyond(n):
            yield mkp("merge_partitioned %s %d" % (t, off), [("a", t), ("b", t)], [("o", t)], "*o=Merge::merge_partitioned(&*a,*b,%d);" % off, lambda L: {}, must_panic=True)


# ---------------------------------------------------------------- C07 patterns
@prop("C07")
def patterns():
    for t, (k, b, n) in ALL:
        s = rs(k, b)
        hl = [("hi", s), ("lo", s)]
        yield mkp("halfs " + t, hl, [("o", t)], "*o=<%s as Pattern>::halfs(*hi,*lo);" % t, lambda L, n=n: {"o": L["hi"] * (n // 2) + L["lo"] * (n // 2)})
        yield mkp("interleave " + t, hl, [("o", t)], "*o=<%s as Pattern>::interleave(*hi,*lo);" % t, lambda L, n=n: {"o": (L["hi"] + L["lo"]) * (n // 2)})
        yield mkp("ones " + t, [], [("o", t)], "*o=<%s as Pattern>::ones();" % t, lambda L, n=n, b=b: {"o": [T.ones(b)] * n})
        yield mkp("zeroes " + t, [], [("o", t)], "*o=<%s as Pattern>::zeroes();" % t, lambda L, n=n, b=b: {"o": [T.zero(b)] * n})
        for off in range(n + 1):
            yield mkp("partition %s %d" % (t, off), hl, [("o", t)], "*o=<%s as Pattern>::partition(*hi,*lo,%d);" % (t, off), lambda L, n=n, off=off: {"o": L["hi"] * off + L["lo"] * (n - off)})
            yield mkp("partition_mask %s %d" % (t, off), [], [("o", t)], "*o=<%s as Pattern>::partition_mask(%d);" % (t, off),
                      lambda L, n=n, b=b, off=off: {"o": [T.zero(b)] * off + [T.ones(b)] * (n - off)})
        for off in beyond(n):
            yield mkp("partition %s %d" % (t, off), hl, [("o", t)], "*o=<%s as Pattern>::partition(*hi,*lo,%d);" % (t, off), lambda L: {}, must_panic=True)
            yield mkp("partition_mask %s %d" % (t, off), [], [("o", t)], "*o=<%s as Pattern>::partition_mask(%d);" % (t, off), lambda L: {}, must_panic=True)


# ---------------------------------------------------------------- C08 destride
@prop("C08")
def destride():
    for t, (k, b, n) in ALL:
        if b == 64 or n * b == 512: opt = True
        else: opt = k == "f"
        yield mkp("destride_two " + t, [("a", t), ("b", t)], [("o", t), ("p", t)], "let r=Destride::destride_two(*a,*b); *o=r.0; *p=r.1;",
                  lambda L: {"o": (L["a"] + L["b"])[0::2], "p": (L["a"] + L["b"])[1::2]}, optional=opt)
        def w4(L):
            x = L["a"] + L["b"] + L["c"] + L["d"]
            return {"o": x[0::4], "p": x[1::4], "q": x[2::4], "r": x[3::4]}
        yield mkp("destride_four " + t, [(c, t) for c in "abcd"], [(c, t) for c in "opqr"], "let z=Destride::destride_four(*a,*b,*c,*d); *o=z.0; *p=z.1; *q=z.2; *r=z.3;", w4, optional=opt)


# ---------------------------------------------------------------- C09 byte order
def bswap(x): return T.concat([T.slice_(x, x.w - 8 - i * 8, 8) for i in range(x.w // 8)])


@prop("C09")
def endian():
    for t, (k, b, n) in INTS:
        for m, sw in (("swap_bytes", 1), ("to_be", 1), ("from_be", 1), ("to_le", 0), ("from_le", 0)):
            yield mkp("%s %s" % (m, t), [("a", t)], [("o", t)], "*o=<%s as Reendianize>::%s(&*a);" % (t, m),
                      lambda L, sw=sw: {"o": [bswap(x) for x in L["a"]] if sw else list(L["a"])})


# ---------------------------------------------------------------- C10 reinterpretation
@prop("C10")
def transmute():
    for t, (k, b, n) in ALL:
        for dk, db in [(x, y) for y in (8, 16, 32, 64) for x in "ui"] + [("f", 32), ("f", 64)]:
            d = name(dk, db, n * b // db)
            m = "be_%s%ds" % (dk, db) + ("_unchecked" if dk == "f" else "")
            yield mkp("%s %s" % (m, t), [("a", t)], [("o", d)], "let r: %s = Transmute::%s(&*a); *o=r;" % (d, m),
                      lambda L, db=db: (lambda w: {"o": [T.slice_(w, i, db) for i in range(0, w.w, db)]})(T.concat(L["a"])))


# ---------------------------------------------------------------- C11 equality masks
@prop("C11")
def eqmask():
    for t, (k, b, n) in ALL:
        d = name("u", b, n)
        for m in ("eq_mask", "ne_mask"):
            def want(L, k=k, b=b, m=m):
                out = []
                for x, y in zip(L["a"], L["b"]):
                    c = T.fcmp("oeq", x, y) if k == "f" else T.eq(x, y)
                    if m == "ne_mask": c = T.not_(c)
                    out.append(T.ite(c, T.ones(b), T.zero(b)))
                return {"o": out}
            yield mkp("%s %s" % (m, t), [("a", t), ("b", t)], [("o", t)], "let r = FEq::%s(&*a,*b); *o=::std::mem::transmute_copy(&r);" % m, want, optional=n * b == 512)


# ---------------------------------------------------------------- C12 abs
@prop("C12")
def absolute():
    for t, (k, b, n) in ALL:
        if k == "u": continue
        def want(L, k=k, b=b):
            if k == "f": return {"o": [T.fop("fabs", b, x) for x in L["a"]]}
            return {"o": [T.ite(T.slt(x, T.zero(b)), T.neg(x), x) for x in L["a"]]}
        yield mkp("abs " + t, [("a", t)], [("o", t if k == "f" else name("u", b, n))], "*o=Abs::abs(&*a);", want, optional=n * b == 512)


# ---------------------------------------------------------------- C13 min / max
@prop("C13")
def minmax():
    for t, (k, b, n) in ALL:
        for m in ("min", "max"):
            def want(L, k=k, m=m):
                if k == "f": return {"o": [T.mk("x86" + m, x.w, x, y) for x, y in zip(L["a"], L["b"])]}
                f = getattr(T, ("s" if k == "i" else "u") + m)
                return {"o": [f(x, y) for x, y in zip(L["a"], L["b"])]}
            yield mkp("%s %s" % (m, t), [("a", t), ("b", t)], [("o", t)], "*o=Cmp::%s(&*a,*b);" % m, want, optional=b == 64 and k != "f" or n * b == 512,
                      floats=k == "f", assoc="minmax" if k == "f" else None)


# ---------------------------------------------------------------- C14 saturating
@prop("C14")
def saturating():
    for t, (k, b, n) in ALL:
        if k == "f": continue
        for m, tr, s in (("saturating_add", "SaturatingAdd", "adds"), ("saturating_sub", "SaturatingSub", "subs")):
            yield mkp("%s %s" % (m, t), [("a", t), ("b", t)], [("o", t)], "*o=%s::%s(&*a,*b);" % (tr, m),
                      lambda L, c=("s" if k == "i" else "u") + s: {"o": [T.sat(c, x, y) for x, y in zip(L["a"], L["b"])]}, optional=b > 16 or n * b == 512)


# ---------------------------------------------------------------- C15 bit counts
@prop("C15")
def popcount():
    for t, (k, b, n) in INTS:
        for m in ("count_ones", "count_zeroes"):
            def want(L, m=m, b=b, n=n):
                s = [(T.zext(popc(x), 64), 1) for x in L["a"]]
                return {"o": [T.lin(64, 0, s) if m == "count_ones" else T.lin(64, b * n, [(x, -1) for x, _ in s])]}
            yield mkp("%s %s" % (m, t), [("a", t)], [("o", "usize")], "*o=Popcnt::%s(&*a);" % m, want)


def popc(x):
    import x86models
    return x86models.popc(x)


# ---------------------------------------------------------------- C16 float unary
@prop("C16")
def fround():
    for t, (k, b, n) in FLTS:
        for m, tr, ops, al in (("sqrt", "Sqrt", "fsqrt", None), ("floor", "Round", "ffloor", None), ("ceil", "Round", "fceil", None), ("trunc", "Round", "ftrunc", None),
                               ("round", "Round", "frint", ("fround",)), ("recip", "Recip", "frcp", "recip"), ("rsqrt", "Rsqrt", "frsqrt", "rsqrt")):
            opt = n * b == 512 or (m in ("recip", "rsqrt") and b == 64)
            def want(L, ops=ops): return {"o": [T.fop(ops, x.w, x) for x in L["a"]]}
            def alt(L, m=m):
                if m == "round": return {"o": [T.fop("fround", x.w, x) for x in L["a"]]}
                if m == "recip": return {"o": [T.fop("fdiv", x.w, T.const(x.w, T.f2b(1.0, x.w)), x) for x in L["a"]]}
                if m == "rsqrt": return {"o": [T.fop("fdiv", x.w, T.const(x.w, T.f2b(1.0, x.w)), T.fop("fsqrt", x.w, x)) for x in L["a"]]}
            def alt2(L, m=m):
                if m == "rsqrt": return {"o": [T.fop("fsqrt", x.w, T.fop("fdiv", x.w, T.const(x.w, T.f2b(1.0, x.w)), x)) for x in L["a"]]}
            yield mkp("%s %s" % (m, t), [("a", t)], [("o", t)], "*o=%s::%s(&*a);" % (tr, m), want, optional=opt,
                      alts=[f for f in (alt if m in ("round", "recip", "rsqrt") else None, alt2 if m == "rsqrt" else None) if f], floats=True)


# ---------------------------------------------------------------- C37 operators
@prop("C37")
def operators():
    for t, (k, b, n) in ALL:
        s = rs(k, b)
        ops_ = [("+", "add", fadd if k == "f" else T.add), ("-", "sub", fsub if k == "f" else T.sub), ("*", "mul", fmul if k == "f" else T.mul)]
        if k == "f": ops_.append(("/", "div", lambda x, y: T.fop("fdiv", x.w, x, y)))
        else: ops_ += [("&", "and", T.and_), ("|", "or", T.or_), ("^", "xor", T.xor)]
        for sym, nm, f in ops_:
            want = lambda L, f=f: {"o": [f(x, y) for x, y in zip(L["a"], L["b"])]}
            yield mkp("operator %s %s" % (nm, t), [("a", t), ("b", t)], [("o", t)], "*o=*a %s *b;" % sym, want, floats=k == "f")
            yield mkp("operator %s_assign %s" % (nm, t), [("a", t), ("b", t)], [("o", t)], "let mut r=*a; r %s= *b; *o=r;" % sym, want, floats=k == "f")
        if k == "f": continue
        for n_ in (1, b // 2 + 1, b - 1):
            for sym, nm, f in (("<<", "shl", T.shl), (">>", "shr", T.ashr if k == "i" else T.lshr)):
                want = lambda L, f=f, n_=n_: {"o": [f(x, n_) for x in L["a"]]}
                yield mkp("operator %s %s %d" % (nm, t, n_), [("a", t)], [("o", t)], "*o=*a %s %s::splat(%d);" % (sym, t, n_), want)
                yield mkp("operator %s_assign %s %d" % (nm, t, n_), [("a", t)], [("o", t)], "let mut r=*a; r %s= %s::splat(%d); *o=r;" % (sym, t, n_), want)

        # division: divisors that differ from lane to lane and are neither zero nor minus one (those panic or are left open)
        ks = [3 + (5 * i) % 11 for i in range(n)]
        dv = "%s::new(%s)" % (t, ",".join(map(str, ks)))
        for sym, nm, op in (("/", "div", "sdiv" if k == "i" else "udiv"), ("%", "rem", "srem" if k == "i" else "urem")):
            want = lambda L, op=op, ks=ks, b=b: {"o": [T.divk(op, x, c) for x, c in zip(L["a"], ks)]}
            yield mkp("operator %s %s" % (nm, t), [("a", t)], [("o", t)], "*o=*a %s %s;" % (sym, dv), want)
            yield mkp("operator %s_assign %s" % (nm, t), [("a", t)], [("o", t)], "let mut r=*a; r %s= %s; *o=r;" % (sym, dv), want)


@prop("C37")
def comparison():
    for t, (k, b, n) in ALL:
        for sym, nm in (("==", "eq"), ("!=", "ne")):
            def want(L, k=k, sym=sym):
                c = T.const(1, 1)
                for x, y in zip(L["a"], L["b"]): c = T.and_(c, T.fcmp("oeq", x, y) if k == "f" else T.eq(x, y))
                return {"o": [T.zext(c if sym == "==" else T.not_(c), 8)]}
            yield mkp("operator %s %s" % (nm, t), [("a", t), ("b", t)], [("o", "u8")], "*o=(*a %s *b) as u8;" % sym, want, floats=k == "f")


@prop("C37")
def conversions():
    """of the portable vectors (the x86 ones are packed_simd's)"""
    for t, (k, b, n) in ALL:
        for d, (dk, db, dn) in ALL:
            if d == t or n * b != dn * db: continue
            if k != "f" and dk != "f":
                yield mkp("from %s %s" % (t, d), [("a", t)], [("o", d)], "let r: %s = From::from(*a); *o=r;" % d,
                          lambda L, db=db: (lambda w: {"o": [T.slice_(w, i, db) for i in range(0, w.w, db)]})(T.concat(L["a"])), only="portable")
            if n == dn and k != "f":
                yield mkp("as %s %s" % (t, d), [("a", t)], [("o", d)], "*o=(*a).as_%s();" % d,
                          lambda L, k=k, dk=dk, db=db: {"o": [x if dk != "f" else T.fop("sitofp" if k == "i" else "uitofp", db, x) for x in L["a"]]}, only="portable")
            if n == dn and k == "f" and dk != "f":
                yield mkp("as %s %s" % (t, d), [("a", t)], [("o", d)], "*o=(*a).as_%s();" % d, lambda L, dk=dk, db=db: {"o": [T.fcast(dk, db, x) for x in L["a"]]}, only="portable", floats=True,
                          alts=[lambda L, dk=dk, db=db: {"o": [T.fcast(dk, db, x, True) for x in L["a"]]}])


def probes(pid):
    out = []
    for f in B[pid]: out += list(f())
    return out

"""Lane semantics of LLVM and x86 intrinsics (from the Intel SDM / LLVM LangRef)."""
import re
import terms as T
from absint import Undecided

S = lambda w: (-(1 << (w - 1)), (1 << (w - 1)) - 1)


def lanes128(v):
    """split a vector into its 128-bit lanes"""
    n = 128 // v[0].w
    return [v[i:i + n] for i in range(0, len(v), n)]


def per128(f, *vs):
    out = []
    for parts in zip(*[lanes128(v) for v in vs]): out += f(*parts)
    return out


def hop(op):
    return lambda a, b: [op(a[i], a[i + 1]) for i in range(0, len(a), 2)] + [op(b[i], b[i + 1]) for i in range(0, len(b), 2)]


def pack(w, lo, hi):
    return lambda a, b: [T.clamp_trunc(x, w, lo, hi) for x in a + b]


def sadw(a, b):
    out = []
    for g in range(0, len(a), 8):
        s = []
        for x, y in zip(a[g:g + 8], b[g:g + 8]):
            d = T.ite(T.ult(x, y), T.sub(y, x), T.sub(x, y))
            if T.is_const(y) and T.cval(y) == 0: d = x
            if T.is_const(x) and T.cval(x) == 0: d = y
            s.append((T.zext(d, 64), 1))
        out.append(T.lin(64, 0, s))
    return out


def pshufb(a, b):
    out = []
    for i, k in enumerate(b):
        if not T.is_const(k):
            if k.op == "undef": out.append(T.undef(8)); continue
            r = a[15]
            lowb = T.slice_(k, 0, 4)
            for j in range(14, -1, -1): r = T.ite(T.eq(lowb, T.const(4, j)), a[j], r)
            out.append(T.ite(T.eq(T.slice_(k, 7, 1), T.const(1, 1)), T.zero(8), r)); continue
        k = T.cval(k)
        out.append(T.zero(8) if k & 0x80 else a[k & 15])
    return out


def blendv(a, b, m):
    return [T.ite(T.slice_(k, k.w - 1, 1), y, x) for x, y, k in zip(a, b, m)]


ROUND = {0: "frint", 8: "frint", 1: "ffloor", 9: "ffloor", 2: "fceil", 10: "fceil", 3: "ftrunc", 11: "ftrunc", 4: "frint", 12: "frint"}


def rnd(v, imm):
    if not T.is_const(imm): raise Undecided("rounding mode")
    return [T.fop(ROUND[T.cval(imm)], x.w, x) for x in v]


def minmax(op, a, b):
    if op == "x86min": return [T.mk(op, x.w, x, y) if not (x.op == "undef" or y.op == "undef") else T.undef(x.w) for x, y in zip(a, b)]
    return [T.mk(op, x.w, x, y) if not (x.op == "undef" or y.op == "undef") else T.undef(x.w) for x, y in zip(a, b)]


fadd = lambda x, y: T.fop("fadd", x.w, x, y)
fsub = lambda x, y: T.fop("fsub", x.w, x, y)


def x86(it, name, a):
    n = name[len("llvm.x86."):]
    tail = re.sub(r"\.(128|256)$", "", n.split(".", 1)[1])
    if tail in ("packssdw",): return per128(pack(16, *S(16)), *a)
    if tail in ("packsswb",): return per128(pack(8, *S(8)), *a)
    if tail in ("packuswb",): return per128(pack(8, 0, 255), *a)
    if tail in ("packusdw",): return per128(pack(16, 0, 65535), *a)
    if tail in ("phadd.w", "phadd.d"): return per128(hop(T.add), *a)
    if tail in ("phsub.w", "phsub.d"): return per128(hop(T.sub), *a)
    if tail == "phadd.sw": return per128(hop(lambda x, y: T.sat("sadds", x, y)), *a)
    if tail == "phsub.sw": return per128(hop(lambda x, y: T.sat("ssubs", x, y)), *a)
    if tail in ("hadd.ps", "hadd.pd"): return per128(hop(fadd), *a)
    if tail in ("hsub.ps", "hsub.pd"): return per128(hop(fsub), *a)
    if tail in ("addsub.ps", "addsub.pd"):
        return [fadd(x, y) if i & 1 else fsub(x, y) for i, (x, y) in enumerate(zip(*a))]
    if tail in ("padds.b", "padds.w"): return [T.sat("sadds", x, y) for x, y in zip(*a)]
    if tail in ("paddus.b", "paddus.w"): return [T.sat("uadds", x, y) for x, y in zip(*a)]
    if tail in ("psubs.b", "psubs.w"): return [T.sat("ssubs", x, y) for x, y in zip(*a)]
    if tail in ("psubus.b", "psubus.w"): return [T.sat("usubs", x, y) for x, y in zip(*a)]
    if tail == "psad.bw":
        return sadw(*a)
    if tail == "pshuf.b": return per128(pshufb, *a)
    if tail in ("pblendvb", "blendvps", "blendvpd", "blendv.ps", "blendv.pd"): return blendv(*a)
    if tail in ("round.ps", "round.pd"): return rnd(*a)
    if tail in ("rcp.ps",): return [T.fop("frcp", x.w, x) for x in a[0]]
    if tail in ("rsqrt.ps",): return [T.fop("frsqrt", x.w, x) for x in a[0]]
    if tail in ("sqrt.ps", "sqrt.pd"): return [T.fop("fsqrt", x.w, x) for x in a[0]]
    if tail in ("min.ps", "min.pd"): return minmax("x86min", *a)
    if tail in ("max.ps", "max.pd"): return minmax("x86max", *a)
    if tail in ("cmp.ps", "cmp.pd"):
        P = {0: "oeq", 1: "olt", 2: "ole", 3: "uno", 4: "une", 5: "uge", 6: "ugt", 7: "ord", 8: "ueq", 9: "ult", 10: "ule", 11: "false", 12: "one", 13: "oge", 14: "ogt", 15: "true"}
        if not T.is_const(a[2]): raise Undecided("cmp immediate")
        return [T.sext(T.fcmp(P[T.cval(a[2]) & 15], x, y), x.w) for x, y in zip(a[0], a[1])]
    if tail in ("pmovmskb", "movmsk.ps", "movmsk.pd"):
        return T.zext(T.concat([T.slice_(x, x.w - 1, 1) for x in a[0]]), 32)
    if tail in ("permd", "permps"):
        v, ix = a
        return [v[T.cval(k) & 7] if T.is_const(k) else T.undef(32) if k.op == "undef" else sel(v, k, 3) for k in ix]
    if tail == "pmul.dq" or tail == "pmuludq" or tail == "pmulu.dq": raise Undecided(name)
    if tail in ("pmadd.wd",):
        x, y = a
        return [T.add(T.mul(T.sext(x[i], 32), T.sext(y[i], 32)), T.mul(T.sext(x[i + 1], 32), T.sext(y[i + 1], 32))) for i in range(0, len(x), 2)]
    if tail in ("pmadd.ub.sw",):
        x, y = a
        return [T.clamp_trunc(T.add(T.mul(T.zext(x[i], 32), T.sext(y[i], 32)), T.mul(T.zext(x[i + 1], 32), T.sext(y[i + 1], 32))), 16, *S(16)) for i in range(0, len(x), 2)]
    if tail in ("psign.b", "psign.w", "psign.d"):
        return [T.ite(T.slt(y, T.zero(y.w)), T.neg(x), T.ite(T.eq(y, T.zero(y.w)), T.zero(x.w), x)) for x, y in zip(*a)]
    if tail in ("pabs.b", "pabs.w", "pabs.d"):
        return [T.ite(T.slt(x, T.zero(x.w)), T.neg(x), x) for x in a[0]]
    m = re.match(r"(psll|psrl|psra)(i?)\.(w|d|q)$", tail)
    if m:
        w = {"w": 16, "d": 32, "q": 64}[m.group(3)]
        cnt = a[1] if m.group(2) else T.concat(a[1][:64 // a[1][0].w])
        if not T.is_const(cnt): raise Undecided("variable shift")
        k = T.cval(cnt)
        if m.group(1) == "psra": k = min(k, w - 1); return [T.ashr(x, k) for x in a[0]]
        if k >= w: return [T.zero(w) for x in a[0]]
        return [(T.shl if m.group(1) == "psll" else T.lshr)(x, k) for x in a[0]]
    if tail in ("vtestz", "ptestz"):
        r = T.and_(T.concat(a[0]), T.concat(a[1])); return T.zext(T.eq(r, T.zero(r.w)), 32)
    if tail == "ptestc":
        r = T.and_(T.not_(T.concat(a[0])), T.concat(a[1])); return T.zext(T.eq(r, T.zero(r.w)), 32)
    raise Undecided("intrinsic " + name)


def sel(v, k, nb):
    low = T.slice_(k, 0, nb)
    r = v[-1]
    for j in range(len(v) - 2, -1, -1): r = T.ite(T.eq(low, T.const(nb, j)), v[j], r)
    return r


def fmn(op):
    return lambda x, y: T.mk(op, x.w, *sorted((x, y), key=lambda t: t.id)) if not (x.op == "undef" or y.op == "undef") else T.undef(x.w)


def bswap(x): return T.concat([T.slice_(x, x.w - 8 - i * 8, 8) for i in range(x.w // 8)])
def bitrev(x): return T.concat([T.slice_(x, x.w - 1 - i, 1) for i in range(x.w)])


def popc(x):
    if T.is_const(x): return T.const(x.w, bin(T.cval(x)).count("1"))
    return T.mk("popcount", x.w, x) if x.op != "undef" else x


def mapv(f, *a):
    if isinstance(a[0], list): return [f(*xs) for xs in zip(*a)]
    return f(*a)


def call(it, st, name, a, tys, rt):
    it.intr = getattr(it, "intr", {})
    it.intr[name] = it.intr.get(name, 0) + 1
    if name.startswith("llvm.x86."): return x86(it, name, a)
    n = name[5:]
    b = n.split(".")[0]
    if n.startswith(("memcpy", "memmove")):
        it.memcpy(st, a[0], a[1], a[2]); return None
    if n.startswith("memset"):
        if not T.is_const(a[2]): raise Undecided("memset of symbolic length")
        k = T.cval(a[2])
        if k: it.store(st, a[0], T.concat([a[1]] * k))
        return None
    if b in ("lifetime", "dbg", "assume", "donothing", "prefetch", "invariant", "experimental") and not n.startswith("experimental.vector"):
        if b == "assume" and T.is_const(a[0]) and not T.cval(a[0]): it.problem("assume-false", "unreachable assumption")
        return None
    if b == "expect": return a[0]
    if n.startswith(("sadd.sat", "uadd.sat", "ssub.sat", "usub.sat")):
        k = {"sadd": "sadds", "uadd": "uadds", "ssub": "ssubs", "usub": "usubs"}[b]
        return mapv(lambda x, y: T.sat(k, x, y), a[0], a[1])
    m = re.match(r"([su])(add|sub|mul)\.with\.overflow", n)
    if m:
        x, y = a
        w = x.w
        W = 2 * w + 2
        e = T.sext if m.group(1) == "s" else T.zext
        f = {"add": T.add, "sub": T.sub, "mul": T.mul}[m.group(2)]
        r = f(x, y)
        wide = f(e(x, W), e(y, W))
        ov = T.not_(T.eq(wide, e(r, W)))
        if m.group(1) == "u" and m.group(2) == "add": ov = T.ult(r, x) if not T.is_const(ov) else ov
        if m.group(1) == "u" and m.group(2) == "sub": ov = T.ult(x, y) if not T.is_const(ov) else ov
        return [r, ov]
    U = {"sqrt": "fsqrt", "fabs": "fabs", "floor": "ffloor", "ceil": "fceil", "trunc": "ftrunc", "round": "fround", "rint": "frint", "nearbyint": "frint"}
    if b in U: return mapv(lambda x: T.fop(U[b], x.w, x), a[0])
    if b == "minnum": return mapv(fmn("fmin"), a[0], a[1])
    if b == "maxnum": return mapv(fmn("fmax"), a[0], a[1])
    if b in ("smin", "smax", "umin", "umax"): return mapv(getattr(T, b), a[0], a[1])
    if b == "abs": return mapv(lambda x: T.ite(T.slt(x, T.zero(x.w)), T.neg(x), x), a[0])
    if b == "copysign": return mapv(lambda x, y: T.concat([T.slice_(x, 0, x.w - 1), T.slice_(y, x.w - 1, 1)]), a[0], a[1])
    if b == "ctpop": return mapv(popc, a[0])
    if b == "bswap": return mapv(bswap, a[0])
    if b == "bitreverse": return mapv(bitrev, a[0])
    if b in ("fshl", "fshr") and not isinstance(a[2], list) and T.is_const(a[2]):
        k = T.cval(a[2]) % a[0].w
        w = a[0].w
        cc = T.concat([a[1], a[0]])
        return T.slice_(cc, w - k, w) if b == "fshl" else T.slice_(cc, k, w)
    m = re.match(r"experimental\.vector\.reduce\.(v2\.)?(\w+)\.", n)
    if m:
        op = m.group(2)
        v = a[-1]
        if op in ("add", "mul", "and", "or", "xor", "smin", "smax", "umin", "umax", "fmin", "fmax", "fadd", "fmul"):
            f = {"add": T.add, "mul": T.mul, "and": T.and_, "or": T.or_, "xor": T.xor, "smin": T.smin, "smax": T.smax, "umin": T.umin,
                 "umax": T.umax, "fmin": fmn("fmin"), "fmax": fmn("fmax"), "fadd": fadd, "fmul": lambda x, y: T.fop("fmul", x.w, x, y)}[op]
            vs = ([a[0]] if op in ("fadd", "fmul") and len(a) > 1 else []) + list(v)
            r = vs[0]
            for x in vs[1:]: r = f(r, x)
            return r
    if b == "trap": raise Undecided("trap")
    if b == "ctlz" or b == "cttz":
        x = a[0]
        if not isinstance(x, list) and T.is_const(x):
            v = T.cval(x)
            if b == "ctlz": return T.const(x.w, x.w - v.bit_length())
            return T.const(x.w, (v & -v).bit_length() - 1 if v else x.w)
        return mapv(lambda t: T.mk(b, t.w, t), x)
    raise Undecided("intrinsic " + name)


PANIC = re.compile(r"panic|unwrap_failed|expect_failed|slice_index_len_fail|slice_index_order_fail|slice_start_index|slice_end_index|handle_alloc_error|capacity_overflow|rust_begin_unwind|rust_oom|begin_panic|bug_fail|assert_failed|copy_from_slice_len_mismatch|len_mismatch_fail|allocate_in.*closure|_Unwind_Resume|handle_reserve|resume_unwind|panic_no_unwind")


def extern(it, st, name, a, tys, rt):
    """-> (value, state), "panic" or None"""
    decl = it.mod.declared.get(name, "")
    if name in ("__rust_alloc", "__rust_alloc_zeroed"):
        it.nalloc += 1
        size = T.cval(a[0]) if T.is_const(a[0]) else None
        init = (lambda off: (T.zero(8), 0)) if name.endswith("zeroed") else (lambda off: (T.undef(8), 0))
        o = it.new_obj("heap%d" % it.nalloc, size, init, "heap")
        if T.is_const(a[1]): o.align = T.cval(a[1])
        st.events.append((T.TRUE(), "alloc", (o.name, size), it.where()))
        return o.base, st
    if name == "__rust_dealloc":
        try:
            o, off = it.deref(a[0])
            st.live[o.base.id] = "freed"
        except Undecided: pass
        st.events.append((T.TRUE(), "free", None, it.where()))
        return None, st
    if name == "__rust_realloc":
        it.nalloc += 1
        size = T.cval(a[3]) if T.is_const(a[3]) else None
        o, off = it.deref(a[0])
        old = dict(it._bytes(st, o))
        n = it.new_obj("heap%d" % it.nalloc, size, lambda off: (T.undef(8), 0), "heap")
        if T.is_const(a[2]): n.align = T.cval(a[2])
        st.mem[n.base.id] = old
        st.live[o.base.id] = "freed"
        st.events.append((T.TRUE(), "alloc", (n.name, size), it.where()))
        return n.base, st
    ids = re.findall(r"#(\d+)", decl)
    at = " ".join(it.mod.attrs.get(i, "") for i in ids).split()
    if PANIC.search(name) or "noreturn" in at or "noreturn" in decl: return "panic"
    m = {"sqrtf": "fsqrt", "sqrt": "fsqrt", "floorf": "ffloor", "floor": "ffloor", "ceilf": "fceil", "ceil": "fceil", "truncf": "ftrunc",
         "trunc": "ftrunc", "roundf": "fround", "round": "fround", "rintf": "frint", "rint": "frint"}.get(name)
    if m: return T.fop(m, a[0].w, a[0]), st
    m = {"fminf": "fmin", "fmin": "fmin", "fmaxf": "fmax", "fmax": "fmax"}.get(name)
    if m: return fmn(m)(a[0], a[1]), st
    if name == "memcmp" or name == "bcmp":
        if T.is_const(a[2]):
            n = T.cval(a[2])
            if n == 0: return T.zero(32), st
            x, y = it.load(st, a[0], 8 * n), it.load(st, a[1], 8 * n)
            e = T.eq(x, y)
            if name == "bcmp": return T.ite(e, T.zero(32), T.const(32, 1)), st
    return None

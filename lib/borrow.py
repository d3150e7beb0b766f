"""C32: programs that must not compile, each with a twin that must.  The witnesses are type- and borrow-checked against the current source."""
import sys
import concurrent.futures as cf
import build, itcore, report

HEAD = """
fn keep<T: ?Sized>(_: &T) {}
fn need_static<T: 'static>(_: T) {}
struct Col<T>(Vec<T>);
"""
BORROW = ("borrow", "cannot assign", "cannot move", "does not live long", "cannot return", "cannot use", "use of moved", "lifetime", "no method named `clone`", "Clone", "outlive")


def makers(t):
    """(name, container type, how to build it, prelude, iterator expression, exclusive?)"""
    d = "<%ss as Packed>::default()" % t
    out = []
    V = ("Vec<%s>" % t, "vec![x; 67]"); B = ("Box<[%s]>" % t, "vec![x; 67].into_boxed_slice()"); A = ("[%s; 67]" % t, "[x; 67]")
    for nm, (ty, mk) in (("vec", V), ("box", B), ("array", A)):
        out.append((nm + ".simd_iter", ty, mk, "", "v[..].simd_iter(%s)" % d, False))
        out.append((nm + ".simd_iter_mut", ty, mk, "", "v[..].simd_iter_mut(%s)" % d, True))
    out.append(("&slice.simd_iter", V[0], V[1], "let s: &[%s] = &v[..];" % t, "s.simd_iter(%s)" % d, False))
    out.append(("&&slice.simd_iter", V[0], V[1], "let s: &[%s] = &v[..]; let r = &s;" % t, "IntoSIMDRefIterator::simd_iter(r, %s)" % d, False))
    out.append(("&mut slice.simd_iter_mut", V[0], V[1], "let s: &mut [%s] = &mut v[..];" % t, "s.simd_iter_mut(%s)" % d, True))
    out.append(("&mut &mut slice.simd_iter_mut", V[0], V[1], "let mut s: &mut [%s] = &mut v[..]; let r = &mut s;" % t, "<&mut [%s] as IntoSIMDRefMutIterator>::simd_iter_mut(r, %s)" % (t, d), True))
    return out


def adaptors(t):
    """name, extra prelude, wrapped expression"""
    d = "<%ss as Packed>::default()" % t
    o = "let o = [x; 67];"
    A = [("plain", "", "{it}"), ("simd_map", "", "{it}.simd_map(|a| a)"), ("map map", "", "{it}.simd_map(|a| a).simd_map(|a| a)"), ("unpack", "", "{it}.unpack()"),
         ("unpack pack", "", "{it}.unpack().pack()"),
         ("zip first", o, "({it}, o[..].simd_iter(%s)).zip()" % d), ("zip last", o, "(o[..].simd_iter(%s), o[..].simd_iter(%s), {it}).zip()" % (d, d)),
         ("zip map", o, "(o[..].simd_iter(%s), {it}).zip().simd_map(|(a, _)| a)" % d)]
    if t in ("u8", "i8", "u16", "i16", "u32", "i32"): A.append(("stride_zip", "", "{it}.stride_zip()"))
    return A


def strided(t):
    """strided iterators borrow the array-like they come from"""
    d = "<%ss as Packed>::default()" % t
    V = ("Vec<%s>" % t, "vec![x; 67]")
    out = []
    for nm, k in (("two", 2), ("three", 3), ("four", 4), ("nine", 9)):
        out.append(("vec.stride_%s" % nm, V[0], V[1], "", "v.stride_%s((%s))" % (nm, ", ".join([d] * k)), False))
    out.append(("vec.stride", V[0], V[1], "", "v.stride(3, &[%s])" % ", ".join([d] * 3), False))
    out.append(("vec.stride_into", V[0], V[1], "", "v.stride_into::<Vec<_>>(3, &[%s])" % ", ".join([d] * 3), False))
    s = "let s: &[%s] = &v[..];" % t
    out.append(("slice.stride_two", V[0], V[1], s, "s.stride_two((%s, %s)).1" % (d, d), False))
    out.append(("slice.stride_four", V[0], V[1], s, "s.stride_four((%s)).3" % ", ".join([d] * 4), False))
    out.append(("iter.stride_two", V[0], V[1], "let b = v[..].simd_iter(%s);" % d, "b.stride_two((%s, %s)).0" % (d, d), False))
    out.append(("stride zipped", V[0], V[1], s, "s.stride_two((%s, %s)).zip().simd_map(|(a, _)| a)" % (d, d), False))
    return out


def witnesses(t, deep):
    """-> [(key, name, bad, good)]"""
    W, n = [], [0]
    def add(key, sig, bad, good):
        n[0] += 1
        nm = "w%s%d" % (t, n[0])
        W.append((key, nm, "fn b%s%s" % (nm, bad if sig is None else sig + " { " + bad + " }"), "fn g%s%s" % (nm, good if sig is None else sig + " { " + good + " }")))
    P = [(m, a) for m in makers(t) for a in adaptors(t)] + [(m, ("plain", "", "{it}")) for m in strided(t)]
    for (mn, ty, mk, pre, it, ex), (an, apre, wrap) in P:
        key = "%s: %s, %s" % (t, mn, an)
        e = wrap.replace("{it}", it)
        own = "let mut v: %s = %s; %s %s let mut it = %s; " % (ty, mk, apre, pre, e)
        offences = [("write", "v[0] = x;"), ("drop", "drop(v);" if "[%s; " % t not in ty else "v = [x; 67];"), ("exclusive borrow", "keep(&&mut v);"), ("exclusive iterator", "keep(&v[..].simd_iter_mut(<%ss as Packed>::default()));" % t)]
        if ty.startswith("Vec"): offences.append(("grow", "v.push(x);"))
        if "[%s; " % t not in ty: offences.append(("move", "let w = v; keep(&w);"))
        if ex: offences += [("read", "keep(&v[0]);"), ("shared iterator", "keep(&v[..].simd_iter(<%ss as Packed>::default()));" % t), ("clone", "keep(&it.clone());")]
        if not deep and an != "plain": offences = [o for o in offences if o[0] in ("write", "drop", "read", "clone")]
        for on, o in offences:
            add("%s: %s" % (key, on), "(x: %s)" % t, own + o + " keep(&it);", own + " keep(&it);")
        # the iterator leaves the scope of its data
        dat = "let mut v: %s = %s; %s " % (ty, mk, apre)
        add("%s: outlives the data" % key, "(x: %s)" % t, "let it; { %s %s it = %s; } keep(&it);" % (dat, pre, e), "%s let it; { %s it = %s; keep(&it); }" % (dat, pre, e))
        add("%s: 'static" % key, "(x: %s)" % t, "%s %s need_static(%s);" % (dat, pre, e), "%s %s keep(&%s);" % (dat, pre, e))
    # lifetimes of the parameters
    d = "<%ss as Packed>::default()" % t
    for nm, m, q in (("simd_iter", "simd_iter", ""), ("simd_iter_mut", "simd_iter_mut", "mut ")):
        R = "SIMDIter<&'{} %s[%s]>" % (q, t)
        add("%s: %s returned under another lifetime" % (t, nm), None,
            "<'a, 'b>(a: &'a %s[%s], b: &'b %s[%s]) -> %s { a.%s(%s) }" % (q, t, q, t, R.format("b"), m, d),
            "<'a, 'b>(a: &'a %s[%s], b: &'b %s[%s]) -> %s { a.%s(%s) }" % (q, t, q, t, R.format("a"), m, d))
        add("%s: %s made static" % (t, nm), None, "(a: &%s[%s]) -> %s { a.%s(%s) }" % (q, t, R.format("static"), m, d), "(a: &'static %s[%s]) -> %s { a.%s(%s) }" % (q, t, R.format("static"), m, d))
    add("%s: stride made static" % t, None, "<'a>(a: &'a Vec<%s>) -> Vec<PackedStride<'static, Vec<%s>>> { a.stride(1, &[%s]) }" % (t, t, d), "<'a>(a: &'a Vec<%s>) -> Vec<PackedStride<'a, Vec<%s>>> { a.stride(1, &[%s]) }" % (t, t, d))
    add("%s: stride two made static" % t, None, "<'a>(a: &'a Vec<%s>) -> PackedStride<'static, Vec<%s>> { a.stride_two((%s, %s)).0 }" % (t, t, d, d), "<'a>(a: &'a Vec<%s>) -> PackedStride<'a, Vec<%s>> { a.stride_two((%s, %s)).0 }" % (t, t, d, d))
    # adaptors borrowing an iterator
    base = "let v = vec![x; 67]; let mut it = v[..].simd_iter(%s); " % d
    add("%s: unroll: source advanced" % t, "(x: %s)" % t, base + "let mut u = it.unroll(2); keep(&it.next()); keep(&u.next());", base + "let mut u = it.unroll(2); keep(&u.next());")
    add("%s: unroll: source moved" % t, "(x: %s)" % t, base + "let mut u = it.unroll(2); drop(it); keep(&u.next());", base + "let mut u = it.unroll(2); keep(&u.next());")
    add("%s: unroll: outlives the source" % t, "(x: %s)" % t, "let mut u; { %s u = it.unroll(2); } keep(&u.next());" % base, "%s let mut u; { u = it.unroll(2); keep(&u.next()); }" % base)
    add("unroll: chunk kept after the unrolled iterator is gone", "(x: %s)" % t, base + "let c; { let mut u = it.unroll(2); c = u.next(); } keep(&c);", base + "let c; let mut u = it.unroll(2); { c = u.next(); } keep(&c);")
    # an owning iterator takes the container
    add("%s: into_simd_iter: used after move" % t, "(x: %s)" % t, "let v = vec![x; 67]; let it = v.into_simd_iter(%s); keep(&v); keep(&it);" % d, "let v = vec![x; 67]; let it = v.into_simd_iter(%s); need_static(it);" % d)
    # filling borrows the buffer for as long as the returned slice
    fill = "let v = vec![x; 67]; let mut b = vec![x; 67]; let r = v[..].simd_iter(%s).simd_map(|a| a).scalar_fill(&mut b[..]); " % d
    add("%s: scalar_fill: buffer written" % t, "(x: %s)" % t, fill + "b[0] = x; keep(r);", fill + "keep(r);")
    add("%s: scalar_fill: buffer dropped" % t, "(x: %s)" % t, fill + "drop(b); keep(r);", fill + "keep(r);")
    add("%s: scalar_fill: source kept borrowed only as long as needed" % t, "(x: %s)" % t, fill + "drop(b); keep(r); drop(v);", fill + "drop(v); keep(r);")
    add("%s: scalar_fill: returned under the source's lifetime" % t, None, "<'a, 'b>(a: &'a [%s], b: &'b mut [%s]) -> &'a mut [%s] { a.simd_iter(%s).simd_map(|a| a).scalar_fill(b) }" % (t, t, t, d),
        "<'a, 'b>(a: &'a [%s], b: &'b mut [%s]) -> &'b mut [%s] { a.simd_iter(%s).simd_map(|a| a).scalar_fill(b) }" % (t, t, t, d))
    zf = "let v = vec![x; 67]; let mut b = vec![x; 67]; let r = (v[..].simd_iter(%s), v[..].simd_iter(%s)).zip().simd_map(|(a, _)| a).scalar_fill(&mut b[..]); " % (d, d)
    add("%s: zip scalar_fill: buffer written" % t, "(x: %s)" % t, zf + "b[0] = x; keep(r);", zf + "keep(r);")
    # callbacks
    add("%s: simd_for_each: element reference escapes" % t, "(x: %s)" % t, "let mut v = vec![x; 67]; let mut r = None; v[..].simd_iter_mut(%s).simd_for_each(|e| { r = Some(e); }); keep(&r);" % d,
        "let mut v = vec![x; 67]; let mut r = None; v[..].simd_iter_mut(%s).simd_for_each(|e| { r = Some(*e); }); keep(&r);" % d)
    add("%s: simd_for_each through a shared iterator" % t, "(x: %s)" % t, "let v = vec![x; 67]; let s = &v[..]; s.simd_iter(%s).simd_for_each(|e| {});" % d, "let mut v = vec![x; 67]; let s = &mut v[..]; s.simd_iter_mut(%s).simd_for_each(|e| {});" % d)
    return W


def unit(a):
    t, cfg, deep, seed = a
    R = report.Report("C32", "quick", seed)
    W = witnesses(t, deep)
    H = itcore.header() + HEAD
    try: c = build.compile_probes(cfg, [(k + n, s) for _, n, b, g in W for k, s in (("b", b), ("g", g))], H, tag="bw", check_only=True)
    except build.BuildError as e:
        R.bad("build@" + cfg, str(e)); return R.dump()
    for key, n, b, g in W:
        m, gm = c.dropped.get("b" + n), c.dropped.get("g" + n)
        R.stat("witness programs checked", 2)
        if gm is not None: R.bad(key + " (twin)", "the program without the offending line does not compile at %s: %s  |  fn%s" % (cfg, gm, g[3:]))
        elif m is None: R.bad(key, "this program compiles at %s and must not: %s" % (cfg, b))
        elif any(x in m for x in BORROW) or "the method" in m or "no method" in m or "trait bound" in m: R.ok("offending program rejected, twin accepted")
        else: R.undecided("rejection", "%s@%s: rejected for another reason: %s" % (key, cfg, m))
        if m: R.stat("rejected: " + m.split("`")[0].strip())
    if len(R.samples) < 3 and W: R.samples.append(dict(rejected=W[0][2], accepted=W[0][3], message=c.dropped.get("b" + W[0][1])))
    return R.dump()


def check(pid, tier, seed):
    R = report.Report(pid, tier, seed)
    deep = tier == "thorough"
    cfgs = build.LEVELS if deep else ("sse2", "avx2", build.PORTABLE)
    us = [(t, c, deep, seed) for c in cfgs for t in itcore.SCALARS]
    with cf.ProcessPoolExecutor(9) as ex:
        for d in ex.map(unit, us): R.merge(d)
    R.assumptions = ["rustc's type and borrow checker; the witnesses are generated per container kind, adaptor, element type and offence"]
    return R.finish("Compile-fail witnesses: for every element type, container kind, iterator and adaptor, programs that write, grow, move, drop, re-borrow or re-iterate the data while an iterator over it is live, or let the iterator or "
                    "a result outlive it, must be rejected by the borrow checker, and the same programs without that line accepted; nothing is generated or executed.")

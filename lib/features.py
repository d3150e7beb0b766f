"""C18: the CPU features required by every function reachable from a public operation, against the features of the build.
Unoptimised IR is used: nothing has been inlined away, so every call of a target-feature function is still a call."""
import re, sys
import concurrent.futures as cf
import build, lanes, ops, access, iters, itcore, report

NM = r'@("(?:[^"]+)"|[\w.$]+)'
# name part of llvm.x86.<isa>. -> feature
ISA = {"sse": "sse", "sse2": "sse2", "sse3": "sse3", "ssse3": "ssse3", "sse41": "sse4.1", "sse42": "sse4.2", "avx": "avx", "avx2": "avx2", "mmx": "mmx"}
# features of the hardware that a call may use when one of its supersets is on
BASEFEAT = {"fxsr", "x87", "cmov", "cx8", "mmx", "64bit"}


def graph(ir):
    """functions -> (references, required features, source of each reference), declared names, attribute groups"""
    attrs = {m.group(1): set(re.findall(r"\+([\w.\-]+)", m.group(2))) for m in re.finditer(r'^attributes #(\d+) = \{.*?"target-features"="([^"]*)"', ir, re.M)}
    refs, need, glob, asm = {}, {}, {}, set()
    cur = None
    for l in ir.splitlines():
        if cur is not None:
            if l.startswith("}"): cur = None; continue
            b = l.split(", !dbg")[0]
            if " asm " in b: asm.add(cur)
            dbg = re.search(r"!dbg !(\d+)", l)
            for x in re.findall(NM, b): refs[cur].setdefault(x.strip('"'), dbg.group(1) if dbg else None)
        elif l.startswith("define") or l.startswith("declare"):
            n = re.search(NM + r"\(", l).group(1).strip('"')
            if l.startswith("define"): cur = n; refs[n] = {}
            need[n] = set()
            for g in re.findall(r"#(\d+)", l): need[n] |= attrs.get(g, set())
        elif l.startswith("@"):
            m = re.match(NM + " = (.*)", l)
            if m: glob[m.group(1).strip('"')] = {x.strip('"'): None for x in re.findall(NM, m.group(2))}
    return refs, need, glob, asm


def plain(n):
    """readable form of a mangled name"""
    m = re.match(r"_ZN((?:\d+[\w.$]+)+)E$", n)
    if not m: return n
    s, out = m.group(1), []
    while s and s[0].isdigit():
        k = re.match(r"\d+", s).group(0)
        out.append(s[len(k):len(k) + int(k)]); s = s[len(k) + int(k):]
    return "::".join(x for x in out if not re.match(r"h[0-9a-f]{16}$", x)).replace("$LT$", "<").replace("$GT$", ">").replace("$u20$", " ").replace("$RF$", "&").replace("..", "::")


def need_of(n, need):
    s = set(need.get(n, ()))
    m = re.match(r"llvm\.x86\.(\w+)\.", n)
    if m:
        i = m.group(1)
        if i in ISA: s.add(ISA[i])
        elif i.startswith("avx512"): s.add("avx512f")
        else: s.add(i)
    return s


def scan(R, mod, ir, cfg, roots, tag=""):
    refs, need, glob, asm = graph(ir)
    have = build.FEATURES[cfg] | BASEFEAT
    over = {n: sorted(need_of(n, need) - have) for n in set(need) | set(refs)}
    seen_all = set()
    for key, fn in roots:
        par, todo, hits = {fn: None}, [fn], []
        while todo:
            x = todo.pop()
            if over.get(x): hits.append(x); continue            # report the first function on each path that needs too much
            for y in refs.get(x) or glob.get(x) or ():
                if y not in par: par[y] = x; todo.append(y)
        seen_all |= set(par)
        R.stat("call sites of public operations analysed")
        for h in sorted(hits):
            p = par[h]; dbg = refs.get(p, {}).get(h)
            w = "; ".join("%s:%s" % (a, b) for a, b, _ in mod.where("!" + dbg) if a.startswith("src/") and "verif_probe" not in a) if dbg and mod else ""
            path, x = [], h
            while x is not None: path.append(plain(x)); x = par[x]
            R.bad("%s@%s needs %s" % (key, cfg, ",".join(over[h])), "%s requires the CPU feature %s, which feature level %s does not have; called through %s%s" % (plain(h), ", ".join(over[h]), cfg, " <- ".join(path[1:5]), (" at " + w) if w else ""))
        if asm & set(par): R.undecided("inline assembly", "%s@%s reaches inline assembly" % (key, cfg))
        if not hits: R.ok("no reachable function or intrinsic requires a feature the target lacks")
    R.stat("functions in the call graphs", len([x for x in seen_all if x in refs]))
    R.stat("functions in the call graphs that require CPU features", len([x for x in seen_all if need_of(x, need)]))
    for n in seen_all:
        if n in refs and "faster" in n: R.functions.add(plain(n))


GROUPS = [["C%02d" % i for i in g] for g in ((1, 2), (3, 4, 5), (6, 7, 8), (9, 10), (11, 12, 13), (14, 15, 16))] + ["access", "iter0", "iter1"]


def unit(a):
    grp, cfg, tier, seed = a
    import irparse
    sys.setrecursionlimit(20000)
    R = report.Report("C18", tier, seed)
    if isinstance(grp, list):
        P = [(p.key, p.name, p.src) for pid in grp for p in ops.probes(pid)]; header = lanes.HEADER
    elif grp == "access":
        P = [(c.key, c.name, c.src) for v in lanes.TYPES for c in access.build_cases(v, False)]; header = itcore.header()
    else:
        iters.NOW["cfg"] = cfg
        ts = ("u8", "i16", "f32") if grp == "iter0" else ("i32", "u64", "f64")
        P, names = [], set()
        for pid in ("C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29", "C30", "C34"):
            for t in ts:
                try: cs = iters.selected(pid, t, False)
                except KeyError: cs = []
                for c in cs:
                    if c.name not in names: names.add(c.name); P.append((c.key, c.name, c.src))
        header = itcore.header()
    try: c = build.compile_probes(cfg, [(n, s) for _, n, s in P], header, opt=0, tag="fe", extra=())
    except build.BuildError as e:
        R.bad("build@" + cfg, str(e)); return R.dump()
    scan(R, irparse.Module(c.ir), c.ir, cfg, [(k, n) for k, n, _ in P if n not in c.dropped])
    return R.dump()


def check(pid, tier, seed):
    R = report.Report(pid, tier, seed)
    us = [(g, c, tier, seed) for c in build.LEVELS for g in GROUPS] + [(g, c, tier, seed) for c in build.EXTRA for g in GROUPS if isinstance(g, list)]
    with cf.ProcessPoolExecutor(9) as ex:
        for d in ex.map(unit, us): R.merge(d)
    R.assumptions = ["rustc lets target-independent vector operations be lowered by LLVM with the features of the build only", "the standard library functions reached are compiled for the baseline x86-64 CPU",
                     "the feature levels are none, sse, sse2, sse3, ssse3, sse4.1, sse4.2 (with and without popcnt), avx and avx2 (with and without popcnt); the library's AVX-512 gates name features no compiler accepts, so they are never on"]
    return R.finish("Static analysis of the unoptimised LLVM IR of every public operation at every feature level: the CPU features required by each function (target-feature attributes) and each x86 intrinsic reachable "
                    "from the operation through the call graph are compared with the features the build enables.")

"""C39: results depend on the arguments alone.  Sources of hidden state reachable in the compiled code of every operation and call
sequence, and type-level witnesses that iterators cross threads exactly when what they hold may."""
import re
import concurrent.futures as cf
import build, lanes, ops, iters, itcore, avail, effects, report

NM = r'@("(?:[^"]+)"|[\w.$]+)'
SOURCES = re.compile(r"^(_ZN(K?\w*)?3std(3env|4time|6thread|2fs|2io|3net|3sys|10std_detect)|_ZN3std7process2id|_ZN3std6thread|_ZN3std11collections4hash|_ZN10std_detect|.*RandomState"
                     r"|(secure_)?getenv$|environ$|clock\w*$|time$|gettimeofday$|s?rand(om)?(_r)?$|getrandom$|getpid$|gettid$|sched_getcpu$|fe(get|set)\w+$|fehold\w+$|pthread_\w+$|__tls_get_addr$|__errno_location$|syscall$|cpuid"
                     r"|llvm\.x86\.(rd\w+|sse\.(st|ld)mxcsr|xgetbv|fxsave\w*|fxrstor\w*|xsave\w*|xrstor\w*|mmx\.\w+.*)$|llvm\.(readcyclecounter|(write_|read_)(volatile_)?register|returnaddress|frameaddress|addressofreturnaddress|stacksave|flt\.rounds|experimental\.constrained\.\w+|threadlocal\w*).*)")
ASM = re.compile(r"rdtsc|rdrand|rdseed|cpuid|rdpid|xgetbv|mxcsr|fldcw|fnstcw|%fs|%gs|syscall", re.I)
MINE = re.compile(r"^e_\w+$")


def globals_of(ir):
    """name -> why its contents are state, or None for constants; and the names each initialiser mentions"""
    kinds, refs = {}, {}
    for l in ir.splitlines():
        if not l.startswith("@"): continue
        m = re.match(NM + r" = (.*)", l)
        if not m: continue
        n, rest = m.group(1).strip('"'), m.group(2)
        head = re.split(r"\b(?:constant|global)\b", rest, 1)[0]
        if "thread_local" in head: kinds[n] = "a thread-local variable"
        elif re.search(r"\bglobal\b", rest[:len(head) + 8]): kinds[n] = "an external variable" if "external" in head else "a mutable global variable"
        else: kinds[n] = None
        refs[n] = {x.strip('"') for x in re.findall(NM, rest)}
    return kinds, refs


def reads(line, name, body):
    """does this instruction let the contents of the variable flow anywhere (anything but being overwritten)?"""
    q = "(?:%s|%s)" % (re.escape("@" + name), re.escape('@"%s"' % name))
    m = re.match(r"\s*store (?:atomic )?(?:volatile )?(.*)$", line)
    if m:
        i = [x.start() for x in re.finditer(q + r"(?![\w.$])", m.group(1))]
        depth, cut = 0, None
        for k, ch in enumerate(m.group(1)):
            depth += ch in "([{<"; depth -= ch in ")]}>"
            if ch == "," and depth == 0: cut = k; break
        return any(x < cut for x in i) if cut is not None else True
    m = re.match(r"\s*(%[\w.]+) = (?:atomicrmw|cmpxchg) ", line)
    if m: return len(re.findall(re.escape(m.group(1)) + r"(?![\w.])", body)) > 1
    m = re.match(r"\s*(?:tail )?call void @llvm\.mem(?:set|cpy|move)\.[\w.]*\(([^,]*),", line)
    if m and re.search(q, m.group(1)) and len(re.findall(q + r"(?![\w.$])", line)) == 1: return False
    return True


def scan(R, ir, roots):
    kinds, grefs = globals_of(ir)
    bodies, cur = {}, None
    decl = set()
    for l in ir.splitlines():
        if cur is not None:
            if l.startswith("}"): cur = None; continue
            bodies[cur].append(l.split(", !dbg")[0].split(" #")[0])
        elif l.startswith("define"): cur = re.search(NM + r"\(", l).group(1).strip('"'); bodies[cur] = []
        elif l.startswith("declare"): decl.add(re.search(NM + r"\(", l).group(1).strip('"'))
    edges, found = {}, {}
    for f, b in bodies.items():
        edges[f] = set()
        text = None
        for l in b:
            for x in re.findall(NM, l):
                x = x.strip('"')
                edges[f].add(x)
                if kinds.get(x):
                    if text is None: text = "\n".join(b)
                    if reads(l, x, text): found.setdefault(f, set()).add(("reads " + kinds[x], x))
            if re.search(r"\basm\b", l) and ASM.search(l): found.setdefault(f, set()).add(("uses an instruction that reads processor state", re.search(r'asm[^"]*"([^"]*)"', l).group(1)[:60]))
    R.stat("variables of the compiled modules", len(kinds))
    for key, fn in roots:
        seen, todo, par = {fn}, [fn], {}
        while todo:
            x = todo.pop()
            if effects.PANIC.match(x) or effects.ALLOC.match(x): continue
            for y in edges.get(x) or grefs.get(x) or ():
                if y not in seen: seen.add(y); par[y] = x; todo.append(y)
        bad = False
        def trail(x):
            path = []
            while x in par: path.append(x); x = par[x]
            return " <- ".join(path[:4]) or "the call itself"
        for x in sorted(seen):
            for what, y in sorted(found.get(x, ())):
                bad = True
                R.bad("%s %s" % (key, re.sub(r"17h[0-9a-f]{16}E$", "", y)), "%s %s in %s" % (what, y, trail(x)))
            if x in grefs and x not in bodies:
                for y in grefs[x]:
                    if y != x and kinds.get(y):
                        bad = True; R.bad("%s %s" % (key, y), "reaches %s %s through the constant %s" % (kinds[y], y, x))
            if x in decl and SOURCES.match(x):
                bad = True
                R.bad("%s %s" % (key, re.sub(r"17h[0-9a-f]{16}E$", "", x)), "depends on something besides its arguments: %s through %s" % (x, trail(x)))
            elif x in decl and not (effects.PURE.match(x) or effects.ALLOC.match(x) or MINE.match(x)):
                bad = True
                R.undecided("external function", "%s reaches %s" % (key, x))
        R.stat("functions in the call graphs", len([x for x in seen if x in bodies]))
        if not bad: R.ok("no state but the arguments is reachable")


# ------------------------------------------------------------------ threads
HEAD = """
fn send<T: Send>(_: &T) {}
fn sync<T: Sync>(_: &T) {}
struct NotSend(*const u8);
"""


def thread_witnesses(t):
    """(key, name, program, must compile)"""
    import borrow
    W = []
    def add(key, src, ok): W.append((key, "t%s%d" % (t, len(W)), src, ok))
    d = "<%ss as Packed>::default()" % t
    P = [(m, a) for m in borrow.makers(t) for a in borrow.adaptors(t)] + [(m, ("plain", "", "{it}")) for m in borrow.strided(t)]
    P += [(("vec.into_simd_iter", "Vec<%s>" % t, "vec![x; 67]", "", "v.into_simd_iter(%s)" % d, True), a) for a in borrow.adaptors(t)[:3]]
    for (mn, ty, mk, pre, it, ex), (an, apre, wrap) in P:
        s = "(x: %s) { let mut v: %s = %s; %s %s let it = %s; " % (t, ty, mk, apre, pre, wrap.replace("{it}", it))
        add("%s: %s, %s" % (t, mn, an), s + "send(&it); sync(&it); }", True)
    u = "(x: %s) { let mut v = vec![x; 67]; let mut it = v[..].simd_iter(%s); let u = it.unroll(2); " % (t, d)
    add("%s: unroll" % t, u + "send(&u); sync(&u); }", True)
    add("%s: default vector" % t, "(v: %ss) { send(&v); sync(&v); }" % t, True)
    # what holds something that must stay on its thread stays there too
    for nm, e in (("simd_map", "v[..].simd_iter(%s).simd_map(|a| { keep_(&n); a })" % d), ("zip map", "(v[..].simd_iter(%s), v[..].simd_iter(%s)).zip().simd_map(|(a, _)| { keep_(&n); a })" % (d, d))):
        for w in ("send", "sync"):
            add("%s: %s with a thread-bound callback: %s" % (t, nm, w), "(x: %s, n: NotSend) { fn keep_<T>(_: &T) {} let v = vec![x; 67]; let it = %s; %s(&it); }" % (t, e, w), False)
            add("%s: %s with a thread-bound callback: %s (twin)" % (t, nm, w), "(x: %s, n: u8) { fn keep_<T>(_: &T) {} let v = vec![x; 67]; let it = %s; %s(&it); }" % (t, e, w), True)
    return W


def threads(R, cfg):
    for t in itcore.SCALARS:
        W = thread_witnesses(t)
        c = build.compile_probes(cfg, [(n, "fn %s%s" % (n, s)) for _, n, s, _ in W], itcore.header() + HEAD, tag="th", check_only=True)
        for key, n, s, ok in W:
            m = c.dropped.get(n)
            R.stat("thread witnesses checked")
            if ok and m is None: R.ok("may be sent to and shared with other threads")
            elif ok and ("cannot be sent" in m or "cannot be shared" in m): R.bad("%s thread-bound" % key, "at %s: %s  |  fn%s" % (cfg, m, s))
            elif ok: R.undecided("witness", "%s@%s: %s" % (key, cfg, m))
            elif m is None: R.bad("%s crosses threads" % key, "this program compiles at %s and must not: fn%s" % (cfg, s))
            elif "cannot be sent" in m or "cannot be shared" in m: R.ok("thread-bound callbacks keep the iterator on its thread")
            else: R.undecided("witness", "%s@%s: rejected for another reason: %s" % (key, cfg, m))


PARTS = 4


def unit(a):
    kind, x, cfg, seed, tier, kw = a
    R = report.Report("C39", tier, seed)
    try:
        if kind == "threads": threads(R, cfg); return R.dump()
        if kind == "ops": P, H = [(p.key, p.name, p.src) for p in ops.probes(x)], lanes.HEADER
        else: P, H = avail.it_probes(cfg)[x::PARTS], itcore.header()
        c = build.compile_probes(cfg, [(n, s) for _, n, s in P], H, tag="st", **kw)
    except build.BuildError as e:
        R.notes.append("%s: %s" % (cfg, e)); R.bad("build@" + cfg, str(e)); return R.dump()
    scan(R, c.ir, [("%s@%s" % (k, cfg), n) for k, n, _ in P if n not in c.dropped])
    R.stat("operation call sites" if kind == "ops" else "iterator call sequences", len(P) - len(c.dropped))
    return R.dump()


def check(pid, tier, seed):
    R = report.Report(pid, tier, seed)
    cfgs = build.LEVELS if tier == "thorough" else iters.QUICK_CFG + (build.PORTABLE,)
    us = [("it", i, c, seed, tier, {}) for c in cfgs for i in range(PARTS)]
    us += [("threads", 0, c, seed, tier, {}) for c in ((build.LEVELS) if tier == "thorough" else ("avx2", build.PORTABLE))]
    us += [("ops", "C%02d" % i, c, seed, tier, {}) for i in [*range(1, 17), 37] for c in cfgs]
    if tier == "thorough": us += [("it", i, "avx2", seed, tier, dict(debug=True)) for i in range(PARTS)]
    with cf.ProcessPoolExecutor(9) as ex:
        for d in ex.map(unit, us): R.merge(d)
    R.assumptions = ["the panic machinery, the heap allocator, memcpy and friends, libm and formatting into memory keep no state that reaches a result",
                     "default features: tracing, which remembers what it has printed, is off"]
    return R.finish("Static analysis of the compiled LLVM IR: no instruction that reads a mutable, thread-local or external variable, no function or processor instruction that reads time, randomness, the environment or the "
                    "floating-point control state is reachable in the call graph of any operation or iterator call sequence; and type-level witnesses, with twins, that iterators and adaptors are Send and Sync exactly when what they hold is.")

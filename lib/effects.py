"""C31: external functions reachable in the compiled code of every operation and call sequence, and heap allocations."""
import re, sys
import concurrent.futures as cf
import build, lanes, ops, iters, report

ALLOC = re.compile(r"^(__rust_(alloc|alloc_zeroed|realloc|dealloc)|_ZN5alloc5alloc18handle_alloc_error|_ZN5alloc7raw_vec17capacity_overflow)")
PURE = re.compile(r"^(llvm\.|mem(cpy|move|set|cmp)$|bcmp$|rust_eh_personality|e_\w+$|_ZN3std9panicking|_ZN4core9panicking|_ZN4core5panic|_ZN4core5slice\d+slice_\w+fail|_ZN4core6option\d+expect|_ZN4core6result\d+unwrap"
                  r"|_ZN3std7process5abort|_ZN4core3fmt|_ZN5alloc3fmt6format|_ZN4core3str|(fma|round|rint|trunc|floor|ceil|sqrt|nearbyint|roundeven)f?$|_Unwind_Resume)")

PANIC = re.compile(r"^_ZN(3std9panicking|4core9panicking)")


def graph(ir):
    refs, glob, decl = {}, {}, set()
    cur = None
    nm = r'@("(?:[^"]+)"|[\w.$]+)'
    for l in ir.splitlines():
        if cur is not None:
            if l.startswith("}"): cur = None; continue
            refs[cur].update(x.strip('"') for x in re.findall(nm, l.split(", !dbg")[0]))
        elif l.startswith("define"):
            cur = re.search(nm + r"\(", l).group(1).strip('"'); refs[cur] = set()
        elif l.startswith("declare"): decl.add(re.search(nm + r"\(", l).group(1).strip('"'))
        elif l.startswith("@"):
            m = re.match(nm + " = (.*)", l)
            if m: glob[m.group(1).strip('"')] = set(x.strip('"') for x in re.findall(nm, m.group(2)))
    return refs, glob, decl


def scan(R, ir, roots, allocs):
    """roots: [(key, function)]; allocs: key -> may reach the allocator"""
    refs, glob, decl = graph(ir)
    for key, fn in roots:
        seen, todo, par = {fn}, [fn], {}
        bad = False
        while todo:
            x = todo.pop()
            if PANIC.match(x): continue                        # the panic machinery is outside the claim
            for y in refs.get(x) or glob.get(x) or ():
                if y not in seen: seen.add(y); par[y] = x; todo.append(y)
        for e in sorted(seen & decl):
            if PURE.match(e) or (ALLOC.match(e) and allocs(key)): continue
            path, x = [], e
            while x in par: path.append(x); x = par[x]
            bad = True
            R.bad("%s %s" % (key, re.sub(r"17h[0-9a-f]{16}E$", "", e)), ("reaches the heap allocator " if ALLOC.match(e) else "reaches an external effect ") + e + " through " + " <- ".join(path[:4]))
        R.stat("functions in the call graphs", len([x for x in seen if x in refs]))
        if not bad: R.ok("only pure external functions are reachable")


def ops_unit(a):
    pid, cfg, seed, tier, kw = a
    R = report.Report("C31", tier, seed)
    P = ops.probes(pid)
    try: c = build.compile_probes(cfg, [(p.name, p.src) for p in P], lanes.HEADER, **kw)
    except build.BuildError as e:
        R.notes.append("%s: %s" % (cfg, e)); return R.dump()
    scan(R, c.ir, [("%s@%s" % (p.key, cfg), p.name) for p in P if p.name not in c.dropped], lambda k: False)
    R.stat("operation call sites", len(P) - len(c.dropped))
    return R.dump()


def work(a): return ops_unit(a[1]) if a[0] == "ops" else iters.run_unit(a[1])


def check(pid, tier, seed):
    R = report.Report(pid, tier, seed)
    cfgs = build.LEVELS if tier == "thorough" else iters.QUICK_CFG + (build.PORTABLE,)
    us = [("it", ("C31", c, ts, tier, seed, kw)) for c, ts, kw in iters.units("C31", tier)]
    us += [("ops", ("C%02d" % i, c, seed, tier, {})) for i in [*range(1, 17), 37] for c in cfgs]
    with cf.ProcessPoolExecutor(9) as ex:
        for d in ex.map(work, us): R.merge(d)
    R.assumptions = ["the listed pure external functions (panic entry points, memcpy and friends, libm, formatting into memory) perform no I/O",
                     "default features: the tracing feature, which writes a file by design, is off"]
    return R.finish("Static analysis of the compiled LLVM IR: the set of external functions reachable (calls, references and global initialisers) from every operation and every "
                    "iterator call sequence, against an allow-list of functions without input/output, and the number of heap allocations met by abstract interpretation of the call sequences.")

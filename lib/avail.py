"""C19: which operations the compiler accepts at each feature level, with and without tracing and the standard library.
Type checking only; nothing is generated or executed."""
import re, sys
import concurrent.futures as cf
import build, lanes, ops, access, iters, itcore, report

ALIAS = {t: "%s%ds" % (k, b) for t, (k, b, n) in lanes.TYPES.items() if b * n == 128}
FEATS = {"default": ("default", "std"), "trace": ("default", "std", "trace"), "no_std": ()}
CHUNKS = 2


def op_probes():
    """fixed vector types: every operation/type pair, offered or not; and the same calls on the default vector of each element type"""
    fixed, alias = [], []
    for i in range(1, 17):
        for p in ops.probes("C%02d" % i):
            if p.meta.get("must_panic"): continue
            fixed.append((p.key, p.name, p.src))
            names = set(re.findall(r"\b[uif]\d+x\d+\b", p.src)) & set(lanes.TYPES)
            if names and all(x in ALIAS for x in names) and "[" not in p.src.split("{", 1)[0].replace("#[no_mangle]", ""):
                src = re.sub(r"\b[uif]\d+x\d+\b", lambda m: ALIAS.get(m.group(0), m.group(0)), p.src)
                a = re.sub(r"\b[uif]\d+x\d+\b", lambda m: ALIAS.get(m.group(0), m.group(0)), p.key)
                alias.append((a, "a" + p.name, src.replace("fn " + p.name + "(", "fn a" + p.name + "(")))
    return fixed, alias


def it_probes(cfg):
    iters.NOW["cfg"] = cfg
    out, names = [], set()
    for pid in ("C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29", "C30", "C34"):
        for t in itcore.SCALARS:
            for c in iters.selected(pid, t, True):
                if c.name not in names: names.add(c.name); out.append((c.key, c.name, c.src))
    for t in itcore.SCALARS:
        for c in access.scalar_cases(t, False): out.append((c.key, c.name, c.src))
    return out


def unit(a):
    """-> (kind, cfg, feature set, accepted probe keys, build error)"""
    kind, cfg, feat = a
    if kind == "lib": P, H = [], ""
    elif kind == "it": P, H = it_probes(cfg), itcore.header()
    else: P, H = op_probes()[0 if kind.startswith("fixed") else 1], lanes.HEADER
    if kind[-1].isdigit(): P = P[int(kind[-1])::CHUNKS]
    if feat == "no_std": H, P = H.replace("use std::", "use core::"), [(k, n, s.replace("::std::", "::core::")) for k, n, s in P]
    try: c = build.compile_probes(cfg, [(n, s) for _, n, s in P], H, features=FEATS[feat], tag="av", check_only=True)
    except build.BuildError as e: return kind, cfg, feat, None, {}, str(e)
    return kind, cfg, feat, [k for k, n, _ in P if n not in c.dropped], {k: c.dropped[n] for k, n, _ in P if n in c.dropped}, None


def check(pid, tier, seed):
    R = report.Report(pid, tier, seed)
    us = [("lib", c, f) for c in build.LEVELS for f in FEATS]
    us += [("fixed%d" % i, c, "default") for c in build.LEVELS for i in range(CHUNKS)] + [("alias0", c, "default") for c in build.LEVELS]
    us += [("alias%d" % i, c, "default") for c in build.LEVELS for i in range(1, CHUNKS)] + [("it", c, "default") for c in build.LEVELS]
    if tier == "thorough": us += [(k, c, f) for f in ("trace", "no_std") for c in build.LEVELS for k in ["fixed%d" % i for i in range(CHUNKS)] + ["alias%d" % i for i in range(CHUNKS)]] + [("it", c, "trace") for c in build.LEVELS]
    else: us += [("alias%d" % i, c, f) for f in ("trace", "no_std") for c in ("none", "avx2") for i in range(CHUNKS)]
    got = {}
    with cf.ProcessPoolExecutor(9) as ex:
        for kind, cfg, feat, acc, rej, err in ex.map(unit, us):
            if err is not None:
                R.bad("build@%s/%s" % (cfg, feat), err); continue
            R.stat("type-checked builds")
            if kind == "lib": R.ok("the library compiles"); continue
            g = got.setdefault((kind.rstrip("0123456789"), cfg, feat), (set(), {}))
            g[0].update(acc); g[1].update(rej)
    for kind in ("fixed", "alias", "it"):
        every = {k: (c, f) for (kd, c, f), g in sorted(got.items()) if kd == kind and c != build.PORTABLE for k in g[0]}
        R.stat("operation/type pairs (%s)" % {"fixed": "fixed vector types", "alias": "default vectors", "it": "iterators"}[kind], len(every))
        for (kd, c, f), (acc, rej) in sorted(got.items()):
            if kd != kind: continue
            for k in every:
                if k in acc: R.ok("accepted at this level and wherever else it is accepted")
                elif kind == "fixed" and c == build.PORTABLE: continue          # only the default vectors are promised there
                elif k in rej: R.bad("%s@%s/%s missing" % (k, c, f), "the call compiles at %s/%s but not at %s/%s: %s" % (every[k] + (c, f) + (rej[k],)))
    R.assumptions = ["rustc's type checker decides acceptance", "the portable build is type-checked for the host with the x86 architecture predicates made false, its operations are compared on the default vectors only"]
    return R.finish("Static analysis by type checking: at every feature level, with tracing, without the standard library and for the portable (non-x86) sources, the library and one call of every operation on every "
                    "vector type, on the default vectors, and every iterator call sequence are type-checked; a call accepted anywhere must be accepted everywhere.")

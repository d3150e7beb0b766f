#!/usr/bin/env python3
"""Generate /verif/seeded/<id>/ from a definition file (python: SEEDS = [dict(...)]): applies each edit in a scratch copy and stores the diff."""
import json, os, stat, subprocess, sys, importlib.util
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
DEMO = '''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is not
D=$(cd "$(dirname "$0")" && pwd)
export HOME=/root RUSTUP_TOOLCHAIN=nightly-2020-07-01 PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/root/.cargo/bin
T=$(mktemp -d)
trap '/bin/rm -rf "$T"' EXIT
L=/repo/target/vp-%(cpu)s/debug
rustc --edition 2018 %(flags)s -C target-cpu=%(cpu)s --extern faster=$L/libfaster.rlib -L dependency=$L/deps "$D/main.rs" -o $T/demo || exit 3
timeout 120 $T/demo
'''


def sh(c, **k): return subprocess.run(c, shell=True, check=True, stdout=subprocess.PIPE, text=True, **k).stdout


def main(path, only):
    spec = importlib.util.spec_from_file_location("s", path); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    for s in m.SEEDS:
        if only and s["id"] not in only: continue
        w = "/tmp/seedwork"
        sh("rm -rf /tmp/seedwork && mkdir /tmp/seedwork && git -C /repo archive HEAD | tar x -C /tmp/seedwork && cd /tmp/seedwork && git init -q && git add -A -f && git -c user.name=x -c user.email=x@x commit -qm b")
        for e in s["edits"]:                      # (file, old, new[, which occurrence])
            f, a, b = e[:3]
            p = os.path.join(w, f); t = open(p).read()
            n = t.count(a)
            if n != 1 and len(e) < 4: sys.exit("%s: %r occurs %d times in %s" % (s["id"], a, n, f))
            ps = t.split(a); k = e[3] + 1 if len(e) > 3 else 1
            open(p, "w").write(a.join(ps[:k]) + b + a.join(ps[k:]))
        d = os.path.join(V, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(sh("cd /tmp/seedwork && git diff"))
        if "main" in s: open(d + "/main.rs", "w").write(s["main"].lstrip())
        for n, t in s.get("extra", {}).items(): open(d + "/" + n, "w").write(t)
        open(d + "/demo.sh", "w").write(s["demo"] if "demo" in s else DEMO % dict(cpu=s.get("cpu", "x86-64"), flags=s.get("flags", "")))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        # lines the patch takes away must be original ones
        cur = None; bad = []
        for l in sh("cd /tmp/seedwork && git diff -U0").splitlines():
            if l.startswith("--- a/"): cur = l[6:]
            elif l.startswith("@@"): ln = int(l.split()[1][1:].split(",")[0])
            elif l.startswith("-") and not l.startswith("---"):
                o = sh("git -C /repo blame -s --root -L %d,%d HEAD -- %s" % (ln, ln, cur)).split()[0]
                if o.lstrip("^")[:7] != "e613dd0": bad.append("%s:%d" % (cur, ln))
                ln += 1
        print(s["id"], "TOUCHES MY LINES " + " ".join(bad) if bad else "")
    sh("rm -rf /tmp/seedwork")


main(sys.argv[1], sys.argv[2:])

"""Compile the current /repo sources (plus generated probe functions) to LLVM IR, without running them.

Nothing here executes code of the library: `rustc --emit=llvm-ir` on a scratch copy of /repo/src with
one extra module appended.  Dependencies are compiled once per feature configuration to metadata + MIR.
"""
import fcntl, hashlib, json, os, re, shutil, subprocess, tempfile, concurrent.futures as cf

REPO = os.environ.get("FASTER_REPO", "/repo")
VERIF = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
BUILD = os.environ.get("FASTER_BUILD", os.path.join(VERIF, "build"))
VENDOR = "/opt/vp/vendor"
TOOLCHAIN = "nightly-2020-07-01"

# name -> -C target-feature string.  Every feature level named by a cfg gate in the sources.
CONFIGS = {
    "none":  "-sse,-sse2",
    "sse":   "-sse2",
    "sse2":  "+sse2",
    "sse3":  "+sse3",
    "ssse3": "+ssse3",
    "sse41": "+sse4.1",
    "sse42": "+sse4.2,+popcnt",
    "avx":   "+avx,+popcnt",
    "avx2":  "+avx2,+popcnt",
}
ORDER = list(CONFIGS)                 # the x86 feature levels
# the code other architectures compile: the same sources with the x86 architecture predicates made false
# (compiled for the host, since no other target's standard library is installed; no vector feature is used by it)
PORTABLE = "portable"
CONFIGS[PORTABLE] = "+sse2"
# feature levels without the separate popcnt feature, for the feature-gate analysis
EXTRA = {"sse42-nopopcnt": "+sse4.2,-popcnt", "avx2-nopopcnt": "+avx2,-popcnt"}
CONFIGS.update(EXTRA)
LEVELS = ORDER + [PORTABLE]          # everything the library can be configured to
DEPS = {PORTABLE: "sse2", "sse42-nopopcnt": "sse42", "avx2-nopopcnt": "avx2"}      # dependencies only contribute generic or inlined code
FEATURES = {
    "none": set(),
    "sse": {"sse"},
    "sse2": {"sse", "sse2"},
    "sse3": {"sse", "sse2", "sse3"},
    "ssse3": {"sse", "sse2", "sse3", "ssse3"},
    "sse41": {"sse", "sse2", "sse3", "ssse3", "sse4.1"},
    "sse42": {"sse", "sse2", "sse3", "ssse3", "sse4.1", "sse4.2", "popcnt"},
    "avx": {"sse", "sse2", "sse3", "ssse3", "sse4.1", "sse4.2", "popcnt", "avx"},
    "avx2": {"sse", "sse2", "sse3", "ssse3", "sse4.1", "sse4.2", "popcnt", "avx", "avx2"},
}
FEATURES[PORTABLE] = set(FEATURES["sse2"])
FEATURES["sse42-nopopcnt"] = FEATURES["sse42"] - {"popcnt"}
FEATURES["avx2-nopopcnt"] = FEATURES["avx2"] - {"popcnt"}
for k in FEATURES:
    if k != "none": FEATURES[k] |= {"fxsr", "mmx"}
FEATURES["none"] |= {"fxsr", "mmx"}


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_HOME=os.path.join(BUILD, "cargo-home"),
             PATH="/root/.cargo/bin:/usr/local/cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + os.environ.get("PATH", ""))
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "LD_LIBRARY_PATH", "FASTER_DEBUG_FILE"):
        e.pop(k, None)
    return e


def run(cmd, cwd=None, timeout=600):
    return subprocess.run(cmd, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                          timeout=timeout, text=True, errors="replace")


def deps_dir(cfg):
    """Compile cfg-if, libm, packed_simd, vektor for a configuration (cached in build/)."""
    cfg = DEPS.get(cfg, cfg)
    d = os.path.join(BUILD, "deps", cfg)
    stamp = os.path.join(d, "OK")
    if os.path.exists(stamp):
        return d
    os.makedirs(os.path.join(BUILD, "deps"), exist_ok=True)
    with open(os.path.join(BUILD, "deps", cfg + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(stamp):
            return d
        tmp = d + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        base = ["rustc", "--edition", "2018", "--crate-type", "rlib", "--emit=metadata", "-Copt-level=3",
                "-Cdebuginfo=1", "--cap-lints", "allow", "-L.", "-Zalways-encode-mir",
                "-Ctarget-feature=" + CONFIGS[cfg]]
        steps = [
            ["--crate-name", "cfg_if", VENDOR + "/cfg-if/src/lib.rs"],
            ["--crate-name", "libm", VENDOR + "/libm/src/lib.rs", "--cfg", 'feature="default"'],
            ["--crate-name", "packed_simd", VENDOR + "/packed_simd_2/src/lib.rs",
             "--extern", "cfg_if=libcfg_if.rmeta", "--extern", "libm=liblibm.rmeta"],
            ["--crate-name", "vektor", VENDOR + "/vektor/src/lib.rs", "--extern", "packed_simd=libpacked_simd.rmeta"],
        ]
        for s in steps:
            r = run(base + s, cwd=tmp)
            if r.returncode:
                raise BuildError("dependency build failed for %s: %s" % (cfg, r.stderr[-2000:]))
        os.rename(tmp, d)
        open(stamp, "w").write("ok")
    return d


def setup(cfgs=None):
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(deps_dir, cfgs or ORDER))


def not_x86(src):
    """make every x86 architecture predicate of the copied sources false"""
    for root, _, fs in os.walk(src):
        for f in fs:
            p = os.path.join(root, f)
            s = open(p, errors="replace").read()
            t = re.sub(r'target_arch\s*=\s*"x86(_64)?"', 'target_arch = "none"', s)
            if t != s: open(p, "w").write(t)


def tree_hash():
    h = hashlib.sha256()
    for root, ds, fs in os.walk(os.path.join(REPO, "src")):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(root, f)
            h.update(os.path.relpath(p, REPO).encode())
            h.update(open(p, "rb").read())
    return h.hexdigest()


def flags(cfg, opt, debug, features=("default", "std"), extra=()):
    d = deps_dir(cfg)
    f = ["--edition", "2018", "--crate-type", "rlib", "--crate-name", "faster", "--cap-lints", "allow",
         "-L", d, "--extern", "packed_simd=" + d + "/libpacked_simd.rmeta",
         "--extern", "vektor=" + d + "/libvektor.rmeta",
         "-Zmerge-functions=disabled", "-Ctarget-feature=" + CONFIGS[cfg], "-Ccodegen-units=1", "-Cdebuginfo=1",
         "-Coverflow-checks=" + ("on" if debug else "off"), "-Cdebug-assertions=" + ("on" if debug else "off")]
    if opt:
        f += ["-Copt-level=%s" % opt, "-Cno-vectorize-loops", "-Cno-vectorize-slp", "-Cinline-threshold=5000"]
    for x in features:
        f += ["--cfg", 'feature="%s"' % x]
    return f + list(extra)


UNROLL = ["-Cllvm-args=-unroll-threshold=100000 -unroll-full-max-count=600 -unroll-max-count=600 -unroll-max-iteration-count-to-analyze=600 -unroll-partial-threshold=0"]


class Compiled:
    def __init__(self, cfg, ir, dropped, messages):
        self.cfg, self.ir, self.dropped, self.messages = cfg, ir, dropped, messages


def compile_probes(cfg, probes, header, opt=3, debug=False, features=("default", "std"), unroll=True, tag="p", extra=(), check_only=False):
    """probes: list of (name, rust_source).  Returns Compiled: IR text, and the probes the compiler
    rejected (name -> message).  Raises BuildError if the library itself does not compile."""
    os.makedirs(os.path.join(BUILD, "work"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="%s-%s-" % (tag, cfg), dir=os.path.join(BUILD, "work"))
    try:
        shutil.copytree(os.path.join(REPO, "src"), os.path.join(work, "src"))
        if cfg == PORTABLE: not_x86(os.path.join(work, "src"))
        with open(os.path.join(work, "src", "lib.rs"), "a") as f:
            f.write('\n#[path = "../verif_probe.rs"] pub mod verif_probe;\n')
        dropped, messages = {}, []
        for attempt in range(12):
            lines, owner = header.rstrip("\n").split("\n"), {}
            for name, src in probes:
                if name in dropped: continue
                for l in src.rstrip("\n").split("\n"):
                    lines.append(l)
                    owner[len(lines)] = name
            with open(os.path.join(work, "verif_probe.rs"), "w") as f:
                f.write("\n".join(lines) + "\n")
            out = os.path.join(work, "out.ll")
            cmd = ["rustc"] + flags(cfg, opt, debug, features, extra) + (UNROLL if unroll and opt else []) + \
                  ["--emit=metadata" if check_only else "--emit=llvm-ir", "--error-format=json", "src/lib.rs", "-o", out]
            r = run(cmd, cwd=work, timeout=800)
            if r.returncode == 0:
                return Compiled(cfg, None if check_only else open(out).read(), dropped, messages)
            bad, libbad = {}, []
            for l in r.stderr.splitlines():
                try: m = json.loads(l)
                except ValueError: continue
                if m.get("level") not in ("error", "error: internal compiler error"): continue
                hit = False
                for sp in m.get("spans", []):
                    if sp["file_name"].endswith("verif_probe.rs") and sp.get("is_primary"):
                        if sp["line_start"] in owner:
                            bad[owner[sp["line_start"]]] = m["message"]
                            hit = True
                    e = sp.get("expansion")
                    while e and not hit:
                        s2 = e["span"]
                        if s2["file_name"].endswith("verif_probe.rs") and s2["line_start"] in owner:
                            bad[owner[s2["line_start"]]] = m["message"]; hit = True
                        e = s2.get("expansion")
                if not hit and m.get("spans"):
                    sp = m["spans"][0]
                    libbad.append("%s:%s: %s" % (sp["file_name"], sp["line_start"], m["message"]))
                elif not hit and not m["message"].startswith("aborting"):
                    libbad.append(m["message"])
            if not bad or libbad:
                raise BuildError("library does not compile at feature level %s: %s" % (cfg, "; ".join(libbad[:5]) or r.stderr[-1500:]))
            dropped.update(bad)
        raise BuildError("probes keep failing at %s" % cfg)
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    setup()

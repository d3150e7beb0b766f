"""property id -> check"""
LANE_T = "abstract interpretation of the compiler IR of every operation, in a symbolic per-lane value domain"
CHECKS = {}
for i in list(range(1, 17)) + [37]: CHECKS["C%02d" % i] = dict(mod="lanecheck", technique=LANE_T)
SEQ_T = "abstract interpretation of the compiler IR of public call sequences, with opaque callbacks and symbolic slice contents"
for p in ("C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29", "C30", "C34"): CHECKS[p] = dict(mod="iters", technique=SEQ_T)
CHECKS["C31"] = dict(mod="effects", technique="reachability of external functions in the compiler IR call graph; allocation counting by abstract interpretation")
CHECKS["C18"] = dict(mod="features", technique="CPU features required by every function and intrinsic reachable in the call graph of the compiled operations")
CHECKS["C19"] = dict(mod="avail", technique="type checking of every operation at every configuration")
CHECKS["C20"] = dict(mod="cross", technique="comparison between feature levels of the canonical lane terms computed by abstract interpretation of the compiler IR")
CHECKS["C32"] = dict(mod="borrow", technique="compile-fail witnesses with compiling twins, decided by the type and borrow checker", note="Every generated program that must be rejected is paired with a twin that differs only in the offending line and must be accepted; trusts rustc's borrow checker. Covers the generated families of programs (containers, adaptors, offences, element types), not every conceivable program.")
CHECKS["C33"] = dict(mod="nopanic", technique="abstract interpretation of the IR of every operation compiled with overflow checks: reachability of panics")
CHECKS["C38"] = dict(mod="tracing", technique="abstract interpretation of the unoptimised IR of every operation compiled with tracing on, in a symbolic per-lane value domain")
CHECKS["C39"] = dict(mod="state", technique="reachability of mutable globals and other hidden state in the compiler IR call graph; compile-time Send and Sync witnesses with twins", note="Decides the LLVM IR rustc generates from the current source, and rustc's own type checking, at every feature level; no code runs. The allow-listed external functions are trusted to keep no state that reaches a result; variables only written are not reported.")
CHECKS["C17"] = dict(mod="access", technique=SEQ_T)


def run(pid, tier, seed):
    import importlib
    return importlib.import_module(CHECKS[pid]["mod"]).check(pid, tier, seed)

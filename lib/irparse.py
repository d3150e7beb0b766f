"""Parser for the LLVM 10 textual IR printed by the pinned rustc."""
import re

TOK = re.compile(r'''\s*(?:
 (?P<str>c?"(?:[^"\\]|\\.)*")
|(?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-\w.$]+))
|(?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-\w.$]+))
|(?P<meta>![\w.]*)
|(?P<attr>\#\d+)
|(?P<num>-?(?:0x[KLMH]?[0-9A-Fa-f]+|\d+(?:\.\d+(?:e[+-]?\d+)?)?))
|(?P<word>[A-Za-z_][\w.]*)
|(?P<dots>\.\.\.)
|(?P<p>[<>\[\]{}(),=*:|])
)''', re.X)


def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "": break
            raise SyntaxError("token at %r" % s[i:i + 40])
        k = m.lastgroup
        out.append((k, m.group(k)))
        i = m.end()
    return out


class Toks:
    __slots__ = ("t", "i", "mod")

    def __init__(self, toks, mod): self.t, self.i, self.mod = toks, 0, mod
    def peek(self, k=0): return self.t[self.i + k][1] if self.i + k < len(self.t) else None
    def kind(self): return self.t[self.i][0] if self.i < len(self.t) else None
    def next(self):
        v = self.t[self.i][1]; self.i += 1; return v
    def accept(self, v):
        if self.peek() == v and self.kind() != "str": self.i += 1; return True
        return False
    def expect(self, v):
        if self.peek() != v: raise SyntaxError("expected %s got %s in %s" % (v, self.peek(), " ".join(x[1] for x in self.t)))
        self.i += 1
    def done(self): return self.i >= len(self.t)


INT_RE = re.compile(r"i(\d+)$")


def ptype(T):
    t = T.next()
    m = INT_RE.match(t)
    if m: ty = ("i", int(m.group(1)))
    elif t == "float": ty = ("f", 32)
    elif t == "double": ty = ("f", 64)
    elif t in ("void", "label", "metadata", "opaque", "x86_mmx", "half", "token"): ty = (t,)
    elif t == "<":
        if T.peek() == "{":
            T.next(); els = plist(T, "}"); T.expect(">")
            ty = ("s", tuple(els), True)
        else:
            n = int(T.next()); T.expect("x"); e = ptype(T); T.expect(">")
            ty = ("v", n, e)
    elif t == "[":
        n = int(T.next()); T.expect("x"); e = ptype(T); T.expect("]")
        ty = ("a", n, e)
    elif t == "{":
        ty = ("s", tuple(plist(T, "}")), False)
    elif t.startswith("%"): ty = ("n", t)
    else: raise SyntaxError("type %r in %s" % (t, " ".join(x[1] for x in T.t)))
    while True:
        if T.peek() == "*": T.next(); ty = ("p", ty)
        elif T.peek() == "(" and T.kind() == "p":
            T.next()
            args = []
            while not T.accept(")"):
                if T.accept("..."): pass
                else: args.append(ptype(T))
                T.accept(",")
            ty = ("fn", ty, tuple(args))
        else: return ty


def plist(T, end):
    els = []
    while not T.accept(end):
        els.append(ptype(T)); T.accept(",")
    return els


CASTS = {"bitcast", "ptrtoint", "inttoptr", "trunc", "zext", "sext", "fpext", "fptrunc", "sitofp", "uitofp", "fptosi", "fptoui", "addrspacecast"}
BINOPS = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "fadd", "fsub", "fmul", "fdiv", "frem"}
FLAGS = {"nuw", "nsw", "exact", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "inbounds", "volatile"}
PATTR = {"noalias", "nocapture", "readonly", "readnone", "nonnull", "zeroext", "signext", "sret", "byval", "inreg", "returned", "noundef", "writeonly", "immarg", "nest", "swiftself"}


def pvalue(T, ty):
    """operand of known type -> ('c',int) ('loc',name) ('glob',name) ('undef',) ('zero',) ('null',) ('agg',[(ty,val)]) ('ce',op,...)"""
    k, t = T.t[T.i]
    T.i += 1
    if k == "loc": return ("loc", t)
    if k == "glob": return ("glob", t)
    if k == "num":
        if ty[0] == "f":
            if t.startswith("0x"):
                v = int(t[2:], 16)
                if ty[1] == 32:
                    import struct
                    d = struct.unpack("<d", v.to_bytes(8, "little"))[0]
                    if d != d:
                        b = 0x7f800000 | ((v >> 63) << 31) | ((v >> 29) & 0x7fffff)
                        return ("c", b)
                    return ("c", int.from_bytes(struct.pack("<f", d), "little"))
                return ("c", v)
            import struct
            d = float(t)
            return ("c", int.from_bytes(struct.pack("<f" if ty[1] == 32 else "<d", d), "little"))
        return ("c", int(t, 0))
    if t == "true": return ("c", 1)
    if t == "false": return ("c", 0)
    if t == "undef": return ("undef",)
    if t == "zeroinitializer": return ("zero",)
    if t == "null": return ("null",)
    if k == "str":
        s = t[2:-1] if t.startswith("c") else t[1:-1]
        b, i = [], 0
        while i < len(s):
            if s[i] == "\\":
                if s[i + 1] == "\\": b.append(92); i += 2
                else: b.append(int(s[i + 1:i + 3], 16)); i += 3
            else: b.append(ord(s[i])); i += 1
        return ("bytes", bytes(b))
    if t in ("<", "[", "{"):
        if t == "<" and T.peek() == "{":
            T.next(); r = pagg(T, "}"); T.expect(">"); return r
        return pagg(T, {"<": ">", "[": "]", "{": "}"}[t])
    if t == "getelementptr":
        T.accept("inbounds"); T.expect("(")
        bt = ptype(T); T.expect(",")
        T.accept("inrange")
        pt = ptype(T); pv = pvalue(T, pt); idx = []
        while T.accept(","):
            T.accept("inrange")
            it = ptype(T); idx.append((it, pvalue(T, it)))
        T.expect(")")
        return ("ce", "gep", bt, pt, pv, idx)
    if t in CASTS:
        T.expect("("); st = ptype(T); v = pvalue(T, st); T.expect("to"); dt = ptype(T); T.expect(")")
        return ("ce", t, st, v, dt)
    if t in BINOPS:
        while T.peek() in FLAGS: T.next()
        T.expect("("); at = ptype(T); a = pvalue(T, at); T.expect(","); bt = ptype(T); b = pvalue(T, bt); T.expect(")")
        return ("ce", t, at, a, b)
    if t == "icmp":
        pred = T.next(); T.expect("("); at = ptype(T); a = pvalue(T, at); T.expect(","); bt = ptype(T); b = pvalue(T, bt); T.expect(")")
        return ("ce", "icmp", pred, at, a, b)
    if t == "blockaddress" or t == "asm": raise SyntaxError(t)
    raise SyntaxError("value %r" % t)


def pagg(T, end):
    els = []
    while not T.accept(end):
        ty = ptype(T); els.append((ty, pvalue(T, ty))); T.accept(",")
    return ("agg", els)


def tv(T):
    ty = ptype(T)
    return ty, pvalue(T, ty)


class Ins:
    __slots__ = ("res", "op", "x", "dbg", "text", "al")

    def __init__(self, res, op, x, dbg, text): self.res, self.op, self.x, self.dbg, self.text, self.al = res, op, x, dbg, text, None

    def aligns(self):
        """alignments the instruction requires: of its address, or (argument, alignment) pairs of a block copy"""
        if self.al is None:
            if self.op in ("load", "store", "alloca"):
                m = re.search(r", align (\d+)", self.text)
                self.al = int(m.group(1)) if m else 0
            else:
                m = re.search(r"@llvm\.mem\w+\.[\w.]*\((.*)", self.text)
                self.al = [(i, int(k.group(1))) for i, a in enumerate(m.group(1).split(", ")[:2]) for k in [re.search(r"\balign (\d+)", a)] if k] if m else []
        return self.al


DBG = re.compile(r", !dbg (!\d+)")
METATAIL = re.compile(r", ![\w.]+ ![\d{].*$")


def parse_call(T, op):
    while T.peek() in ("tail", "musttail", "notail", "call", "invoke") : T.next()
    while T.peek() in FLAGS: T.next()
    if T.peek() in ("fastcc", "coldcc", "ccc"): T.next()
    # return attributes
    while True:
        p = T.peek()
        if p in PATTR: T.next()
        elif p in ("align", "dereferenceable", "dereferenceable_or_null"):
            T.next()
            if T.accept("("):
                T.next(); T.expect(")")
            else: T.next()
        else: break
    rt = ptype(T)
    if rt[0] == "p" and rt[1][0] == "fn": pass
    if rt[0] == "fn": rt = rt[1]
    if T.peek() == "asm": raise SyntaxError("inline asm")
    callee = pvalue(T, ("p", ("fn", rt, ())))
    T.expect("(")
    args = []
    while not T.accept(")"):
        if T.peek() == "metadata":
            # skip debug intrinsics operands
            depth = 0
            while not (depth == 0 and T.peek() in (",", ")")):
                if T.peek() in "([{": depth += 1
                if T.peek() in ")]}": depth -= 1
                T.next()
            args.append((("metadata",), None))
        else:
            ty = ptype(T)
            attrs = []
            while True:
                p = T.peek()
                if p in PATTR:
                    attrs.append(T.next())
                    if T.peek() == "(" :  # byval(T)
                        d = 0
                        while True:
                            q = T.next()
                            if q == "(": d += 1
                            if q == ")":
                                d -= 1
                                if d == 0: break
                elif p in ("align", "dereferenceable", "dereferenceable_or_null"):
                    T.next()
                    if T.accept("("): T.next(); T.expect(")")
                    else: T.next()
                else: break
            args.append((ty, pvalue(T, ty)))
        T.accept(",")
    at = []
    while T.kind() == "attr": at.append(T.next())
    return rt, callee, args, at


def parse_ins(text, mod):
    dbg = None
    m = DBG.search(text)
    if m: dbg = m.group(1)
    s = METATAIL.sub("", text)
    T = Toks(tokenize(s), mod)
    res = None
    if T.kind() == "loc" and T.peek(1) == "=":
        res = T.next(); T.next()
    op = T.next()
    if op in ("tail", "musttail", "notail"): op = T.next()
    if op in BINOPS:
        fl = []
        while T.peek() in FLAGS: fl.append(T.next())
        ty, a = tv(T); T.expect(","); b = pvalue(T, ty)
        x = (op, ty, a, b, tuple(fl)); op = "bin"
    elif op == "fneg":
        while T.peek() in FLAGS: T.next()
        x = tv(T)
    elif op in CASTS:
        ty, v = tv(T); T.expect("to"); x = (op, ty, v, ptype(T)); op = "cast"
    elif op in ("icmp", "fcmp"):
        while T.peek() in FLAGS: T.next()
        pred = T.next(); ty, a = tv(T); T.expect(","); x = (pred, ty, a, pvalue(T, ty))
    elif op == "select":
        while T.peek() in FLAGS: T.next()
        c = tv(T); T.expect(","); a = tv(T); T.expect(","); b = tv(T); x = (c, a, b)
    elif op == "phi":
        ty = ptype(T); inc = []
        while True:
            T.expect("["); v = pvalue(T, ty); T.expect(","); l = T.next(); T.expect("]"); inc.append((v, l))
            if not T.accept(","): break
        x = (ty, inc)
    elif op == "br":
        if T.accept("label"): x = (None, T.next(), None)
        else:
            c = tv(T); T.expect(","); T.expect("label"); a = T.next(); T.expect(","); T.expect("label"); b = T.next(); x = (c, a, b)
    elif op == "switch":
        v = tv(T); T.expect(","); T.expect("label"); d = T.next(); T.expect("["); cases = []
        while not T.accept("]"):
            c = tv(T); T.expect(","); T.expect("label"); cases.append((c, T.next()))
        x = (v, d, cases)
    elif op == "ret":
        if T.accept("void"): x = None
        else: x = tv(T)
    elif op == "unreachable": x = None
    elif op in ("call", "invoke"):
        x = parse_call(T, op)
        if op == "invoke":
            T.expect("to"); T.expect("label"); n = T.next(); T.expect("unwind"); T.expect("label"); u = T.next()
            x = x + (n, u)
    elif op == "load":
        T.accept("volatile"); ty = ptype(T); T.expect(","); x = (ty,) + tv(T)
    elif op == "store":
        T.accept("volatile"); a = tv(T); T.expect(","); x = (a, tv(T))
    elif op == "getelementptr":
        T.accept("inbounds"); bt = ptype(T); T.expect(","); p = tv(T); idx = []
        while T.accept(","): idx.append(tv(T))
        x = (bt, p, idx)
    elif op == "extractelement":
        a = tv(T); T.expect(","); x = (a, tv(T))
    elif op == "insertelement":
        a = tv(T); T.expect(","); b = tv(T); T.expect(","); x = (a, b, tv(T))
    elif op == "shufflevector":
        a = tv(T); T.expect(","); b = tv(T); T.expect(","); x = (a, b, tv(T))
    elif op == "extractvalue":
        a = tv(T); idx = []
        while T.accept(","): idx.append(int(T.next()))
        x = (a, idx)
    elif op == "insertvalue":
        a = tv(T); T.expect(","); b = tv(T); idx = []
        while T.accept(","): idx.append(int(T.next()))
        x = (a, b, idx)
    elif op == "alloca":
        ty = ptype(T); n = None
        if T.accept(",") and T.peek() != "align": n = tv(T)
        x = (ty, n)
    elif op in ("landingpad", "resume", "fence", "cmpxchg", "atomicrmw", "va_arg", "freeze"): x = None
    else: raise SyntaxError("instruction " + op)
    return Ins(res, op, x, dbg, text)


class Func:
    def __init__(self, name, header, body, mod):
        self.name, self.header, self.body, self.mod = name, header, body, mod
        self._blocks = None
        self._params = None

    def params(self):
        if self._params is None:
            h = self.header
            i = h.index("@" + self.name) + 1 + len(self.name)
            T = Toks(tokenize(h[i:].split(" unnamed_addr")[0] if " unnamed_addr" in h else h[i:h.rindex(")") + 1]), self.mod)
            T.expect("(")
            ps = []
            while not T.accept(")"):
                ty = ptype(T); nm = None; attrs = {}
                while T.peek() not in (",", ")"):
                    if T.kind() == "loc": nm = T.next()
                    else:
                        a = T.next()
                        if T.peek() == "(" and a in ("dereferenceable", "dereferenceable_or_null", "align", "byval"):
                            T.next(); d = 1; v = ""
                            while d:
                                q = T.next()
                                if q == "(": d += 1
                                elif q == ")": d -= 1
                                if d: v += q
                            attrs[a] = v
                        elif a == "align": attrs[a] = T.next()
                        else: attrs[a] = True
                ps.append((ty, nm, attrs)); T.accept(",")
            self._params = ps
        return self._params

    def attr_ids(self):
        return re.findall(r"#(\d+)", self.header[self.header.rindex(")"):])

    def blocks(self):
        if self._blocks is None:
            bl, cur, name = {}, None, None
            self.order = []
            pend = None
            for raw in self.body.split("\n"):
                if not raw.strip(): continue
                if not raw.startswith(" ") and not raw.startswith("}") and pend is None:
                    m = re.match(r'("(?:[^"\\]|\\.)*"|[-\w.$]+):', raw)
                    if m:
                        name = "%" + m.group(1)
                        cur = []; bl[name] = cur; self.order.append(name)
                        continue
                    if raw.startswith(";"): continue
                l = raw.strip()
                if l.startswith(";"): continue
                if pend is not None:
                    pend += " " + l
                    if pend.startswith("switch") and "]" not in l: continue
                    l, pend = pend, None
                elif l.startswith("switch") and "]" not in l.split("[", 1)[1]:
                    pend = l; continue
                elif re.match(r"(%\S+ = |%\"[^\"]*\" = )?invoke ", l):
                    pend = l; continue
                elif "= landingpad" in l:
                    if cur is None:
                        name = "%start"; cur = []; bl[name] = cur; self.order.append(name)
                    cur.append(l); continue
                elif l.startswith(("cleanup", "catch ", "filter ")): continue
                if cur is None:
                    name = "%0"; cur = []; bl[name] = cur; self.order.append(name)
                cur.append(l)
            self._blocks = {k: None for k in bl}
            self._raw = bl
        return self._blocks

    def block(self, name):
        b = self.blocks()
        if b[name] is None:
            out = []
            for l in self._raw[name]:
                if "@llvm.dbg." in l or "@llvm.lifetime" in l or "@llvm.experimental.noalias" in l: continue
                out.append(parse_ins(l, self.mod))
            b[name] = out
        return b[name]

    def entry(self):
        self.blocks()
        return self.order[0]


class Module:
    def __init__(self, text):
        self.text = text
        self.types, self.funcs, self.globals, self.attrs, self.declared, self.meta = {}, {}, {}, {}, {}, {}
        self.aliases = {}
        lines = text.split("\n")
        i, n = 0, len(lines)
        while i < n:
            l = lines[i]
            if l.startswith("define "):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(', l)
                j = i + 1
                while lines[j] != "}": j += 1
                self.funcs[m.group(1)] = Func(m.group(1), l, "\n".join(lines[i + 1:j]), self)
                i = j
            elif l.startswith("declare "):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(', l)
                self.declared[m.group(1)] = l
            elif l.startswith("%"):
                m = re.match(r'(%(?:"(?:[^"\\]|\\.)*"|[-\w.$]+)) = type (.*)$', l)
                if m: self.types[m.group(1)] = m.group(2)
            elif l.startswith("@"):
                m = re.match(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+) = (.*)$', l)
                self.globals[m.group(1)] = m.group(2)
            elif l.startswith("attributes #"):
                m = re.match(r"attributes #(\d+) = \{(.*)\}", l)
                self.attrs[m.group(1)] = m.group(2)
            elif l.startswith("!"):
                m = re.match(r"(!\d+) = (.*)$", l)
                if m: self.meta[m.group(1)] = m.group(2)
            i += 1
        self._ty = {}

    def resolve(self, ty):
        while ty[0] == "n":
            if ty[1] not in self._ty:
                s = self.types[ty[1]]
                self._ty[ty[1]] = ptype(Toks(tokenize(s), self)) if s != "opaque" else ("opaque",)
            ty = self._ty[ty[1]]
        return ty

    # layout (x86-64)
    def size(self, ty): return self._layout(ty)[0]
    def align(self, ty): return self._layout(ty)[1]

    def _layout(self, ty):
        ty = self.resolve(ty)
        c = self._ty.get(("L", ty))
        if c: return c
        k = ty[0]
        if k == "i":
            n = (ty[1] + 7) // 8
            a = 1
            while a < n: a *= 2
            a = min(a, 8)
            r = ((n + a - 1) // a * a, a)
        elif k == "f": r = (ty[1] // 8, ty[1] // 8)
        elif k == "p": r = (8, 8)
        elif k == "v":
            bits = ty[1] * (1 if ty[2] == ("i", 1) else 8 * self.size(ty[2]))
            n = (bits + 7) // 8
            a = 1
            while a < n: a *= 2
            r = (a, a)
        elif k == "a":
            s, a = self._layout(ty[2]); r = (s * ty[1], a)
        elif k == "s":
            off, al = 0, 1
            for e in ty[1]:
                s, a = self._layout(e)
                if ty[2]: a = 1
                off = (off + a - 1) // a * a + s; al = max(al, a)
            r = ((off + al - 1) // al * al, al)
        elif k in ("fn", "opaque"): r = (0, 1)
        else: raise SyntaxError("layout %r" % (ty,))
        self._ty[("L", ty)] = r
        return r

    def field(self, ty, i):
        ty = self.resolve(ty)
        if ty[0] == "s":
            off = 0
            for k, e in enumerate(ty[1]):
                s, a = self._layout(e)
                if ty[2]: a = 1
                off = (off + a - 1) // a * a
                if k == i: return off, e
                off += s
        if ty[0] == "a": return i * self.size(ty[2]), ty[2]
        if ty[0] == "v": return i * self.size(ty[2]), ty[2]
        raise SyntaxError("field of %r" % (ty,))

    # debug locations: list of (file, line, function) innermost first
    def where(self, dbg):
        out, seen = [], 0
        while dbg and seen < 40:
            seen += 1
            m = self.meta.get(dbg)
            if not m or "DILocation" not in m: break
            line = re.search(r"line: (\d+)", m); sc = re.search(r"scope: (!\d+)", m); ia = re.search(r"inlinedAt: (!\d+)", m)
            f, fn = self.scope_info(sc.group(1)) if sc else ("?", "?")
            out.append((f, int(line.group(1)) if line else 0, fn))
            dbg = ia.group(1) if ia else None
        return out

    def scope_info(self, s):
        key = ("S", s)
        if key in self._ty: return self._ty[key]
        f = fn = None
        cur, k = s, 0
        while cur and k < 30:
            k += 1
            m = self.meta.get(cur, "")
            if f is None:
                q = re.search(r"file: (!\d+)", m)
                if q:
                    fm = re.search(r'filename: "([^"]*)"', self.meta.get(q.group(1), ""))
                    f = fm.group(1) if fm else None
            if "DISubprogram" in m:
                q = re.search(r'name: "([^"]*)"', m)
                fn = q.group(1) if q else None
                break
            q = re.search(r"scope: (!\d+)", m)
            cur = q.group(1) if q else None
        self._ty[key] = (f or "?", fn or "?")
        return self._ty[key]

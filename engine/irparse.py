"""Parser for the textual LLVM 18 IR that clang/opt emit (the subset that occurs)."""
import re

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "w", "elems", "n", "name", "packed")
    def __init__(self, k, w=0, elems=None, n=0, name=None, packed=False):
        self.k, self.w, self.elems, self.n, self.name, self.packed = k, w, elems, n, name, packed
    def __repr__(self):
        if self.k == "int": return f"i{self.w}"
        if self.k == "arr": return f"[{self.n} x {self.elems[0]}]"
        if self.k == "vec": return f"<{self.n} x {self.elems[0]}>"
        if self.k == "struct": return "{" + ",".join(map(repr, self.elems)) + "}"
        if self.k == "named": return "%" + self.name
        return self.k

INT = {}
def int_ty(w):
    if w not in INT: INT[w] = Ty("int", w)
    return INT[w]
VOID, PTR, DOUBLE, FLOAT, LABEL, META, X86 = (Ty(k) for k in ("void", "ptr", "double", "float", "label", "metadata", "x86_fp80"))

class ParseError(Exception):
    pass

TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<local>%"(?:[^"\\]|\\.)*"|%[-a-zA-Z$._0-9]+)
 | (?P<glob>@"(?:[^"\\]|\\.)*"|@[-a-zA-Z$._0-9]+)
 | (?P<meta>!"(?:[^"\\]|\\.)*"|![-a-zA-Z$._0-9]*)
 | (?P<attr>\#[0-9]+)
 | (?P<num>-?[0-9]+\.[0-9]*(?:[eE][-+]?[0-9]+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?[0-9]+)
 | (?P<word>[a-zA-Z_$.][-a-zA-Z$._0-9]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[][(){}<>,=*:|^])
)''', re.X)

def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "" or s[i:].lstrip().startswith(";"): break
            raise ParseError("tok: " + s[i:i+60])
        if m.end() == i: break
        out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
    return out

PARAM_ATTRS = set("""noundef nonnull zeroext signext noalias nocapture readonly readnone writeonly returned
 inreg nest swiftself swifterror immarg noalias nofree allocalign allocptr dead_on_unwind writable""".split())
PARAM_ATTRS_ARG = set("align dereferenceable dereferenceable_or_null sret byval byref inalloca elementtype range initializes nofpclass captures".split())

class P:
    """token cursor"""
    def __init__(self, toks):
        self.t = toks; self.i = 0
    def peek(self, d=0):
        j = self.i + d
        return self.t[j] if j < len(self.t) else (None, None)
    def next(self):
        x = self.peek(); self.i += 1; return x
    def accept(self, v):
        if self.peek()[1] == v and self.peek()[0] in ("p", "word", "dots"):
            self.i += 1; return True
        return False
    def expect(self, v):
        if not self.accept(v):
            raise ParseError(f"expected {v} got {self.t[self.i:self.i+8]}")
    def done(self):
        return self.i >= len(self.t)

    def ty(self):
        t = self.ty0()
        while True:
            k, v = self.peek()
            if v == "*" and k == "p": self.next(); t = PTR; continue
            if v == "(" and k == "p" and self.looks_fnty():
                # function type
                self.skip_parens(); t = Ty("fn", elems=[t]); continue
            return t
    def looks_fnty(self):
        # called after a type when '(' follows: function type only in call position.
        d = 1; depth = 1
        while depth:
            k, v = self.peek(d)
            if k is None: return False
            if k == "p" and v == "(": depth += 1
            if k == "p" and v == ")": depth -= 1
            if k == "local" and not v.startswith('%"') and not v.startswith("%struct") and not v.startswith("%class"):
                pass
            d += 1
        k, v = self.peek(d)
        return k in ("glob", "local")
    def skip_parens(self):
        self.expect("(")
        depth = 1
        while depth:
            k, v = self.next()
            if k is None: raise ParseError("parens")
            if k == "p" and v == "(": depth += 1
            if k == "p" and v == ")": depth -= 1
    def ty0(self):
        k, v = self.next()
        if k == "word":
            if v[0] == "i" and v[1:].isdigit(): return int_ty(int(v[1:]))
            if v == "void": return VOID
            if v == "ptr":
                if self.peek()[1] == "addrspace": self.next(); self.skip_parens()
                return PTR
            if v == "double": return DOUBLE
            if v == "float": return FLOAT
            if v == "label": return LABEL
            if v == "metadata": return META
            if v == "x86_fp80": return X86
            if v in ("token", "opaque", "half", "fp128"): return Ty(v)
            raise ParseError("type " + v)
        if k == "local": return Ty("named", name=unq(v[1:]))
        if k == "p":
            if v == "[":
                n = int(self.next()[1]); self.expect("x"); e = self.ty(); self.expect("]")
                return Ty("arr", elems=[e], n=n)
            if v == "{":
                el = []
                while not self.accept("}"):
                    el.append(self.ty()); self.accept(",")
                return Ty("struct", elems=el)
            if v == "<":
                if self.peek()[1] == "{":
                    self.next(); el = []
                    while not self.accept("}"):
                        el.append(self.ty()); self.accept(",")
                    self.expect(">")
                    return Ty("struct", elems=el, packed=True)
                n = int(self.next()[1]); self.expect("x"); e = self.ty(); self.expect(">")
                return Ty("vec", elems=[e], n=n)
        raise ParseError(f"type tok {k} {v}")
    def is_type_start(self):
        k, v = self.peek()
        if k == "word":
            return (v[0] == "i" and v[1:].isdigit()) or v in ("void", "ptr", "double", "float", "label", "metadata", "x86_fp80", "half", "opaque")
        return k == "local" and False or (k == "p" and v in "[{<")
    def skip_attrs(self):
        sret = None
        while True:
            k, v = self.peek()
            if k == "word" and v in PARAM_ATTRS: self.next(); continue
            if k == "word" and v in PARAM_ATTRS_ARG:
                self.next()
                if v in ("sret", "byval"):
                    self.expect("("); t = self.ty(); self.expect(")")
                    sret = (v, t)
                elif self.peek()[1] == "(": self.skip_parens()
                else: self.next()
                continue
            if k == "attr": self.next(); continue
            return sret
    # ---- operand values: tuples ('local',name) ('glob',name) ('int',n) ('fp',x) ('null',) ('undef',) ('zero',)
    #      ('ce', op, ...), ('agg',[(ty,val)...])
    def val(self, ty):
        k, v = self.next()
        if k == "local": return ("local", unq(v[1:]))
        if k == "glob": return ("glob", unq(v[1:]))
        if k == "num":
            if ty.k in ("double", "float"): return ("fp", parse_fp(v, ty))
            if v.startswith("0x"): return ("fp", parse_fp(v, ty))
            return ("int", int(v))
        if k == "word":
            if v == "true": return ("int", 1)
            if v == "false": return ("int", 0)
            if v in ("null", "none"): return ("null",)
            if v in ("undef", "poison"): return ("undef",)
            if v == "zeroinitializer": return ("zero",)
            if v in ("getelementptr", "bitcast", "inttoptr", "ptrtoint", "addrspacecast", "sub", "add", "trunc", "icmp", "select", "zext", "sext", "mul", "and", "shl", "xor"):
                return self.constexpr(v)
            if v in ("dso_local_equivalent", "no_cfi"): return self.val(ty)
        if k == "str":
            return ("str", v)
        if k == "p" and v in "[{":
            close = {"[": "]", "{": "}"}[v]
            el = []
            while not self.accept(close):
                t = self.ty(); el.append((t, self.val(t))); self.accept(",")
            return ("agg", el)
        if k == "p" and v == "<":
            el = []
            if self.accept("{"):
                while not self.accept("}"):
                    t = self.ty(); el.append((t, self.val(t))); self.accept(",")
                self.expect(">")
            else:
                while not self.accept(">"):
                    t = self.ty(); el.append((t, self.val(t))); self.accept(",")
            return ("agg", el)
        raise ParseError(f"value {k} {v} {self.t[self.i-3:self.i+5]}")
    def constexpr(self, op):
        while self.peek()[0] == "word" and self.peek()[1] in ("inbounds", "nuw", "nsw", "inrange", "exact"): self.next()
        pred = None
        if op == "icmp": pred = self.next()[1]
        self.expect("(")
        if op == "getelementptr":
            bt = self.ty(); self.expect(",")
            args = []
            while True:
                if self.peek()[1] == "inrange": self.next()
                t = self.ty(); args.append((t, self.val(t)))
                if not self.accept(","): break
            self.expect(")")
            return ("ce", "gep", bt, args)
        args = []
        while True:
            t = self.ty(); args.append((t, self.val(t)))
            if self.accept("to"):
                tt = self.ty(); self.expect(")")
                return ("ce", op, args[0], tt)
            if not self.accept(","): break
        self.expect(")")
        return ("ce", op, pred, args)
    def tval(self):
        t = self.ty()
        self.skip_attrs()
        return t, self.val(t)

def parse_fp(v, ty):
    import struct
    if v.startswith("0x"):
        h = v[2:]
        if h[0] in "KLMHR":
            if h[0] == "K":
                b = int(h[1:], 16); e = (b >> 64) & 0x7fff; m = b & ((1 << 64) - 1); s = -1 if b >> 79 else 1
                return s * m * 2.0 ** (e - 16383 - 63)
            raise ParseError("fp " + v)
        return struct.unpack(">d", bytes.fromhex(h.rjust(16, "0")))[0]
    return float(v)

def unq(s):
    if s.startswith('"'): return s[1:-1]
    return s

class Inst:
    __slots__ = ("op", "res", "ty", "a", "txt", "extra")
    def __init__(self, op, res, ty=None, a=None, txt="", extra=None):
        self.op, self.res, self.ty, self.a, self.txt, self.extra = op, res, ty, a, txt, extra
    def __repr__(self): return self.txt

class Block:
    def __init__(self, name): self.name = name; self.insts = []; self.succ = []; self.pred = []

class Function:
    def __init__(self, name, mod, header, lines):
        self.name = name; self.mod = mod; self.header = header; self.lines = lines
        self._parsed = False
        self.parse_header()
    def parse_header(self):
        h = self.header
        i = h.index("@" + (f'"{self.name}"' if f'@"{self.name}"' in h else self.name))
        pre = h[:i]
        rest = h[i + len(self.name) + 1 + (2 if h[i+1] == '"' else 0):]
        p = P(tokenize(rest))
        p.expect("(")
        self.params = []; self.vararg = False
        while not p.accept(")"):
            if p.accept("..."): self.vararg = True; continue
            t = p.ty(); at = p.skip_attrs()
            k, v = p.peek()
            nm = None
            if k == "local": p.next(); nm = unq(v[1:])
            self.params.append((t, nm, at))
            p.accept(",")
        toks = tokenize(pre)
        # return type = last type before name
        self.ret = None
        for st in range(len(toks)):
            try:
                q = P(toks[st:]); q.skip_attrs(); t = q.ty()
                if q.done(): self.ret = t; break
            except ParseError: continue
        self.ret = self.ret or VOID
    def parse(self):
        if self._parsed: return
        self._parsed = True
        self.blocks = {}
        self.order = []
        nparam = 0
        cur = None
        # implicit numbering of the entry block
        cnt = 0
        for t, nm, at in self.params:
            if nm is None: cnt += 1
            elif nm.isdigit(): cnt = int(nm) + 1
        i = 0
        L = self.lines
        while i < len(L):
            s = L[i]; i += 1
            if not s.strip() or s.lstrip().startswith(";"): continue
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', s)
            if m and not s.startswith(" "):
                nm = unq(m.group(1)); cur = Block(nm); self.blocks[nm] = cur; self.order.append(nm); continue
            if cur is None:
                cur = Block(str(cnt)); self.blocks[cur.name] = cur; self.order.append(cur.name)
            st = s.strip()
            # join multi-line switch / landingpad / invoke
            if re.match(r'^switch\b', st) and "]" not in st:
                while "]" not in st or not L[i-1].strip().startswith("]"):
                    st += " " + L[i].strip(); i += 1
                    if L[i-1].strip().startswith("]"): break
            while i < len(L) and (L[i].strip().startswith("to label") or re.match(r'^\s+(catch|filter|cleanup)\b', L[i])):
                st += " " + L[i].strip(); i += 1
            cur.insts.append(parse_inst(st))
        for b in self.blocks.values():
            t = b.insts[-1]
            if t.op == "br": b.succ = [x for x in t.a[1:]] if t.a[0] is not None else [t.a[1]]
            elif t.op == "switch": b.succ = [t.a[2]] + [x for _, x in t.a[3]]
            elif t.op == "invoke": b.succ = [t.extra["normal"]]   # unwind edge not followed
            else: b.succ = []
        for b in self.blocks.values():
            for s2 in dict.fromkeys(b.succ): self.blocks[s2].pred.append(b.name)
        self.entry = self.order[0]
        self.find_loops()
    def find_loops(self):
        # reachable + dominators
        order = []; seen = set()
        def dfs(n):
            st = [(n, iter(self.blocks[n].succ))]; seen.add(n)
            while st:
                x, it = st[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y); st.append((y, iter(self.blocks[y].succ))); break
                else:
                    order.append(x); st.pop()
        dfs(self.entry)
        rpo = order[::-1]; num = {b: i for i, b in enumerate(rpo)}
        self.rpo = rpo
        idom = {self.entry: self.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in self.blocks[b].pred:
                    if p in idom:
                        if new is None: new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]: x = idom[x]
                                while num[y] > num[x]: y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new: idom[b] = new; ch = True
        self.idom = idom
        def dom(a, b):
            while True:
                if a == b: return True
                if b == self.entry: return False
                b = idom[b]
        self.dom = dom
        loops = {}
        for b in rpo:
            for s in self.blocks[b].succ:
                if s in num and dom(s, b):
                    body = {s}; stk = [b]
                    while stk:
                        x = stk.pop()
                        if x in body: continue
                        body.add(x)
                        stk.extend(p for p in self.blocks[x].pred if p in num)
                    L = loops.setdefault(s, {"header": s, "blocks": set(), "latches": []})
                    L["blocks"] |= body; L["latches"].append(b)
        self.loops = loops
        # blocks that can only end in unreachable (throw paths)
        doomed = set()
        ch = True
        while ch:
            ch = False
            for b in reversed(rpo):
                if b in doomed: continue
                bl = self.blocks[b]; t = bl.insts[-1].op
                if t in ("unreachable", "resume") or (bl.succ and all(s in doomed for s in bl.succ)):
                    doomed.add(b); ch = True
        self.doomed = doomed

FLAGS = {"nuw", "nsw", "exact", "inbounds", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "disjoint", "nneg", "volatile", "tail", "musttail", "notail", "samesign", "nusw"}
BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "fadd", "fsub", "fmul", "fdiv", "frem"}
CAST = {"trunc", "zext", "sext", "fptrunc", "fpext", "fptoui", "fptosi", "uitofp", "sitofp", "ptrtoint", "inttoptr", "bitcast", "addrspacecast"}

def parse_inst(s):
    txt = s
    # strip metadata attachments at the end
    m = re.search(r',\s*![a-zA-Z]', s)
    if m:
        # make sure not within a string
        s = s[:m.start()]
    p = P(tokenize(s))
    res = None
    if p.peek()[0] == "local" and p.peek(1)[1] == "=":
        res = unq(p.next()[1][1:]); p.next()
    k, op = p.next()
    flags = set()
    while p.peek()[0] == "word" and p.peek()[1] in FLAGS:
        if p.peek()[1] in ("inbounds",) and op != "getelementptr": break
        flags.add(p.next()[1])
    if op in ("tail", "musttail", "notail"):
        while op in FLAGS: k, op = p.next()
    if op in BIN:
        t = p.ty(); a = p.val(t); p.expect(","); b = p.val(t)
        return Inst(op, res, t, (a, b), txt, flags)
    if op in CAST:
        t = p.ty(); a = p.val(t); p.expect("to"); t2 = p.ty()
        return Inst(op, res, t2, (t, a), txt, flags)
    if op == "fneg":
        t = p.ty(); return Inst(op, res, t, (p.val(t),), txt)
    if op == "freeze":
        t = p.ty(); return Inst(op, res, t, (p.val(t),), txt)
    if op in ("icmp", "fcmp"):
        while p.peek()[1] in FLAGS: p.next()
        pred = p.next()[1]; t = p.ty(); a = p.val(t); p.expect(","); b = p.val(t)
        return Inst(op, res, t, (pred, a, b), txt)
    if op == "alloca":
        if p.peek()[1] == "inalloca": p.next()
        t = p.ty(); n = ("int", 1)
        if p.accept(",") and p.is_type_start():
            tt = p.ty(); n = p.val(tt)
        return Inst(op, res, t, (n,), txt)
    if op == "load":
        at = p.accept("atomic"); p.accept("volatile")
        t = p.ty(); p.expect(","); pt = p.ty(); a = p.val(pt)
        return Inst(op, res, t, (a,), txt)
    if op == "store":
        p.accept("atomic"); p.accept("volatile")
        t = p.ty(); v = p.val(t); p.expect(","); pt = p.ty(); a = p.val(pt)
        return Inst(op, None, t, (v, a), txt)
    if op == "getelementptr":
        while p.peek()[1] in ("inbounds", "nuw", "nusw"): p.next()
        bt = p.ty(); p.expect(",")
        args = [p.tval()]
        while p.accept(","): args.append(p.tval())
        return Inst(op, res, bt, args, txt)
    if op == "br":
        if p.accept("label"):
            return Inst(op, None, None, (None, unq(p.next()[1][1:])), txt)
        t = p.ty(); c = p.val(t); p.expect(","); p.expect("label"); x = unq(p.next()[1][1:]); p.expect(","); p.expect("label"); y = unq(p.next()[1][1:])
        return Inst(op, None, None, (c, x, y), txt)
    if op == "switch":
        t = p.ty(); c = p.val(t); p.expect(","); p.expect("label"); d = unq(p.next()[1][1:]); p.expect("[")
        cases = []
        while not p.accept("]"):
            tt = p.ty(); v = p.val(tt); p.expect(","); p.expect("label"); cases.append((v[1], unq(p.next()[1][1:])))
        return Inst(op, None, t, (t, c, d, cases), txt)
    if op == "ret":
        t = p.ty()
        return Inst(op, None, t, (p.val(t) if t.k != "void" else None,), txt)
    if op == "phi":
        while p.peek()[1] in FLAGS: p.next()
        t = p.ty(); inc = []
        while True:
            p.expect("["); v = p.val(t); p.expect(","); b = unq(p.next()[1][1:]); p.expect("]"); inc.append((v, b))
            if not p.accept(","): break
        return Inst(op, res, t, inc, txt)
    if op == "select":
        while p.peek()[1] in FLAGS: p.next()
        t = p.ty(); c = p.val(t); p.expect(","); t1, a = p.tval(); p.expect(","); t2, b = p.tval()
        return Inst(op, res, t1, (c, a, b), txt)
    if op in ("call", "invoke"):
        # cconv, ret attrs
        while True:
            p.skip_attrs()
            if p.peek()[1] in ("fastcc", "ccc", "coldcc") or p.peek()[1] in FLAGS: p.next(); continue
            break
        t = p.ty(); p.skip_attrs()
        if t.k == "fn": t = t.elems[0]
        elif p.peek()[1] == "(" :
            p.skip_parens()
        k, v = p.next()
        if k == "glob": callee = ("glob", unq(v[1:]))
        elif k == "local": callee = ("local", unq(v[1:]))
        elif k == "word" and v == "asm": return Inst("asm", res, t, None, txt)
        else: raise ParseError("callee " + v)
        p.expect("(")
        args = []
        while not p.accept(")"):
            at = p.ty()
            if at.k == "metadata":
                depth = 0
                while not (depth == 0 and p.peek()[1] in (",", ")")):
                    kk, vv = p.next()
                    if vv == "(": depth += 1
                    if vv == ")": depth -= 1
                args.append((at, ("undef",), None))
            else:
                a2 = p.skip_attrs(); args.append((at, p.val(at), a2))
            p.accept(",")
        extra = {}
        if op == "invoke":
            while not p.accept("to"): p.next()
            p.expect("label"); extra["normal"] = unq(p.next()[1][1:])
            p.expect("unwind"); p.expect("label"); extra["unwind"] = unq(p.next()[1][1:])
        return Inst(op, res, t, (callee, args), txt, extra)
    if op == "extractvalue":
        t, a = p.tval(); idx = []
        while p.accept(","): idx.append(int(p.next()[1]))
        return Inst(op, res, t, (a, idx), txt)
    if op == "insertvalue":
        t, a = p.tval(); p.expect(","); t2, b = p.tval(); idx = []
        while p.accept(","): idx.append(int(p.next()[1]))
        return Inst(op, res, t, (a, t2, b, idx), txt)
    if op in ("unreachable", "landingpad", "resume", "fence", "atomicrmw", "cmpxchg", "va_arg", "extractelement", "insertelement", "shufflevector"):
        if op == "atomicrmw":
            p.accept("volatile")
            o = p.next()[1]; pt, a = p.tval(); p.expect(","); t, v = p.tval()
            return Inst(op, res, t, (o, a, v), txt)
        return Inst(op, res, None, None, txt)
    raise ParseError("inst: " + txt)

class Module:
    def __init__(self, text=None):
        self.types = {}; self.globals = {}; self.funcs = {}; self.decls = {}; self.aliases = {}
        if text: self.add(text)
    def add(self, text):
        lines = text.split("\n")
        i = 0
        n = len(lines)
        while i < n:
            s = lines[i]
            if s.startswith("define"):
                j = i + 1
                while lines[j] != "}": j += 1
                hdr = s
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', hdr)
                name = unq(m.group(1))
                if name not in self.funcs:
                    self.funcs[name] = Function(name, self, hdr, lines[i+1:j])
                i = j + 1; continue
            if s.startswith("%") and " = type " in s:
                nm, rest = s.split(" = type ", 1)
                nm = unq(nm[1:].strip())
                if nm not in self.types:
                    if rest.strip() == "opaque": self.types[nm] = Ty("opaque")
                    else: self.types[nm] = rest   # lazily parsed
            elif s.startswith("@"):
                m = re.match(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+) = (.*)$', s)
                if m:
                    nm = unq(m.group(1))
                    if nm not in self.globals or " external " in (" " + self.globals[nm] if isinstance(self.globals[nm], str) else ""):
                        self.globals[nm] = m.group(2)
            elif s.startswith("declare"):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', s)
                self.decls[unq(m.group(1))] = s
            i += 1
    def named(self, nm):
        t = self.types.get(nm)
        if isinstance(t, str):
            t = P(tokenize(t)).ty(); self.types[nm] = t
        return t
    def resolve(self, t):
        while t.k == "named":
            r = self.named(t.name)
            if r is None: raise ParseError("unknown type " + t.name)
            t = r
        return t
    def global_def(self, nm):
        """-> (type, init value or None, is_const)"""
        g = self.globals.get(nm)
        if g is None: return None
        if not isinstance(g, str): return g
        s = g
        if " alias " in " " + s or s.startswith("alias"):
            r = ("alias", s); self.globals[nm] = r; return r
        m = re.search(r'\b(global|constant)\s', s)
        pre = s[:m.start()]; rest = s[m.end():]
        const = m.group(1) == "constant"
        p = P(tokenize(rest)); t = p.ty(); init = None
        if "external" not in pre.split() and not p.done() and p.peek()[1] != ",":
            try: init = p.val(t)
            except ParseError: init = None
        r = (t, init, const)
        self.globals[nm] = r
        return r
    # ---- layout
    def align(self, t):
        t = self.resolve(t)
        if t.k == "int": return 1 if t.w <= 8 else 2 if t.w <= 16 else 4 if t.w <= 32 else 8 if t.w <= 64 else 16
        if t.k in ("ptr", "double"): return 8
        if t.k == "float": return 4
        if t.k == "x86_fp80": return 16
        if t.k == "arr": return self.align(t.elems[0])
        if t.k == "vec": return self.size(t)
        if t.k == "struct": return 1 if t.packed else max([self.align(e) for e in t.elems] or [1])
        raise ParseError("align " + repr(t))
    def size(self, t):
        t = self.resolve(t)
        if t.k == "int": return (t.w + 7) // 8 if t.w <= 8 or t.w in (16, 32, 64, 128) else self.align(t) * -(-t.w // (8 * self.align(t)))
        if t.k in ("ptr", "double"): return 8
        if t.k == "float": return 4
        if t.k == "x86_fp80": return 16
        if t.k in ("arr", "vec"): return t.n * self.size(t.elems[0])
        if t.k == "struct":
            o = self.offsets(t); return o[-1]
        raise ParseError("size " + repr(t))
    def offsets(self, t):
        """member offsets + total size"""
        t = self.resolve(t)
        off = 0; out = []; mx = 1
        for e in t.elems:
            a = 1 if t.packed else self.align(e)
            mx = max(mx, a)
            off = -(-off // a) * a
            out.append(off); off += self.size(e)
        if not t.packed: off = -(-off // mx) * mx
        out.append(off)
        return out

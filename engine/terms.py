"""Terms: mixed python/z3 values, linear forms, closures (sums, quantifiers), instantiation."""
import z3
from fractions import Fraction

I = z3.IntSort(); R = z3.RealSort(); B = z3.BoolSort()

def is_z3(x): return isinstance(x, z3.ExprRef)

def smt(x):
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, int): return z3.IntVal(x)
    if isinstance(x, Fraction): return z3.RealVal(x)
    if isinstance(x, float): return z3.RealVal(Fraction(x))
    return x

def is_const(x):
    return not is_z3(x)

def back(e):
    """z3 literal -> python value when it is one"""
    if z3.is_int_value(e): return e.as_long()
    if z3.is_rational_value(e): return Fraction(e.numerator_as_long(), e.denominator_as_long())
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    return e

def simp(e):
    if not is_z3(e): return e
    return back(z3.simplify(e))

_fresh = [0]
def fresh(name, sort):
    _fresh[0] += 1
    return z3.Const(f"{name}!{_fresh[0]}", sort)

def fresh_id():
    _fresh[0] += 1
    return _fresh[0]

# ------------------------------------------------------------ booleans
def bnot(a):
    if isinstance(a, bool): return not a
    return z3.Not(a)
def band(*xs):
    ys = []
    for x in xs:
        if isinstance(x, bool):
            if not x: return False
        else: ys.append(x)
    if not ys: return True
    return ys[0] if len(ys) == 1 else z3.And(*ys)
def bor(*xs):
    ys = []
    for x in xs:
        if isinstance(x, bool):
            if x: return True
        else: ys.append(x)
    if not ys: return False
    return ys[0] if len(ys) == 1 else z3.Or(*ys)
def implies(a, b):
    return bor(bnot(a), b)
def ite(c, a, b):
    if isinstance(c, bool): return a if c else b
    if not is_z3(a) and not is_z3(b) and a == b and type(a) == type(b): return a
    a, b = smt(a), smt(b)
    if a.eq(b): return a
    if a.sort() != b.sort():
        if a.sort() == R: b = z3.ToReal(b)
        elif b.sort() == R: a = z3.ToReal(a)
    return z3.If(c, a, b)

# ------------------------------------------------------------ integer arithmetic
def lin(e):
    """linear decomposition of an Int expression: ({id:(expr,coef)}, const)"""
    if not is_z3(e): return {}, e
    terms = {}; const = [0]
    def go(x, c):
        if z3.is_int_value(x): const[0] += c * x.as_long(); return
        if z3.is_add(x):
            for y in x.children(): go(y, c)
            return
        if z3.is_sub(x):
            ch = x.children(); go(ch[0], c)
            for y in ch[1:]: go(y, -c)
            return
        if x.decl().kind() == z3.Z3_OP_UMINUS: go(x.arg(0), -c); return
        if z3.is_mul(x):
            ch = x.children(); k = 1; rest = []
            for y in ch:
                if z3.is_int_value(y): k *= y.as_long()
                else: rest.append(y)
            if len(rest) == 0: const[0] += c * k; return
            if len(rest) == 1: go(rest[0], c * k); return
            key = z3.simplify(z3.Product(rest))
            if k == 1 or True:
                i = key.get_id()
                o = terms.get(i, (key, 0)); terms[i] = (key, o[1] + c * k)
            return
        i = x.get_id()
        o = terms.get(i, (x, 0)); terms[i] = (x, o[1] + c)
    go(e, 1)
    return {i: t for i, t in terms.items() if t[1] != 0}, const[0]

def unlin(terms, const):
    xs = []
    for e, c in terms.values():
        if c == 1: xs.append(e)
        elif c != 0: xs.append(c * e)
    if not xs: return const
    if const != 0: xs.append(z3.IntVal(const))
    return xs[0] if len(xs) == 1 else z3.Sum(xs)

def iadd(a, b):
    if not is_z3(a) and not is_z3(b): return a + b
    if not is_z3(a) and a == 0: return b
    if not is_z3(b) and b == 0: return a
    t, c = lin(a); t2, c2 = lin(b)
    t = dict(t)
    for i, (e, k) in t2.items():
        o = t.get(i, (e, 0)); t[i] = (e, o[1] + k)
    return unlin({i: x for i, x in t.items() if x[1] != 0}, c + c2)
def ineg(a):
    if not is_z3(a): return -a
    t, c = lin(a)
    return unlin({i: (e, -k) for i, (e, k) in t.items()}, -c)
def isub(a, b): return iadd(a, ineg(b))
def iscale(a, k):
    if not is_z3(a): return a * k
    if k == 0: return 0
    if k == 1: return a
    t, c = lin(a)
    return unlin({i: (e, k * q) for i, (e, q) in t.items()}, c * k)
def imul(a, b):
    if not is_z3(a): return iscale(b, a) if is_z3(b) else a * b
    if not is_z3(b): return iscale(a, b)
    # distribute over sums to keep a polynomial normal form
    ta, ca = lin(a); tb, cb = lin(b)
    if len(ta) + (ca != 0) > 1 or len(tb) + (cb != 0) > 1:
        if (len(ta) + 1) * (len(tb) + 1) <= 36:
            acc = 0
            la = list(ta.values()) + ([(1, ca)] if ca else [])
            lb = list(tb.values()) + ([(1, cb)] if cb else [])
            for e, k in la:
                for f, q in lb:
                    if not is_z3(e): p = f
                    elif not is_z3(f): p = e
                    else: p = z3.simplify(e * f)
                    acc = iadd(acc, iscale(p, k * q) if is_z3(p) else p * k * q)
            return acc
        return a * b
    (e, k), = ta.values() if ta else [(1, ca)]
    (f, q), = tb.values() if tb else [(1, cb)]
    if not is_z3(e) or not is_z3(f): return iscale(f if is_z3(f) else e, k * q)
    return iscale(z3.simplify(e * f), k * q)

# ------------------------------------------------------------ reals
def radd(a, b):
    if not is_z3(a) and not is_z3(b): return a + b
    if not is_z3(a) and a == 0: return b
    if not is_z3(b) and b == 0: return a
    return smt(a) + smt(b)
def rsub(a, b):
    if not is_z3(a) and not is_z3(b): return a - b
    if not is_z3(b) and b == 0: return a
    return smt(a) - smt(b)
def rmul(a, b):
    if not is_z3(a) and not is_z3(b): return a * b
    if (not is_z3(a) and a == 0) or (not is_z3(b) and b == 0): return Fraction(0)
    if not is_z3(a) and a == 1: return b
    if not is_z3(b) and b == 1: return a
    return smt(a) * smt(b)
def rdiv(a, b):
    if not is_z3(a) and not is_z3(b) and b != 0: return a / b
    if not is_z3(b) and b == 1: return a
    if not is_z3(b) and b != 0: return rmul(a, 1 / b)
    return smt(a) / smt(b)

# ------------------------------------------------------------ expression walking
def walk(exprs):
    seen = set(); st = list(exprs)
    while st:
        e = st.pop()
        i = e.get_id()
        if i in seen: continue
        seen.add(i)
        yield e
        if z3.is_app(e): st.extend(e.children())
        elif z3.is_quantifier(e): st.append(e.body())

def free_consts(e):
    out = []; seen = set()
    def go(x):
        i = x.get_id()
        if i in seen: return
        seen.add(i)
        if z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not z3.is_array(x): out.append(x)
            else:
                for y in x.children(): go(y)
    go(e)
    return out

# ------------------------------------------------------------ closures
class Closure:
    """fn(args..., n) standing for a sum or quantifier over body(args, j)"""
    table = {}
    byname = {}
    def __init__(self, kind, body, ph, bv):
        self.kind, self.body, self.ph, self.bv = kind, body, ph, bv
        self.id = len(Closure.table)
        self.sorts = [p.sort() for p in ph]
    @staticmethod
    def make(kind, body, bv, extra):
        """-> applied term.  kind 'sum': extra=[n]; kind 'all': extra=[lo,hi]; kind 'prod'.."""
        body = z3.simplify(smt(body), som=False, arith_lhs=False)
        fc = [c for c in free_consts(body) if not c.eq(bv)]
        ph = [z3.Const(f"ph{i}_{c.sort().name()}", c.sort()) for i, c in enumerate(fc)]
        cbv = z3.Int("cl!bv")
        tmpl = z3.substitute(body, *([(c, p) for c, p in zip(fc, ph)] + [(bv, cbv)]))
        key = (kind, tmpl.get_id())
        c = Closure.table.get(key)
        if c is None:
            c = Closure(kind, tmpl, ph, cbv); Closure.table[key] = c
            rs = B if kind == "all" else tmpl.sort()
            c.keep = tmpl
            c.decl = z3.Function(f"{kind}!{c.id}", *([p.sort() for p in ph] + [I] * len(extra) + [rs]))
            c.nextra = len(extra)
            if kind == "all":
                c.sk = z3.Function(f"sk!{c.id}", *([p.sort() for p in ph] + [I] * len(extra) + [I])) if (ph or extra) else None
            Closure.byname[c.decl.name()] = c
        t = c.decl(*(fc + [smt(x) for x in extra])) if (fc or extra) else c.decl()
        return t
    def inst(self, args, j):
        return z3.substitute(self.body, *([(p, a) for p, a in zip(self.ph, args)] + [(self.bv, smt(j))]))

def closure_of(e):
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() > 0:
        return Closure.byname.get(e.decl().name())
    return None

def mk_sum(lo, hi, f):
    """f: python fn(z3 Int)->term"""
    mk_sum.depth += 1
    try:
        bv = z3.Int(f"b!sum{mk_sum.depth}")     # sums nest: each level has a variable of its own
        body = smt(f(iadd(lo, bv)))
    finally: mk_sum.depth -= 1
    return Closure.make("sum", body, bv, [isub(hi, lo)])

mk_sum.depth = 0

def mk_all(lo, hi, f):
    bv = fresh("b!all", I)
    body = smt(f(bv))
    if z3.is_true(z3.simplify(body)): return True
    return Closure.make("all", body, bv, [lo, hi])

# ------------------------------------------------------------ instantiation
def array_base(a):
    while z3.is_store(a): a = a.arg(0)
    return a

def array_bases(a, out=None):
    if out is None: out = []
    while True:
        if z3.is_store(a): a = a.arg(0); continue
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
            array_bases(a.arg(1), out); a = a.arg(2); continue
        out.append(a); return out

def contains(e, v):
    for x in walk([e]):
        if x.eq(v): return True
    return False

class Expander:
    """QF expansion of closures occurring in a set of formulas"""
    def __init__(self, forms, extra_terms=(), rounds=3, cap=1500):
        self.forms = [f for f in map(smt, forms)]
        self.extra = list(extra_terms)
        self.rounds = rounds; self.cap = cap
        self.out = []
        self.done = set()
        self.seen = set()
        self.closures = []     # (closure, args, app)
        self.selects = {}      # base id -> list of index tuples
        self.sel_seen = set()
        self.skolems = []
        self.n_inst = 0
    def scan(self, forms):
        st = list(forms)
        while st:
            e = st.pop()
            i = e.get_id()
            if i in self.seen: continue
            self.seen.add(i)
            self.out_keep = getattr(self, "out_keep", []); self.out_keep.append(e)
            if z3.is_app(e):
                st.extend(e.children())
                c = closure_of(e)
                if c is not None: self.closures.append((c, e.children(), e))
                if z3.is_select(e):
                    for b in array_bases(e.arg(0)):
                        idx = tuple(e.children()[1:])
                        k = (b.get_id(),) + tuple(x.get_id() for x in idx)
                        if k not in self.sel_seen:
                            self.sel_seen.add(k); self.selects.setdefault(b.get_id(), []).append(idx)
    def add(self, f):
        f = smt(f)
        self.out.append(f); self.n_inst += 1
        return f
    def run(self):
        self.scan(self.forms)
        sumdone = set(); alldone = set(); extdone = set()
        for rnd in range(self.rounds):
            new = []
            # sums: definitional unfolding
            for c, ch, e in list(self.closures):
                if c.kind != "sum": continue
                args, n = ch[:-1], ch[-1]
                if e.get_id() in sumdone: continue
                if rnd >= 2: continue
                sumdone.add(e.get_id())
                zero = z3.RealVal(0) if c.decl.range() == R else z3.IntVal(0)
                nm1 = smt(isub(back(n), 1))
                new.append(self.add(z3.Implies(n <= 0, e == zero)))
                step = c.decl(*(args + [nm1]))
                sumdone.add(step.get_id())
                self.out_keep.append(step)
                new.append(self.add(z3.Implies(n > 0, e == step + c.inst(args, nm1))))
            # sum extensionality between different closures / arguments
            sums = [(c, ch, e) for c, ch, e in self.closures if c.kind == "sum"]
            if rnd == 0 and len(sums) <= 12:
                for x in range(len(sums)):
                    for y in range(x + 1, len(sums)):
                        (c1, a1, e1), (c2, a2, e2) = sums[x], sums[y]
                        if c1.decl.range() != c2.decl.range(): continue
                        if c1 is c2 and all(p.eq(q) for p, q in zip(a1[:-1], a2[:-1])): continue
                        k = (e1.get_id(), e2.get_id())
                        if k in extdone: continue
                        extdone.add(k)
                        sk = z3.Const(f"skx!{e1.get_id()}_{e2.get_id()}", I)
                        self.skolems.append(sk)
                        new.append(self.add(z3.Or(a1[-1] != a2[-1], e1 == e2,
                            z3.And(sk >= 0, sk < a1[-1], c1.inst(a1[:-1], sk) != c2.inst(a2[:-1], sk)))))
            # quantifiers: skolemize + instantiate
            for c, ch, e in list(self.closures):
                if c.kind != "all": continue
                args, lo, hi = ch[:-2], ch[-2], ch[-1]
                if (e.get_id(), "sk") not in alldone:
                    alldone.add((e.get_id(), "sk"))
                    sk = c.sk(*ch)
                    self.skolems.append(sk)
                    new.append(self.add(z3.Or(e, z3.And(lo <= sk, sk < hi, z3.Not(c.inst(args, sk))))))
            for c, ch, e in list(self.closures):
                if c.kind != "all": continue
                args, lo, hi = ch[:-2], ch[-2], ch[-1]
                for t in self.candidates(c, args, lo, hi):
                    k = (e.get_id(), t.get_id())
                    if k in alldone: continue
                    if self.n_inst > self.cap: break
                    alldone.add(k); self.out_keep.append(t)
                    new.append(self.add(z3.Implies(z3.And(e, lo <= t, t < hi), c.inst(args, t))))
            if not new: break
            self.scan(new)
        return self.out
    def candidates(self, c, args, lo, hi):
        res = {}
        def put(t):
            t = smt(t); res.setdefault(t.get_id(), t)
        pats = getattr(c, "pats", None)
        if pats is None:
            pats = []
            for x in walk([c.body]):
                if z3.is_select(x):
                    for b in array_bases(x.arg(0)):
                        for pos, idx in enumerate(x.children()[1:]):
                            t, k = lin(idx)
                            co = None; ok = True
                            for i, (ee, q) in t.items():
                                if ee.eq(c.bv): co = q
                                elif contains(ee, c.bv): ok = False
                            if co is not None and ok:
                                pats.append((b.get_id(), pos, co, unlin({i: v for i, v in t.items() if not v[0].eq(c.bv)}, k)))
            c.pats = pats
            c.triv = any(True for _ in ())
        for bid, pos, co, rest in pats:
            rest2 = z3.substitute(smt(rest), *[(p, a) for p, a in zip(c.ph, args)]) if c.ph else smt(rest)
            for idx in self.selects.get(bid, ()):
                d = isub(back(idx[pos]), back(rest2))
                t, k = lin(d)
                if all(q % co == 0 for _, q in t.values()) and k % co == 0:
                    put(unlin({i: (ee, q // co) for i, (ee, q) in t.items()}, k // co))
        for s in self.skolems: put(s)
        for s in self.extra: put(s)
        put(lo); put(isub(back(hi), 1))
        return list(res.values())

def product_lemmas(forms, cap=400):
    """monotonicity facts for products of integers sharing a factor"""
    monos = {}
    for e in walk(forms):
        if z3.is_mul(e) and z3.is_int(e):
            fs = []
            for x in e.children():
                if not z3.is_int_value(x): fs.append(x)
            # flatten nested
            flat = []
            st = fs[:]
            while st:
                x = st.pop()
                if z3.is_mul(x): st.extend(y for y in x.children() if not z3.is_int_value(y))
                else: flat.append(x)
            if len(flat) >= 2:
                flat.sort(key=lambda x: x.get_id())
                monos[tuple(x.get_id() for x in flat)] = flat
    out = []
    groups = {}
    for key, fs in monos.items():
        for i in range(len(fs)):
            if i and fs[i].eq(fs[i-1]): continue
            rest = fs[:i] + fs[i+1:]
            rk = tuple(x.get_id() for x in rest)
            groups.setdefault(rk, (rest, []))[1].append(fs[i])
    for rk, (rest, cof) in groups.items():
        C = rest[0] if len(rest) == 1 else z3.Product(rest)
        for x in range(len(cof)):
            a = cof[x]
            out.append(z3.Implies(z3.And(a >= 0, C >= 0), a * C >= 0))
            out.append(z3.Implies(z3.And(a >= 1, C >= 0), a * C >= C))
            out.append(z3.Implies(z3.And(a >= 1, C >= 1), a * C >= a))
            out.append(z3.Implies(z3.And(a <= 0, C >= 0), a * C <= 0))
            out.append(z3.Implies(z3.And(a == 0), a * C == 0))
            out.append(z3.Implies(z3.And(a == 1), a * C == C))
            for y in range(len(cof)):
                if x == y: continue
                b = cof[y]
                out.append(z3.Implies(z3.And(a <= b, C >= 0), a * C <= b * C))
                out.append(z3.Implies(z3.And(a < b, C >= 0), a * C + C <= b * C))
                if len(out) > cap: return out
    return out


_UM = {}
def ufize(forms):
    """products of unknowns as uninterpreted functions (sound for unsat)"""
    m = {}
    keep = []
    def um(n, real):
        k = (n, real)
        if k not in _UM:
            S_ = R if real else I
            _UM[k] = z3.Function(f"umul{n}{'r' if real else 'i'}", *([S_] * (n + 1)))
        return _UM[k]
    def go(e):
        st = [(e, False)]
        while st:
            x, done = st.pop()
            i = x.get_id()
            if i in m: continue
            if not z3.is_app(x) or x.num_args() == 0: m[i] = x; keep.append(x); continue
            if not done:
                st.append((x, True)); st.extend((c, False) for c in x.children()); continue
            keep.append(x)
            if z3.is_mul(x):
                fs = []; q = [x]
                while q:
                    y = q.pop()
                    if z3.is_mul(y): q.extend(reversed(y.children()))
                    else: fs.append(y)
                num = [y for y in fs if z3.is_int_value(y) or z3.is_rational_value(y)]
                rest = [m.get(y.get_id()) if y.get_id() in m else go2(y) for y in fs if not (z3.is_int_value(y) or z3.is_rational_value(y))]
                if len(rest) <= 1:
                    r = z3.Product(num + rest) if len(num) + len(rest) > 1 else (num + rest)[0]
                else:
                    r = um(len(rest), z3.is_real(x))(*rest)
                    for y in num: r = y * r
            elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_POWER: r = z3.Function("upow", x.arg(0).sort(), x.arg(1).sort(), x.sort())(m[x.arg(0).get_id()], m[x.arg(1).get_id()])
            else:
                ch = [m[c.get_id()] for c in x.children()]
                if all(a.eq(b) for a, b in zip(ch, x.children())): r = x
                elif z3.is_or(x): r = z3.Or(ch)
                elif z3.is_and(x): r = z3.And(ch)
                elif z3.is_add(x): r = z3.Sum(ch)
                else: r = x.decl()(*ch)
            m[i] = r; keep.append(r)
        return m[e.get_id()]
    def go2(y): return go(y)
    return [go(f) for f in forms]

"""Verification condition generator: path-wise symbolic execution of LLVM IR, loops cut by
inductive invariants (checked candidates), obligations discharged by SMT."""
import re, time, os, sys
import z3
from fractions import Fraction
from irparse import *
from terms import *

class Bail(Exception):
    """the code left the fragment the verifier understands (never a violation)"""

class NeedCut(Exception):
    pass

class Undef:
    def __repr__(self): return "undef"
UNDEF = Undef()

class Lin:
    """byte offset: const + sum coef*expr ; each term carries (N,start) when it indexes a fixed-size array"""
    __slots__ = ("c", "t")
    def __init__(self, c=0, t=()):
        self.c, self.t = c, t
    def add(self, o):
        d = {x[0].get_id(): x for x in self.t}
        for x in o.t:
            y = d.get(x[0].get_id())
            if y is None: d[x[0].get_id()] = x
            else:
                s = x[1] + y[1]
                if s == 0: del d[x[0].get_id()]
                else: d[x[0].get_id()] = (x[0], s, y[2])
        return Lin(self.c + o.c, tuple(d.values()))
    def addc(self, c): return Lin(self.c + c, self.t)
    def neg(self): return Lin(-self.c, tuple((e, -k, b) for e, k, b in self.t))
    def expr(self):
        return unlin({e.get_id(): (e, k) for e, k, b in self.t}, self.c)
    def is_const(self): return not self.t
    def __repr__(self): return f"{self.c}" + "".join(f"+{k}*({e})" for e, k, b in self.t)

def lin_of(e, coef=1, bound=None):
    """Lin from an integer value"""
    if not is_z3(e): return Lin(e * coef)
    if bound is not None: return Lin(0, ((e, coef, bound),))
    t, c = lin(e)
    return Lin(c * coef, tuple((x, k * coef, None) for x, k in t.values()))

class Ptr:
    __slots__ = ("r", "keys", "off")
    def __init__(self, r, keys=(), off=None):
        self.r, self.keys, self.off = r, keys, off if off is not None else Lin()
    def plus(self, lin): return Ptr(self.r, self.keys, self.off.add(lin))
    def __repr__(self): return f"&{self.r.name}{list(self.keys)}+{self.off}"

class PSel:
    """one of two addresses; split into cases only when it is used for something other than a load"""
    __slots__ = ("c", "a", "b")
    def __init__(self, c, a, b): self.c, self.a, self.b = c, a, b
    def __repr__(self): return f"({self.c}?{self.a}:{self.b})"

class FnPtr:
    def __init__(self, name): self.name = name
    def __repr__(self): return "@" + self.name

class NullT:
    def __repr__(self): return "null"
NULL = NullT()

class PtrInt:
    """ptrtoint"""
    def __init__(self, p): self.p = p

class Parts:
    """integer assembled from pieces: [(bits,value)] low to high"""
    def __init__(self, ps): self.ps = ps
    def width(self): return sum(b for b, _ in self.ps)

class Raw:
    """bits of a non-integer value moved through an integer type"""
    def __init__(self, v): self.v = v

class Region:
    n = 0
    names = set()
    table = {}
    def __init__(self, name, kind, stride=None, nkeys=0, lazy=False, length=None, size=None):
        Region.n += 1
        self.id = Region.n
        Region.table[self.id] = self
        if name in Region.names: name = f"{name}~{self.id}"
        Region.names.add(name)
        self.name, self.kind, self.stride, self.nkeys, self.lazy, self.length, self.size = name, kind, stride, nkeys, lazy, length, size
        self.ptrfields = {}     # arr regions: foff -> fn(state, keys+idx)->Ptr
        self.lazyptr = {}       # obj regions: off -> Ptr (stable identity of lazily created pointees)
        self.lazyval = {}
        self.readonly = False; self.nbytes = None
        self.origin = None
        self.frozen = False
        self.elem = None        # arr regions of plain numbers: type of the elements
    def __repr__(self): return self.name

class RS:
    """contents of a region in one state"""
    __slots__ = ("cells", "emb", "arrs", "alias")
    def __init__(self):
        self.cells = {}; self.emb = (); self.arrs = {}; self.alias = ()
    def copy(self):
        r = RS(); r.cells = dict(self.cells); r.emb = self.emb; r.arrs = dict(self.arrs); r.alias = self.alias
        return r

class State:
    __slots__ = ("pc", "mem", "wlog", "may_throw", "hints", "terms", "ctrs", "inputs", "abstract", "ghost")
    def __init__(self):
        self.pc = []; self.mem = {}; self.wlog = set(); self.may_throw = []; self.hints = []; self.terms = []
        self.ctrs = []; self.inputs = []; self.abstract = 0; self.ghost = {}
    def copy(self):
        s = State(); s.pc = list(self.pc); s.mem = dict(self.mem); s.wlog = set(self.wlog)
        s.may_throw = list(self.may_throw); s.hints = list(self.hints); s.terms = list(self.terms)
        s.ctrs = list(self.ctrs); s.inputs = list(self.inputs); s.abstract = self.abstract; s.ghost = dict(self.ghost)
        return s
    def assume(self, f):
        if isinstance(f, bool):
            if not f: self.pc.append(z3.BoolVal(False))
            return
        if z3.is_and(f):
            for x in f.children(): self.assume(x)
            return
        self.pc.append(f)

class Obl:
    def __init__(self, kind, name, pc, goal, fn, terms, inputs=(), abstract=0):
        self.kind, self.name, self.pc, self.goal, self.fn, self.terms = kind, name, pc, goal, fn, terms
        self.inputs, self.abstract = inputs, abstract
        self.status = None; self.time = 0; self.backend = None; self.model = None

# functional symbols with axioms added per occurrence
DIV = z3.Function("idiv", I, I, I); MOD = z3.Function("imod", I, I, I)
SQRT = z3.Function("rsqrt", R, R)
SIN = z3.Function("rsin", R, R); COS = z3.Function("rcos", R, R); EXP = z3.Function("rexp", R, R)
LOG = z3.Function("rlog", R, R); TAN = z3.Function("rtan", R, R); ACOS = z3.Function("racos", R, R)
ATAN = z3.Function("ratan", R, R); POW = z3.Function("rpow", R, R, R); ATAN2 = z3.Function("ratan2", R, R, R); ASIN = z3.Function("rasin", R, R)
AND_ = {}
def bitfn(op, w):
    k = (op, w)
    if k not in AND_: AND_[k] = z3.Function(f"bv{op}{w}", I, I, I)
    return AND_[k]
def flag(e):
    """the condition of a term If(c, 1, 0) or If(c, 0, 1)"""
    if not is_z3(e) or not z3.is_app(e) or e.decl().kind() != z3.Z3_OP_ITE: return None
    p, q = e.arg(1), e.arg(2)
    if not (z3.is_int_value(p) and z3.is_int_value(q)): return None
    v = (p.as_long(), q.as_long())
    return e.arg(0) if v == (1, 0) else z3.Not(e.arg(0)) if v == (0, 1) else None

def cancel_axiom(e):
    """a product with both P and n/P among its factors: equal to the rest when P is not zero"""
    fs = []
    def go(x):
        if z3.is_mul(x):
            for c in x.children(): go(c)
        else: fs.append(x)
    go(e)
    conds = []
    hit = True
    while hit:
        hit = False
        for i, f in enumerate(fs):
            if not z3.is_div(f): continue
            P = f.arg(1)
            if z3.is_rational_value(P): continue
            for j, g in enumerate(fs):
                if j != i and g.eq(P):
                    conds.append(P != 0)
                    fs = [x for k, x in enumerate(fs) if k not in (i, j)] + [f.arg(0)]
                    hit = True; break
            if hit: break
    if not conds: return None
    r = z3.RealVal(1)
    for f in fs: r = r * f
    return z3.Implies(z3.And(conds), e == z3.simplify(r))

def axioms_for(forms, seen=None):
    """axioms of the functional symbols occurring in forms"""
    out = []
    sins = {}; coss = {}; exps = {}
    divs = {}
    for e in walk(forms):
        if not z3.is_app(e) or e.num_args() == 0: continue
        d = e.decl()
        if d.kind() == z3.Z3_OP_MUL:
            ax = cancel_axiom(e)
            if ax is not None: out.append(ax)
            continue
        if d.kind() != z3.Z3_OP_UNINTERPRETED: continue
        n = d.name()
        if n in ("idiv", "imod"):
            x, y = e.arg(0), e.arg(1)
            q, r = DIV(x, y), MOD(x, y)
            out.append(z3.Implies(y > 0, z3.And(x == q * y + r, r >= 0, r < y)))
            out.append(z3.Implies(z3.And(y > 0, x >= 0), z3.And(q >= 0, q <= x)))
            for k in range(3):
                out.append(z3.Implies(z3.And(y > 0, x >= k * y, x < (k + 1) * y), z3.And(q == k, r == x - k * y)))
            sd = syn_div(x, y)
            if sd is not None:
                out.append(z3.Implies(z3.And(y > 0, sd[1] >= 0, sd[1] < y), z3.And(q == sd[0], r == sd[1])))
            # division by a product a*b
            divs.setdefault(x.get_id(), (x, {}))[1][y.get_id()] = y
        elif n == "rsqrt":
            x = e.arg(0)
            out.append(z3.Implies(x >= 0, z3.And(e >= 0, e * e == x)))
        elif n == "rsin": sins[e.arg(0).get_id()] = e.arg(0)
        elif n == "rcos": coss[e.arg(0).get_id()] = e.arg(0)
        elif n == "rexp": out.append(e > 0); exps[e.arg(0).get_id()] = e.arg(0)
    for x, ys in divs.values():
        ys = list(ys.values())
        for a in ys:
            fa = factors(a)
            for b in ys:
                if a is b or len(factors(b)) <= len(fa): continue
                q = divide(b, fa)
                if q is None: continue
                m = MOD(x, b)
                out.append(z3.Implies(z3.And(a > 0, b > 0, x >= 0), z3.And(MOD(x, a) == MOD(m, a), DIV(x, a) == DIV(x, b) * q + DIV(m, a))))
    for i, x in {**sins, **coss}.items():
        out.append(SIN(x) * SIN(x) + COS(x) * COS(x) == 1)
    return out

def poly(e):
    """polynomial of an integer term: {monomial (sorted atom ids): coefficient}, atoms by id"""
    t, c = lin(e)
    at = {}; p = {(): c} if c else {}
    for m, k in t.values():
        fs = factors(m)
        ids = []
        for f in fs:
            if z3.is_int_value(f): k *= f.as_long()
            elif z3.is_add(f): return None, None
            else: at[f.get_id()] = f; ids.append(f.get_id())
        key = tuple(sorted(ids)); p[key] = p.get(key, 0) + k
    return {m: k for m, k in p.items() if k}, at

def unpoly(p, at):
    ts = []
    for m, k in p.items():
        t = z3.IntVal(k) if k != 1 or not m else None
        for i in m: t = at[i] if t is None else t * at[i]
        ts.append(t)
    return z3.Sum(ts) if len(ts) > 1 else ts[0] if ts else z3.IntVal(0)

def syn_div(x, y):
    """x = y*q + r by polynomial division"""
    px, ax = poly(x); py, ay = poly(y)
    if not px or not py or () in py and len(py) == 1: return None
    at = {**ax, **ay}
    lead = max(py, key=lambda m: (len(m), m)); lc = py[lead]
    def over(m):
        m = list(m)
        for i in lead:
            if i not in m: return None
            m.remove(i)
        return tuple(m)
    q = {}; r = dict(px)
    for _ in range(24):
        for m, k in r.items():
            d = over(m)
            if d is not None and k % lc == 0:
                f = k // lc
                q[d] = q.get(d, 0) + f
                for m2, k2 in py.items():
                    mm = tuple(sorted(d + m2)); r[mm] = r.get(mm, 0) - f * k2
                r = {m2: k2 for m2, k2 in r.items() if k2}
                break
        else: break
    q = {m: k for m, k in q.items() if k}
    if not q: return None
    return unpoly(q, at), unpoly(r, at)

def factors(e):
    out = []; st = [e]
    while st:
        x = st.pop()
        if z3.is_mul(x): st.extend(x.children())
        else: out.append(x)
    return out
def divide(e, fs):
    """e / product(fs) when the factors occur syntactically (1 -> python int)"""
    have = factors(e)
    for f in fs:
        for i, x in enumerate(have):
            if x.eq(f): have.pop(i); break
        else: return None
    if not have: return 1
    return have[0] if len(have) == 1 else z3.simplify(z3.Product(have))

class Engine:
    def __init__(self, mod, demangle, opts=None):
        self.mod = mod
        self.dem = demangle            # dict mangled->demangled
        self.record = True
        self.obls = []
        self.globreg = {}
        self.contracts = {}            # demangled real name -> stub mangled name
        self.log = []
        self.pure = 0
        self.stats = {"paths": 0, "loops": 0, "insts": 0, "queries": 0, "qtime": 0.0, "functions": set(), "contracts_used": set(), "models": set(), "lazy": set(), "loops_cut": [], "unrolled": 0}
        self.deadline = None
        self.opts = {"feas_ms": 300, "cand_ms": 1500, "obl_ms": 20000, "unroll": 40, "bounds": True, "verbose": False}
        if opts: self.opts.update(opts)
        self.cur = "?"
        self.models = []
        self.curfn = []
        self.mark0 = 0
        self.clos_cache = {}; self.arr_cache = {}
        self.loc_cache = {}; self.feas_cache = {}; self.feas_models = []; self.wrapped = {}; self.canon = {}
        self.st_now = None

    # ------------------------------------------------------------------ solver
    def base_solver(self, forms, ms, extra_terms=(), goal=None, rounds=3):
        forms = [smt(f) for f in forms]
        allf = forms + ([z3.Not(smt(goal))] if goal is not None else [])
        ex = Expander(allf, extra_terms, rounds=rounds)
        inst = ex.run()
        ax = axioms_for(allf + inst)
        s = z3.Solver()
        s.set("timeout", ms)
        for f in allf: s.add(f)
        for f in inst: s.add(f)
        for f in ax: s.add(f)
        return s, allf + inst + ax

    def feasible(self, st, cond):
        """False only if pc & cond is unsatisfiable"""
        if isinstance(cond, bool): return cond
        c = simp(cond)
        if isinstance(c, bool): return c
        forms = st.pc + [c]
        key = frozenset(f.get_id() for f in forms)
        hit = self.feas_cache.get(key)
        if hit is not None: return hit[0]
        # a remembered model of the path that also satisfies the condition
        npc = len(st.pc)
        for m, good in self.feas_models[-6:]:
            if all(f.get_id() in good or self.holds_in(m, f, good) for f in forms):
                self.feas_cache[key] = (True, forms); return True
        self.stats["queries"] += 1
        t0 = time.time()
        ax = axioms_for(forms)
        # products as uninterpreted terms: unsat is final, sat needs the arithmetic
        fs = ufize(forms + ax)
        nl = not all(a.eq(b) for a, b in zip(fs, forms + ax))
        s = z3.Solver(); s.set("timeout", self.opts["feas_ms"])
        for f in fs: s.add(f)
        r = s.check()
        if nl and r != z3.unsat:
            s = z3.Solver(); s.set("timeout", self.opts["feas_ms"] // 2)
            for f in forms + ax: s.add(f)
            r = s.check()
            if r == z3.unknown:
                s = z3.Solver(); s.set("timeout", self.opts["feas_ms"] // 2)
                for f in forms + ax + product_lemmas(forms + ax): s.add(f)
                r = s.check()
        if r == z3.sat:
            self.feas_models.append((s.model(), {f.get_id(): f for f in forms}))
            del self.feas_models[:-12]
        self.stats["qtime"] += time.time() - t0
        self.check_deadline()
        res = r != z3.unsat
        self.feas_cache[key] = (res, forms)
        return res

    def holds_in(self, m, f, good):
        try: ok = z3.is_true(m.eval(f, model_completion=True))
        except z3.Z3Exception: return False
        if ok: good[f.get_id()] = f
        return ok

    def must(self, st, cond):
        if isinstance(cond, bool): return cond
        return not self.feasible(st, bnot(cond))

    def has_closure(self, f):
        i = f.get_id()
        h = self.clos_cache.get(i)
        if h is None:
            h = (any(closure_of(e) is not None for e in walk([f])), f)
            self.clos_cache[i] = h
        return h[0]

    def arrays_of(self, f):
        i = f.get_id()
        h = self.arr_cache.get(i)
        if h is None:
            out = set(); st = [f]; seen = set()
            while st:
                e = st.pop()
                if e.get_id() in seen: continue
                seen.add(e.get_id())
                if z3.is_app(e):
                    if e.num_args() == 0:
                        if z3.is_array(e): out.add(e.get_id())
                    else:
                        st.extend(e.children())
                        c = closure_of(e)
                        if c is not None: st.append(c.body)
            h = (frozenset(out), f)
            self.arr_cache[i] = h
        return h[0]

    def check_deadline(self):
        if self.deadline and time.time() > self.deadline: raise Bail("time budget of the verifier exhausted")

    def prove(self, pc, goal, ms, terms=(), quick=False):
        """-> ('unsat'|'sat'|'unknown', model, backend)"""
        if isinstance(goal, bool):
            if goal: return "unsat", None, "trivial"
            goal = z3.BoolVal(False)
        g = simp(goal)
        if g is True: return "unsat", None, "trivial"
        self.stats["queries"] += 1
        self.check_deadline()
        t0 = time.time()
        try:
            res = self.prove_split(pc, goal, ms, terms, quick)
        finally:
            dt = time.time() - t0
            self.stats["qtime"] += dt
            if self.opts.get("verbose") and dt > self.opts.get("slow", 0.3):
              if self.opts.get("slow"):
                  cl = closure_of(smt(goal)); print("PC", pc, "\nGOAL", goal, cl and cl.body)
              print(f"slow prove {dt:.2f}s {locals().get('res', ('?',))[0]} {str(goal)[:150]!r}", flush=True)
        return res

    def prove_split(self, pc, goal, ms, terms, quick):
        """a quantified goal that extends a quantified hypothesis by one element is proved in two cases"""
        goal = smt(goal)
        c = closure_of(goal)
        if c is None or c.kind != "all": return self._prove(pc, goal, ms, terms, quick)
        ch = goal.children(); args, lo, hi = ch[:-2], ch[-2], ch[-1]
        prev = None
        for f in pc:
            c2 = closure_of(f)
            if c2 is None or c2.kind != "all": continue
            lo2, hi2 = f.children()[-2:]
            if lo2.eq(lo) and isub(back(hi), back(hi2)) == 1: prev = hi2; break
        if prev is None: return self._prove(pc, goal, ms, terms, quick)
        sk = fresh("c", I)
        cases = [(pc + [lo <= prev], c.inst(args, prev)), (pc + [lo <= sk, sk < prev], c.inst(args, sk))]
        last = None
        for p, g in cases:
            g = z3.simplify(g)
            gs = list(g.children()) if z3.is_and(g) else [g]
            r = self._prove(p, g, min(ms, 1500), terms, quick) if len(gs) > 1 else None
            if r is None or r[0] == "unknown":
                for g1 in gs:
                    r = self._prove(p, g1, ms, terms, quick)
                    if r[0] != "unsat": break
            if r[0] != "unsat": return r
            last = r
        return last

    def _prove(self, pc, goal, ms, terms, quick=False):
        # first without the quantified hypotheses and sums, then with those about the goal's arrays, then with all
        goal = smt(goal)
        plain = [f for f in pc if not self.has_closure(f)]
        if len(plain) < len(pc):
            if not self.has_closure(goal):
                s, _ = self.base_solver(plain, 400, (), goal)
                if s.check() == z3.unsat: return "unsat", None, "z3"
            rel = set(self.arrays_of(goal))
            last = len(plain)
            for hop in range(4):
                sub = [f for f in pc if not self.has_closure(f) or not self.arrays_of(f) or self.arrays_of(f) & rel]
                if len(sub) == last and hop: break
                last = len(sub)
                if len(sub) == len(pc): break
                if hop in (0, 2):
                    s, fs = self.base_solver(sub, min(ms, 1200), terms, goal)
                    if hop == 0 and self.uf_unsat(fs): return "unsat", None, "z3-uf"
                    if s.check() == z3.unsat: return "unsat", None, "z3"
                for f in sub:
                    if self.has_closure(f): rel |= self.arrays_of(f)
            else: sub = pc
            if quick and len(sub) < len(pc): pc = sub
        s, forms = self.base_solver(pc, min(ms, 2500), terms, goal)
        if self.uf_unsat(forms): return "unsat", None, "z3-uf"
        r = s.check()
        if r == z3.unsat: return "unsat", None, "z3"
        first = r
        model = s.model() if r == z3.sat else None
        if r == z3.unknown or True:
            pl = product_lemmas(forms)
            if r == z3.unknown:
                s2 = z3.Solver(); s2.set("timeout", ms)
                for f in forms + pl: s2.add(f)
                r = s2.check()
                if r == z3.unsat: return "unsat", None, "z3+mono"
                if r == z3.sat: model = s2.model()
        if r == z3.unknown:
            r2 = self.nlsat(forms, ms)
            if r2 == "unsat": return "unsat", None, "z3-nlsat"
            if r2 is not None and r2 != "unknown" and not isinstance(r2, str): return "sat", r2, "z3-nlsat"
        if r == z3.unknown:
            # drop irrelevant hypotheses: keep those sharing symbols with the goal, arithmetic only
            r3 = self.cvc5(forms + pl, ms)
            if r3 == "unsat": return "unsat", None, "cvc5"
        if r == z3.sat: return "sat", model, "z3"
        return "unknown", None, "z3"

    def uf_unsat(self, forms):
        fs = ufize(forms)
        if all(a.eq(b) for a, b in zip(fs, forms)): return False
        s = z3.Solver(); s.set("timeout", 400)
        for f in fs: s.add(f)
        return s.check() == z3.unsat

    def nlsat(self, forms, ms):
        """real-closed-field attempt: purify arrays/functions into fresh reals"""
        try:
            m = {}
            def pur(e):
                i = e.get_id()
                if i in m: return m[i]
                if z3.is_app(e) and e.num_args() > 0 and (e.decl().kind() == z3.Z3_OP_UNINTERPRETED or z3.is_select(e)):
                    if z3.is_array(e): raise Bail("arr")
                    r = z3.Const(f"pur!{i}", e.sort())
                elif z3.is_app(e) and e.num_args() > 0:
                    ch = [pur(x) for x in e.children()]
                    r = e.decl()(*ch) if not (z3.is_and(e) or z3.is_or(e) or z3.is_add(e) or z3.is_mul(e) or z3.is_distinct(e)) else \
                        (z3.And(*ch) if z3.is_and(e) else z3.Or(*ch) if z3.is_or(e) else z3.Sum(ch) if z3.is_add(e) else z3.Product(ch) if z3.is_mul(e) else z3.Distinct(*ch))
                else: r = e
                m[i] = r
                return r
            fs = []
            for f in forms:
                try: fs.append(pur(f))
                except Bail: pass
            s = z3.Then("simplify", "purify-arith", "propagate-values", "solve-eqs", "elim-uncnstr", "qfnra-nlsat").solver()
            s.set("timeout", ms)
            for f in fs: s.add(f)
            r = s.check()
            if r == z3.unsat: return "unsat"
            return "unknown"
        except z3.Z3Exception:
            return "unknown"

    def cvc5(self, forms, ms):
        if not self.opts.get("cvc5", True): return "unknown"
        import subprocess, tempfile
        s = z3.Solver()
        for f in forms: s.add(f)
        txt = s.to_smt2()
        if "(_ as-array" in txt: return "unknown"
        if re.search(r"\(Array Int Int ", txt): return "unknown"
        try:
            p = subprocess.run(["cvc5", "--lang=smt2", f"--tlimit={ms}", "--nl-ext-tplanes"], input="(set-logic ALL)\n" + txt, capture_output=True, text=True, timeout=ms / 1000 + 5)
            o = p.stdout.strip().split("\n")[0]
            return o if o in ("sat", "unsat") else "unknown"
        except Exception:
            return "unknown"

    # ------------------------------------------------------------------ obligations
    def oblige(self, st, kind, name, goal):
        if self.pure: return
        if isinstance(goal, bool) and goal:
            if self.record:
                o = Obl(kind, name, [], True, self.curfn[-1] if self.curfn else "?", [])
                o.status = "unsat"; o.backend = "trivial"; self.obls.append(o)
            return
        if self.record:
            self.obls.append(Obl(kind, name, list(st.pc), goal, self.curfn[-1] if self.curfn else "?", list(st.terms), list(st.inputs), st.abstract))
        # an obligation is assumed once it has been emitted
        st.assume(goal)

    # ------------------------------------------------------------------ values
    def tk(self, ty):
        ty = self.mod.resolve(ty)
        if ty.k == "int": return ("i", ty.w)
        if ty.k in ("double", "float", "x86_fp80"): return ("d",)
        if ty.k == "ptr": return ("p",)
        raise Bail(f"scalar type {ty}")
    def sort_of(self, tk):
        if tk[0] == "i": return B if tk[1] == 1 else I
        if tk[0] == "d": return R
        raise Bail("sort of pointer")
    def fresh_val(self, name, tk):
        if tk[0] == "p": return UNDEF
        return fresh(name, self.sort_of(tk))

    def const(self, v, ty):
        k = v[0]
        if k == "int":
            t = self.mod.resolve(ty)
            if t.k == "int" and t.w == 1: return bool(v[1])
            return v[1]
        if k == "fp":
            x = v[1]
            if x != x or x in (float("inf"), float("-inf")):
                return z3.Const("fp_" + ("nan" if x != x else "inf" if x > 0 else "ninf"), R)
            return Fraction(x)
        if k == "null": return NULL
        if k == "undef": return UNDEF
        if k == "glob": return self.global_ptr(v[1])
        if k == "zero":
            t = self.mod.resolve(ty)
            if t.k == "int": return False if t.w == 1 else 0
            if t.k in ("double", "float"): return Fraction(0)
            if t.k == "ptr": return NULL
            if t.k in ("struct",): return [self.const(("zero",), e) for e in t.elems]
            if t.k in ("arr",): return [self.const(("zero",), t.elems[0]) for _ in range(t.n)]
            raise Bail("zero " + repr(t))
        if k == "agg": return [self.const(x, t) for t, x in v[1]]
        if k == "ce":
            if v[1] == "gep":
                base = self.const(v[3][0][1], PTR)
                return self.gep(None, v[2], base, [(t, self.const(x, t)) for t, x in v[3][1:]])
            if v[1] in ("bitcast", "addrspacecast", "inttoptr", "ptrtoint"):
                return self.const(v[2][1], v[2][0])
            raise Bail("constant expression " + v[1])
        if k == "str":
            return v
        raise Bail("const " + k)

    def global_ptr(self, name):
        g = self.mod.global_def(name)
        if name in self.mod.funcs or name in self.mod.decls: return FnPtr(name)
        if g is not None and g[0] == "alias":
            m = re.findall(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)', g[1])
            return self.global_ptr(unq(m[-1]))
        r = self.globreg.get(name)
        if r is None:
            r = Region("@" + name, "obj", lazy=True, size=None)
            self.globreg[name] = r
            r.origin = ("global", name)
        return Ptr(r)

    def global_init(self, r):
        """initial RS of a global"""
        rs = RS()
        name = r.origin[1]
        g = self.mod.global_def(name)
        if g is None or g[0] == "alias": return rs
        t, init, const = g
        if init is None: return rs
        if not const and init[0] == "zero": return rs     # run-time initialised object
        rt = self.mod.resolve(t)
        def put(off, ty, v):
            ty = self.mod.resolve(ty)
            if ty.k in ("int", "double", "float", "ptr", "x86_fp80"):
                try: rs.cells[off] = (self.mod.size(ty), self.const(v, ty))
                except Bail: pass
                return
            if v[0] == "zero":
                if ty.k == "struct":
                    for e, o in zip(ty.elems, self.mod.offsets(ty)): put(off + o, e, v)
                elif ty.k == "arr":
                    es = self.mod.size(ty.elems[0])
                    for i in range(ty.n): put(off + i * es, ty.elems[0], v)
                return
            if v[0] == "str":
                s = v[1]
                if s.startswith("c"): s = s[1:]
                s = s[1:-1]
                b = []; i = 0
                while i < len(s):
                    if s[i] == "\\": b.append(int(s[i+1:i+3], 16)); i += 3
                    else: b.append(ord(s[i])); i += 1
                for i, x in enumerate(b): rs.cells[off + i] = (1, x if x < 128 else x - 256)
                return
            if v[0] == "agg":
                if ty.k == "struct":
                    for (et, ev), o in zip(v[1], self.mod.offsets(ty)): put(off + o, et, ev)
                else:
                    es = self.mod.size(ty.elems[0])
                    for i, (et, ev) in enumerate(v[1]): put(off + i * es, et, ev)
                return
            if v[0] == "undef": return
            raise Bail("global init")
        put(0, t, init)
        return rs

    def cstr(self, p, st):
        if not isinstance(p, Ptr): return "?"
        rs = self.rs(st, p.r); s = ""; i = p.off.c
        while i in rs.cells and rs.cells[i][1] != 0:
            s += chr(rs.cells[i][1] & 255); i += 1
        return s

    def rs(self, st, r):
        x = st.mem.get(r.id)
        if x is None:
            x = self.global_init(r) if r.origin and r.origin[0] == "global" else RS()
            st.mem[r.id] = x
        return x

    # ------------------------------------------------------------------ memory
    def gep(self, st, bt, base, idx):
        if base is NULL or base is UNDEF:
            if all(not is_z3(v) and v == 0 for _, v in idx): return base
            if base is NULL: return Ptr(self.nullreg(), (), Lin(0)) if False else UNDEF
            return UNDEF
        if isinstance(base, FnPtr): raise Bail("gep on function")
        t = bt
        off = base.off
        first = True
        for ty, v in idx:
            v = self.intval(v)
            if first:
                off = off.add(lin_of(v, self.mod.size(t))); first = False; continue
            t = self.mod.resolve(t)
            if t.k == "struct":
                off = off.addc(self.mod.offsets(t)[v]); t = t.elems[v]
            elif t.k in ("arr", "vec"):
                es = self.mod.size(t.elems[0])
                if is_z3(v):
                    v2 = simp(v)
                    if not is_z3(v2): off = off.addc(v2 * es)
                    else:
                        off = off.add(lin_of(v2, es, (t.n, off.c)))
                else: off = off.addc(v * es)
                t = t.elems[0]
            else: raise Bail("gep into " + repr(t))
        return Ptr(base.r, base.keys, off)

    def intval(self, v):
        if isinstance(v, Parts): return self.parts_int(v)
        if isinstance(v, bool): return int(v)
        return v
    def parts_int(self, p):
        # value assumed to fit when the upper parts are zero
        if all(not is_z3(v) and v == 0 for b, v in p.ps[1:]): return p.ps[0][1] if is_z3(p.ps[0][1]) else p.ps[0][1] % (1 << p.ps[0][0])
        acc = 0; sh = 0
        for b, v in p.ps:
            v = self.u_nost(v, b)
            acc = iadd(acc, iscale(v, 1 << sh)); sh += b
        return acc
    def u_nost(self, v, w):
        if not is_z3(v): return v % (1 << w)
        if self.st_now is not None and self.nonneg(self.st_now, v): return v
        r = z3.If(v >= 0, v, v + (1 << w))
        self.canon[r.get_id()] = (v, w, r)
        return r

    def split_off(self, st, p, size, store=False):
        """resolve bounded symbolic terms: -> list of (cond, Ptr with only free terms)"""
        bt = [x for x in p.off.t if x[2] is not None]
        if p.r.kind == "arr":
            # terms whose coefficient is a multiple of the stride index elements
            bt = [x for x in bt if p.r.stride is not None and x[1] % p.r.stride != 0]
        if not bt: return [(True, p)]
        e, k, (n, start) = bt[0]
        rest = Lin(p.off.c, tuple(x for x in p.off.t if x is not bt[0]))
        out = []
        for i in range(n):
            for c, q in self.split_off(st, Ptr(p.r, p.keys, rest.addc(k * i)), size):
                out.append((band(smt(e) == i, c), q))
        return out

    def arr_index(self, p):
        """-> (index value, field offset)"""
        if p.r.stride is None:
            from math import gcd
            g = 0
            for e, k, b in p.off.t: g = gcd(g, abs(k))
            if g == 0 and p.r.nbytes is not None:
                t, c = lin(p.r.nbytes)
                for _, k in t.values(): g = gcd(g, abs(k))
                g = gcd(g, abs(c))
            p.r.stride = g if g in (4, 8) or g > 8 else 8
            if callable(p.r.length) is False and p.r.length is None and p.r.nbytes is not None:
                t, c = lin(p.r.nbytes)
                st_ = p.r.stride
                if all(k % st_ == 0 for _, k in t.values()) and c % st_ == 0:
                    p.r.length = unlin({i: (e, k // st_) for i, (e, k) in t.items()}, c // st_)
        return self.arr_index0(p.off, p.r.stride, p)
    def arr_index0(self, off, s, p):
        t = []; c = off.c
        for e, k, b in off.t:
            if k % s != 0: raise Bail(f"access at non-element offset {p} stride {s}")
            t.append((e, k // s))
        q, foff = divmod(c, s)
        return unlin({e.get_id(): (e, k) for e, k in t}, q), foff

    def bounds(self, st, p, idx, what):
        if not self.opts["bounds"] or self.pure: return
        L = p.r.length
        if L is None: return
        if callable(L): L = L(p.keys)
        self.oblige(st, "bounds", f"{what} of {p.r.name} stays inside its {'' if is_z3(L) else str(L)+' '}elements", band(simp(smt(idx) >= 0), simp(smt(idx) < smt(L))))

    def load(self, st, p, ty):
        if p is NULL:
            if self.pure: return self.fresh_val("nullload", self.tk(ty))
            self.oblige(st, "null", "no null dereference", False); raise Bail("null load")
        if not isinstance(p, Ptr): raise Bail(f"load through {p!r}")
        ty = self.mod.resolve(ty)
        if ty.k == "struct":
            return [self.load(st, p.plus(Lin(o)), e) for e, o in zip(ty.elems, self.mod.offsets(ty))]
        if ty.k == "arr":
            es = self.mod.size(ty.elems[0])
            return [self.load(st, p.plus(Lin(i * es)), ty.elems[0]) for i in range(ty.n)]
        tk = self.tk(ty); size = self.mod.size(ty)
        if p.r.kind == "arr":
            alts = self.split_off(st, p, size)
            if len(alts) > 1: self.alt_bounds(st, p)
            val = None
            vs = []
            for c, q in alts:
                idx, foff = self.arr_index(q)
                self.bounds(st, q, idx, "read")
                vs.append((c, self.arr_load(st, q.r, self.rs(st, q.r).arrs, q.keys + (idx,), foff, tk)))
            return self.merge(vs)
        # obj
        sy = [x for x in p.off.t]
        if not sy: return self.cell_load(st, p.r, p.off.c, size, tk)
        if len(sy) == 1 and sy[0][2] is not None:
            e, k, (n, start) = sy[0]
            self.alt_bounds(st, p)
            if n > 16 or any(lo <= p.off.c < hi for lo, hi, s, a in self.rs(st, p.r).emb):
                lo, rsa = self.emb(st, p.r, start, k, n)
                idx, foff = iadd(e, (p.off.c - lo) // k), (p.off.c - lo) % k
                return self.arr_load(st, p.r, rsa, (idx,), foff, tk, name=f"{p.r.name}.{lo}", embkey=(p.r, lo))
            vs = [(smt(e) == i, self.cell_load(st, p.r, p.off.c + i * k, size, tk)) for i in range(n)]
            return self.merge(vs)
        if all(x[2] is not None for x in sy):
            self.alt_bounds(st, p)
            return self.merge([(c, self.cell_load(st, q.r, q.off.c, size, tk)) for c, q in self.split_off(st, p, size)])
        # unbounded symbolic offset into an object
        emb = [x for x in self.rs(st, p.r).emb if x[0] <= p.off.c < x[1] or len(self.rs(st, p.r).emb) == 1]
        if emb:
            lo, hi, k, a = emb[0]
            idx, foff = self.arr_index0(p.off.addc(-lo), k, p)
            n = (hi - lo) // k
            if self.opts["bounds"] and not self.pure:
                self.oblige(st, "bounds", f"index into {p.r.name}.{lo} stays below {n}", band(smt(idx) >= 0, smt(idx) < n))
            return self.arr_load(st, p.r, a, (idx,), foff, tk, name=f"{p.r.name}.{lo}", embkey=(p.r, lo))
        if self.embed_whole(st, p): return self.load(st, p, ty)
        raise Bail(f"symbolic offset into object: {p}")

    def embed_whole(self, st, p):
        """heap object of known size indexed by an unbounded symbolic term: view it as an array"""
        from math import gcd
        if p.r.size is None or not p.off.t: return False
        g = 0
        for e, k, b in p.off.t: g = gcd(g, abs(k))
        if g == 0 or p.r.size % g or g < 4: return False
        rs = self.rs(st, p.r)
        if rs.emb: return False
        self.emb(st, p.r, 0, g, p.r.size // g)
        return True

    def alt_bounds(self, st, p):
        if not self.opts["bounds"] or self.pure: return
        for e, k, b in p.off.t:
            if b is not None:
                self.oblige(st, "bounds", f"index into fixed array of {b[0]} in {p.r.name}", band(simp(e >= 0), simp(e < b[0])))

    def merge(self, vs):
        if len(vs) == 1: return vs[0][1]
        val = vs[-1][1]
        for c, v in reversed(vs[:-1]):
            if isinstance(v, (Ptr, FnPtr, NullT, Undef, Parts, Raw)) or isinstance(val, (Ptr, FnPtr, NullT, Undef, Parts, Raw)):
                if self.same_val(v, val): continue
                if isinstance(v, Undef): continue
                if isinstance(val, Undef): val = v; continue
                raise Fork(vs)
            val = ite(c, v, val)
        return val

    def same_val(self, a, b):
        if a is b: return True
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return a.r is b.r and repr(a.off) == repr(b.off) and len(a.keys) == len(b.keys) and all(smt(x).eq(smt(y)) for x, y in zip(a.keys, b.keys))
        if isinstance(a, FnPtr) and isinstance(b, FnPtr): return a.name == b.name
        if isinstance(a, PSel) or isinstance(b, PSel): return False
        if isinstance(a, (Ptr, FnPtr, NullT, Undef)) or isinstance(b, (Ptr, FnPtr, NullT, Undef)): return False
        if isinstance(a, Parts) and isinstance(b, Parts):
            return len(a.ps) == len(b.ps) and all(x[0] == y[0] and self.same_val(x[1], y[1]) for x, y in zip(a.ps, b.ps))
        if isinstance(a, (Parts, Raw, PtrInt)) or isinstance(b, (Parts, Raw, PtrInt)): return False
        if is_z3(a) or is_z3(b): return smt(a).eq(smt(b))
        return a == b

    def arr_name(self, r, foff, tk): return f"{r.name}@{foff}{tk[0]}{tk[1] if len(tk) > 1 else ''}"
    def arr_new(self, name, nk, tk):
        return z3.Const(name, z3.ArraySort(*([I] * nk + [self.sort_of(tk)])))

    def arr_get(self, st, r, arrs, foff, tk, name=None, nk=None, embkey=None):
        a = arrs.get((foff, tk))
        if a is None:
            if r.frozen: raise Bail(f"field {foff} of {r.name} was not known when elements were copied")
            nk = nk if nk is not None else r.nkeys + 1
            nm = f"{name}@{foff}{tk[0]}" if name else self.arr_name(r, foff, tk)
            if not r.lazy: nm = nm + "#uninit"
            a = self.arr_new(nm, nk, tk)
            arrs[(foff, tk)] = a
        return a

    def arr_load(self, st, r, arrs, key, foff, tk, name=None, embkey=None):
        if tk[0] == "p":
            pf = r.ptrfields.get(foff)
            if pf is not None: return pf(self, st, key)
            pc = arrs.get((foff, tk))
            if pc is not None:
                if pc[0] == "const": return pc[1]
                if pc[0] == "list":
                    if is_z3(key[-1]):
                        vs = [(smt(key[-1]) == i, v) for i, v in sorted(pc[1].items())]
                        return self.merge(vs)
                    if key[-1] in pc[1]: return pc[1][key[-1]]
                    return UNDEF
            if not r.lazy: return UNDEF
            # lazily created family of objects
            fam = r.lazyptr.get(foff)
            if fam is None:
                fam = Region(f"{r.name}@{foff}p", "obj", nkeys=len(key), lazy=True); r.lazyptr[foff] = fam
                self.stats["lazy"].add(fam.name)
            return Ptr(fam, tuple(key))
        # width mismatch handling
        if (foff, tk) not in arrs and tk == ("i", 64) and (foff, ("i", 32)) in arrs:
            return Parts([(32, self.arr_load(st, r, arrs, key, foff, ("i", 32), name)), (32, self.arr_load(st, r, arrs, key, foff + 4, ("i", 32), name))])
        if (foff, tk) not in arrs and tk == ("i", 64) and (foff, ("d",)) in arrs:
            return Raw(self.arr_load(st, r, arrs, key, foff, ("d",), name))
        a = self.arr_get(st, r, arrs, foff, tk, name, len(key))
        return self.select(a, key)

    def select(self, a, key):
        key = [smt(k) for k in key]
        # resolve syntactically
        while z3.is_store(a):
            ks = a.children()[1:-1]
            same = all(x.eq(y) for x, y in zip(ks, key))
            if same: return back(a.children()[-1])
            diff = False
            for x, y in zip(ks, key):
                d = simp(x - y)
                if not is_z3(d) and d != 0: diff = True
                if not is_z3(d) and d == 0: pass
            if all((not is_z3(simp(x - y))) and simp(x - y) == 0 for x, y in zip(ks, key)): return back(a.children()[-1])
            if diff: a = a.arg(0); continue
            break
        return z3.Select(a, *key)

    def emb(self, st, r, start, stride, n, write=False):
        rs = self.rs(st, r)
        for lo, hi, s, a in rs.emb:
            if lo <= start < hi: return lo, a
        rs = rs.copy()
        arrs = {}
        hi = start + stride * n
        for o in sorted(rs.cells):
            if start <= o < hi:
                sz, v = rs.cells[o]
                tk = ("d",) if (is_z3(v) and z3.is_real(v)) or isinstance(v, Fraction) else ("p",) if isinstance(v, (Ptr, NullT, FnPtr)) else ("i", sz * 8)
                if tk[0] == "p":
                    lst = arrs.setdefault(((o - start) % stride, tk), ("list", {}))
                    lst[1][(o - start) // stride] = v
                    continue
                foff = (o - start) % stride
                key = (foff, tk)
                if key not in arrs:
                    nm = f"{r.name}.{start}@{foff}{tk[0]}"
                    arrs[key] = self.arr_new(nm, 1, tk)
                if isinstance(v, Undef): continue
                if isinstance(v, (Parts, Raw)): raise Bail("embedding composite cell")
                arrs[key] = z3.Store(arrs[key], z3.IntVal((o - start) // stride), smt(v))
        for o in list(rs.cells):
            if start <= o < hi: del rs.cells[o]
        rs.emb = rs.emb + ((start, hi, stride, arrs),)
        st.mem[r.id] = rs
        return start, arrs

    def lazy_cell(self, st, r, off, size, tk):
        """initial symbolic content of an object"""
        k = (off, tk)
        if tk[0] == "p":
            x = r.lazyptr.get(off)
            if x is None:
                reg = Region(f"{r.name}.{off}->", "obj", lazy=True, nkeys=r.nkeys)
                x = Ptr(reg); r.lazyptr[off] = x
                self.stats["lazy"].add(reg.name)
            return x
        v = r.lazyval.get(k)
        if v is None:
            v = z3.Const(f"{r.name}.{off}:{tk[0]}{tk[1] if len(tk)>1 else ''}", self.sort_of(tk)); r.lazyval[k] = v
        return v

    def cell_load(self, st, r, off, size, tk):
        if r.nkeys: raise Bail(f"keyed object {r.name}")
        rs = self.rs(st, r)
        if r.kind == "obj" and r.size is not None and not self.pure and self.opts["bounds"]:
            if off < 0 or off + size > r.size:
                self.oblige(st, "bounds", f"access at byte {off} stays inside {r.name}", False)
                raise Bail(f"out of bounds object access {r.name}+{off}")
        for lo, hi, s, a in rs.emb:
            if lo <= off < hi:
                return self.arr_load(st, r, a, ((off - lo) // s,), (off - lo) % s, tk, name=f"{r.name}.{lo}")
        c = rs.cells.get(off)
        if c is not None and c[0] == size:
            v = c[1]
            if isinstance(v, Undef):
                if tk[0] == "p": return UNDEF
                return self.undef_val(tk)
            return self.coerce(v, tk, size)
        if c is not None and c[0] > size:
            v = c[1]
            if isinstance(v, Parts):
                bits = 0
                for b, x in v.ps:
                    if bits == 0 and b == size * 8: return self.coerce(x, tk, size)
                    bits += b
            if not is_z3(v) and isinstance(v, int):
                m = v % (1 << (8 * size))
                return self.sx(m, size * 8)
            if is_z3(v) and z3.is_int(v) and tk[0] == "i":
                return self.wrap_mod(v, size * 8)
            raise Bail(f"narrow read {r.name}+{off}")
        # pieces inside
        pieces = sorted(o for o in rs.cells if off <= o < off + size)
        if pieces and tk[0] == "i":
            ps = []; o = off
            while o < off + size:
                if o in rs.cells:
                    sz, v = rs.cells[o]
                    if o + sz > off + size: raise Bail("overlapping read")
                    ps.append((sz * 8, v)); o += sz
                else:
                    nx = min([q for q in rs.cells if q > o and q < off + size] or [off + size])
                    ps.append(((nx - o) * 8, fresh("pad", I))); o = nx
            return Parts(ps)
        # containing cell
        for o, (sz, v) in rs.cells.items():
            if o < off and o + sz >= off + size:
                if isinstance(v, Parts):
                    b0 = (off - o) * 8; bits = 0
                    for b, x in v.ps:
                        if bits == b0 and b == size * 8: return self.coerce(x, tk, size)
                        bits += b
                if not is_z3(v) and isinstance(v, int):
                    return self.sx((v >> ((off - o) * 8)) % (1 << (8 * size)), size * 8)
                raise Bail(f"read inside cell {r.name}+{off}")
        for lo, hi, sr, soff in rs.alias:
            if lo <= off and off + size <= hi:
                v = self.lazy_cell(st, sr, off - lo + soff, size, tk)
                return v
        if r.lazy:
            v = self.lazy_cell(st, r, off, size, tk)
            return v
        if tk[0] == "p": return UNDEF
        return self.undef_val(tk)

    def undef_val(self, tk):
        if tk[0] == "p": return UNDEF
        return fresh("undef", self.sort_of(tk))

    def coerce(self, v, tk, size):
        if tk[0] == "i":
            if isinstance(v, (Ptr, NullT, FnPtr)): return PtrInt(v)
            if isinstance(v, Fraction) or (is_z3(v) and z3.is_real(v)): return Raw(v)
            if tk[1] == 1 and not isinstance(v, bool) and not (is_z3(v) and z3.is_bool(v)):
                return (v != 0) if not is_z3(v) else v != 0
            if tk[1] != 1 and (isinstance(v, bool) or (is_z3(v) and z3.is_bool(v))): return ite(v, 1, 0)
            return v
        if tk[0] == "d":
            if isinstance(v, Raw): return v.v
            if isinstance(v, int) and v == 0: return Fraction(0)
            if isinstance(v, (int,)) or (is_z3(v) and z3.is_int(v)): raise Bail("int bits as double")
            if isinstance(v, Parts): raise Bail("parts as double")
            return v
        if tk[0] == "p":
            if isinstance(v, PtrInt): return v.p
            if isinstance(v, int) and v == 0: return NULL
            return v
        return v

    def store(self, st, p, v, ty):
        if p is NULL:
            self.oblige(st, "null", "no null dereference", False); raise Bail("null store")
        if not isinstance(p, Ptr): raise Bail(f"store through {p!r}")
        ty = self.mod.resolve(ty)
        if ty.k == "struct":
            if isinstance(v, Undef): v = [UNDEF] * len(ty.elems)
            for e, o, x in zip(ty.elems, self.mod.offsets(ty), v): self.store(st, p.plus(Lin(o)), x, e)
            return
        if ty.k == "arr":
            es = self.mod.size(ty.elems[0])
            if isinstance(v, Undef): v = [UNDEF] * ty.n
            for i, x in enumerate(v): self.store(st, p.plus(Lin(i * es)), x, ty.elems[0])
            return
        tk = self.tk(ty); size = self.mod.size(ty)
        self.store_tk(st, p, v, tk, size)

    def store_tk(self, st, p, v, tk, size):
        if isinstance(v, Raw): v = v.v; tk = ("d",)
        if isinstance(v, PtrInt): v = v.p; tk = ("p",)
        if p.r.readonly: raise Bail("write to read-only region " + p.r.name)
        if isinstance(v, Parts) and (p.r.kind == "arr"):
            o = 0
            for b, x in v.ps:
                self.store_tk(st, p.plus(Lin(o)), x, ("i", b), b // 8); o += b // 8
            return
        if p.r.kind == "arr":
            alts = self.split_off(st, p, size)
            if len(alts) > 1: self.alt_bounds(st, p)
            for c, q in alts:
                idx, foff = self.arr_index(q)
                if len(alts) == 1: self.bounds(st, q, idx, "write")
                rs = self.rs(st, q.r).copy(); st.mem[q.r.id] = rs
                self.arr_store(st, q.r, rs.arrs, q.keys + (idx,), foff, tk, v, c)
                st.wlog.add((q.r.id, "a", foff, tk))
            return
        sy = p.off.t
        if not sy:
            self.cell_store(st, p.r, p.off.c, size, v, tk); return
        if len(sy) == 1 and sy[0][2] is not None:
            e, k, (n, start) = sy[0]
            self.alt_bounds(st, p)
            rs = self.rs(st, p.r)
            if n > 16 or any(lo <= p.off.c < hi for lo, hi, s, a in rs.emb):
                lo, arrs = self.emb(st, p.r, start, k, n)
                rs = self.rs(st, p.r).copy()
                arrs = dict(arrs)
                idx, foff = iadd(e, (p.off.c - lo) // k), (p.off.c - lo) % k
                self.arr_store(st, p.r, arrs, (idx,), foff, tk, v, True, name=f"{p.r.name}.{lo}")
                rs.emb = tuple((l, h, s, arrs if l == lo else a) for l, h, s, a in rs.emb)
                st.mem[p.r.id] = rs
                st.wlog.add((p.r.id, "e", lo, foff, tk))
                return
            for i in range(n):
                o = p.off.c + i * k
                old = self.cell_load(st, p.r, o, size, tk)
                self.cell_store(st, p.r, o, size, self.merge([(smt(e) == i, v), (True, old)]), tk)
            return
        if all(x[2] is not None for x in sy):
            self.alt_bounds(st, p)
            for c, q in self.split_off(st, p, size):
                old = self.cell_load(st, q.r, q.off.c, size, tk)
                self.cell_store(st, q.r, q.off.c, size, self.merge([(c, v), (True, old)]), tk)
            return
        emb = [x for x in self.rs(st, p.r).emb if x[0] <= p.off.c < x[1] or len(self.rs(st, p.r).emb) == 1]
        if emb:
            lo, hi, k, a = emb[0]
            idx, foff = self.arr_index0(p.off.addc(-lo), k, p)
            n = (hi - lo) // k
            if self.opts["bounds"] and not self.pure:
                self.oblige(st, "bounds", f"index into {p.r.name}.{lo} stays below {n}", band(smt(idx) >= 0, smt(idx) < n))
            arrs = dict(a); rs = self.rs(st, p.r).copy()
            self.arr_store(st, p.r, arrs, (idx,), foff, tk, v, True, name=f"{p.r.name}.{lo}")
            rs.emb = tuple((l, h, s, arrs if l == lo else aa) for l, h, s, aa in rs.emb)
            st.mem[p.r.id] = rs
            st.wlog.add((p.r.id, "e", lo, foff, tk))
            return
        if self.embed_whole(st, p): return self.store_tk(st, p, v, tk, size)
        raise Bail(f"symbolic store into object {p}")

    def arr_store(self, st, r, arrs, key, foff, tk, v, cond, name=None):
        if isinstance(v, Undef): v = self.undef_val(tk)
        if tk[0] == "p" or isinstance(v, (Ptr, NullT, FnPtr)):
            cur = arrs.get((foff, ("p",)))
            if is_z3(key[-1]) or len(key) > 1:
                # the same pointer (a vtable) in every element that is ever written
                if cond is True and not r.lazy and isinstance(v, (Ptr, FnPtr)) and (cur is None or (cur[0] == "const" and self.same_val(cur[1], v)) or (cur[0] == "list" and all(self.same_val(x, v) for x in cur[1].values()))):
                    arrs[(foff, ("p",))] = ("const", v); return
                raise Bail(f"pointer stored at symbolic index of {r.name}")
            if cur and cur[0] == "const":
                if self.same_val(cur[1], v): return
                raise Bail(f"different pointers stored in {r.name}")
            d = dict(cur[1]) if cur and cur[0] == "list" else {}
            d[key[-1]] = v
            arrs[(foff, ("p",))] = ("list", d)
            return
        if tk == ("i", 64) and (foff, tk) not in arrs and (foff, ("i", 32)) in arrs:
            raise Bail("mixed width store")
        a = self.arr_get(st, r, arrs, foff, tk, name, len(key))
        if isinstance(v, bool): v = int(v)
        v = smt(v)
        if z3.is_bool(v): v = z3.If(v, 1, 0)
        if a.range() == R and z3.is_int(v): v = z3.ToReal(v)
        if cond is not True: v = z3.If(cond, v, self.smtselect(a, key))
        arrs[(foff, tk)] = self.astore(a, [smt(k) for k in key], v)
    def smtselect(self, a, key): return smt(self.select(a, key))
    def astore(self, a, key, v):
        # collapse repeated store to the syntactically same index
        if z3.is_store(a) and all(x.eq(y) for x, y in zip(a.children()[1:-1], key)): a = a.arg(0)
        return z3.Store(a, *(key + [v]))

    def cell_store(self, st, r, off, size, v, tk):
        if r.nkeys: raise Bail(f"store to keyed object {r.name}")
        if r.size is not None and (off < 0 or off + size > r.size):
            if self.opts["bounds"]: self.oblige(st, "bounds", f"write at byte {off} stays inside {r.name}", False)
            raise Bail(f"out of bounds object write {r.name}+{off}")
        rs = self.rs(st, r).copy(); st.mem[r.id] = rs
        for lo, hi, s, a in rs.emb:
            if lo <= off < hi:
                arrs = dict(a)
                self.arr_store(st, r, arrs, ((off - lo) // s,), (off - lo) % s, tk, v, True, name=f"{r.name}.{lo}")
                rs.emb = tuple((l, h, ss, arrs if l == lo else aa) for l, h, ss, aa in rs.emb)
                st.wlog.add((r.id, "e", lo, (off - lo) % s, tk))
                return
        for o in [o for o in rs.cells if o < off + size and o + rs.cells[o][0] > off and not (o == off and rs.cells[o][0] == size)]:
            sz, ov = rs.cells.pop(o)
            if o >= off and o + sz <= off + size: continue
            # partially overwritten: keep the pieces
            ps = ov.ps if isinstance(ov, Parts) else None
            if ps is None and isinstance(ov, int):
                if o < off: rs.cells[o] = (off - o, self.sx(ov % (1 << (8 * (off - o))), 8 * (off - o)))
                e = off + size
                if o + sz > e: rs.cells[e] = (o + sz - e, self.sx((ov >> (8 * (e - o))) % (1 << (8 * (o + sz - e))), 8 * (o + sz - e)))
                continue
            if ps is None: raise Bail(f"partial overwrite in {r.name}+{off}")
            oo = o
            for b, x in ps:
                if oo + b // 8 <= off or oo >= off + size: rs.cells[oo] = (b // 8, x)
                elif oo >= off and oo + b // 8 <= off + size: pass
                else: raise Bail("partial overwrite of part")
                oo += b // 8
        if isinstance(v, Parts):
            o = off
            for b, x in v.ps:
                rs.cells[o] = (b // 8, x); st.wlog.add((r.id, "c", o)); o += b // 8
            return
        rs.cells[off] = (size, v)
        st.wlog.add((r.id, "c", off))

    def memcpy(self, st, d, s, n, move=False):
        if not is_z3(n) and n == 0: return
        if is_z3(n):
            n2 = simp(n)
            if not is_z3(n2): n = n2
        if d is NULL or s is NULL: 
            self.oblige(st, "null", "no null memcpy", smt(n) == 0); return
        if not isinstance(d, Ptr) or not isinstance(s, Ptr): raise Bail("memcpy through unknown pointer")
        if d.r.kind == "obj" and s.r.kind == "obj" and not is_z3(n) and d.off.is_const() and s.off.is_const():
            src = self.rs(st, s.r); so, do = s.off.c, d.off.c
            cells = {o: c for o, c in src.cells.items() if so <= o and o + c[0] <= so + n}
            rs = self.rs(st, d.r).copy(); st.mem[d.r.id] = rs
            for o in [o for o in rs.cells if o < do + n and o + rs.cells[o][0] > do]:
                if o < do or o + rs.cells[o][0] > do + n: raise Bail("memcpy partial overwrite")
                del rs.cells[o]
            rs.emb = tuple(e for e in rs.emb if e[1] <= do or e[0] >= do + n)
            # lazily symbolic parts
            al = []
            if s.r.lazy and not (s.r.origin and s.r.origin[0] == "global"): al.append((do, do + n, s.r, so))
            for lo, hi, sr, sf in src.alias:
                a, b = max(lo, so), min(hi, so + n)
                if a < b: al.append((a - so + do, b - so + do, sr, sf + a - lo))
            rs.alias = tuple(al) + tuple(x for x in rs.alias)
            for o, c in cells.items():
                rs.cells[o - so + do] = c
            for e in src.emb:
                if so <= e[0] and e[1] <= so + n: rs.emb = rs.emb + ((e[0] - so + do, e[1] - so + do, e[2], dict(e[3])),)
            for o in range(do, do + n, 4): st.wlog.add((d.r.id, "c", o))
            return
        if d.r.kind == "arr" or s.r.kind == "arr":
            return self.arr_copy(st, d, s, n)
        raise Bail(f"memcpy {d} <- {s} of {n}")

    def arr_copy(self, st, d, s, n):
        """element-wise copy involving array regions"""
        if s.r.kind == "arr" and d.r.kind == "obj" and not is_z3(n) and n <= 256:
            idx, foff = self.arr_index(s)
            stride = s.r.stride
            if not d.off.is_const(): raise Bail("copy of an array element to an unknown place")
            rs = self.rs(st, d.r).copy(); st.mem[d.r.id] = rs; do = d.off.c
            for o in [o for o in rs.cells if o < do + n and o + rs.cells[o][0] > do]:
                if o < do or o + rs.cells[o][0] > do + n: raise Bail("memcpy partial overwrite")
                del rs.cells[o]
            keys = set(self.rs(st, s.r).arrs.keys())
            if s.r.elem: keys.add((0, s.r.elem))
            done = 0
            for q in range((foff + n + stride - 1) // stride):
                for (fo, tk) in sorted(keys, key=str):
                    sz = 8 if tk[0] in "dp" else tk[1] // 8
                    at = q * stride + fo - foff
                    if 0 <= at and at + sz <= n:
                        v = self.arr_load(st, s.r, self.rs(st, s.r).arrs, s.keys + (iadd(idx, q),), fo, tk)
                        self.store_tk(st, d.plus(Lin(at)), v, tk, sz); done += sz
            # fields of the source that were never looked at are unknown in the copy
            if d.r.lazy and done < n: raise Bail("copy of an element not fully known")
            return
        if s.r.kind == "obj" and d.r.kind == "arr" and not is_z3(n) and s.off.is_const():
            src = self.rs(st, s.r)
            so = s.off.c
            got = False
            for o in sorted(src.cells):
                sz, v = src.cells[o]
                if so <= o and o + sz <= so + n:
                    tk = ("p",) if isinstance(v, (Ptr, NullT, FnPtr)) else ("d",) if isinstance(v, Fraction) or (is_z3(v) and z3.is_real(v)) else ("i", sz * 8)
                    self.store_tk(st, d.plus(Lin(o - so)), v, tk, sz); got = True
            if s.r.lazy or src.alias:
                raise Bail(f"copy of lazily known object into array {d}")
            return
        if s.r.kind == "arr" and d.r.kind == "arr":
            if s.r.stride is None and d.r.stride is not None: s.r.stride = d.r.stride
            if d.r.stride is None and s.r.stride is not None: d.r.stride = s.r.stride
            si, sf = self.arr_index(s); di, df = self.arr_index(d)
            stride = s.r.stride
            if d.r.stride != stride: raise Bail("array copy with different strides")
            if sf or df: raise Bail("array copy at field offset")
            t, c = lin(n) if is_z3(n) else ({}, n)
            part = None
            if not t and c < stride: part, c = c, stride     # the leading fields of one element
            if not all(k % stride == 0 for _, k in t.values()) or c % stride: raise Bail(f"array copy of {n} bytes")
            cnt = unlin({i: (e, k // stride) for i, (e, k) in t.items()}, c // stride)
            if self.opts["bounds"] and not self.pure:
                for p, i in ((s, si), (d, di)):
                    L = p.r.length
                    if callable(L): L = L(p.keys)
                    if L is not None:
                        self.oblige(st, "bounds", f"block copy stays inside {p.r.name}", bor(simp(smt(cnt) <= 0), band(smt(i) >= 0, smt(iadd(i, cnt)) <= smt(L))))
            src = self.rs(st, s.r); rs = self.rs(st, d.r).copy(); st.mem[d.r.id] = rs
            keys = set(src.arrs) | set(rs.arrs)
            if s.r.elem: keys.add((0, s.r.elem))
            elif s.r.lazy or d.r.lazy:
                # fields not looked at so far would keep their old value: looking at them later is an error
                for key in keys: self.arr_get(st, s.r, src.arrs, *key) if key[1][0] != "p" else None
                d.r.frozen = True
            for key in keys:
                if part is not None:
                    w = 8 if key[1][0] in "dp" else key[1][1] // 8
                    if key[0] >= part: continue
                    if key[0] + w > part: raise Bail("array copy of part of a field")
                if key[1][0] == "p":
                    sv, dv = src.arrs.get(key), rs.arrs.get(key)
                    if sv and sv[0] == "const" and (dv is None or dv[0] == "const" and self.same_val(sv[1], dv[1])):
                        rs.arrs[key] = sv; continue
                    if s.r.ptrfields.get(key[0]) or src.arrs.get(key): raise Bail("array copy of pointers")
                    continue
                sa = self.arr_get(st, s.r, src.arrs, key[0], key[1])
                da = self.arr_get(st, d.r, rs.arrs, key[0], key[1])
                nk = d.r.nkeys
                if not is_z3(cnt) and cnt <= 8:
                    na = da
                    for q in range(cnt):
                        na = self.astore(na, [smt(x) for x in d.keys] + [smt(iadd(di, q))], self.smtselect(sa, s.keys + (iadd(si, q),)))
                    rs.arrs[key] = na
                else:
                    na = self.arr_new(f"{d.r.name}@{key[0]}cp!{fresh_id()}", nk + 1, key[1])
                    self.copy_facts(st, na, da, sa, d.keys, s.keys, di, si, cnt)
                    rs.arrs[key] = na
                st.wlog.add((d.r.id, "a", key[0], key[1]))
            return
        raise Bail(f"memcpy {d} <- {s} of {n}")

    BIG = 1 << 62
    def copy_facts(self, st, na, da, sa, dk, sk, di, si, cnt):
        dks = [smt(x) for x in dk]; sks = [smt(x) for x in sk]
        st.assume(mk_all(0, cnt, lambda j: z3.Select(na, *(dks + [smt(iadd(di, j))])) == z3.Select(sa, *(sks + [smt(iadd(si, j))]))))
        st.assume(mk_all(-self.BIG, self.BIG, lambda m: z3.Implies(z3.Or(m < smt(di), m >= smt(iadd(di, cnt))), z3.Select(na, *(dks + [m])) == z3.Select(da, *(dks + [m])))))
        if dk:
            if len(dk) == 1:
                st.assume(mk_all(-self.BIG, self.BIG, lambda q: mk_all(-self.BIG, self.BIG, lambda m: z3.Implies(q != dks[0], z3.Select(na, q, m) == z3.Select(da, q, m)))))
            else: raise Bail("deep keyed copy")

    def pending_alias(self, st, d, s, idx, foff, n): pass

    def memset(self, st, d, v, n):
        if not is_z3(n) and n == 0: return
        if not isinstance(d, Ptr): raise Bail("memset")
        if is_z3(v): v = simp(v)
        if d.r.kind == "obj" and not is_z3(n) and d.off.is_const():
            if v != 0:
                if n > 4096: raise Bail("memset nonzero")
            rs = self.rs(st, d.r).copy(); st.mem[d.r.id] = rs
            do = d.off.c
            for o in [o for o in rs.cells if o < do + n and o + rs.cells[o][0] > do]: del rs.cells[o]
            o = do
            while o < do + n:
                sz = 8 if o + 8 <= do + n and o % 8 == 0 else 4 if o + 4 <= do + n and o % 4 == 0 else 1
                val = 0
                if v != 0:
                    val = self.sx(int.from_bytes(bytes([v & 255]) * sz, "little"), sz * 8)
                rs.cells[o] = (sz, val); st.wlog.add((d.r.id, "c", o)); o += sz
            return
        if d.r.kind == "arr" and v == 0:
            idx, foff = self.arr_index(d)
            stride = d.r.stride
            t, c = lin(n) if is_z3(n) else ({}, n)
            if foff or not all(k % stride == 0 for _, k in t.values()) or c % stride: raise Bail("memset size")
            cnt = unlin({i: (e, k // stride) for i, (e, k) in t.items()}, c // stride)
            if self.opts["bounds"] and not self.pure and d.r.length is not None:
                L = d.r.length(d.keys) if callable(d.r.length) else d.r.length
                self.oblige(st, "bounds", f"block fill stays inside {d.r.name}", bor(simp(smt(cnt) <= 0), band(smt(idx) >= 0, smt(iadd(idx, cnt)) <= smt(L))))
            self.fill_arr(st, d, idx, cnt, None, None)
            return
        raise Bail(f"memset {d} {v} {n}")

    def fill_arr(self, st, d, idx, cnt, val, tk):
        """elements idx .. idx+cnt-1 of an array region become val (zero of any reading if tk is None)"""
        stride = d.r.stride
        rs = self.rs(st, d.r).copy(); st.mem[d.r.id] = rs
        if tk is not None: keys = [(0, tk)]
        elif not rs.arrs:
            # element type not known yet: remember as zero for both readings
            keys = [(0, ("d",)), (0, ("i", stride * 8))] if stride in (4, 8) else None
            if keys is None: raise Bail("memset of untyped struct array")
            if stride == 4: keys = [(0, ("i", 32))]
        else: keys = list(rs.arrs)
        dks = [smt(x) for x in d.keys]
        L = d.r.length
        whole = not dks and not callable(L) and L is not None and not is_z3(idx) and idx == 0 and isub(cnt, L) == 0
        for key in keys:
            if key[1][0] == "p": continue
            v = smt(val) if val is not None else z3.RealVal(0) if key[1][0] == "d" else z3.IntVal(0)
            st.wlog.add((d.r.id, "a", key[0], key[1]))
            if whole:
                rs.arrs[key] = z3.K(I, v); continue
            da = self.arr_get(st, d.r, rs.arrs, key[0], key[1])
            na = self.arr_new(f"{d.r.name}@{key[0]}{key[1][0]}z!{fresh_id()}", d.r.nkeys + 1, key[1])
            st.assume(mk_all(0, cnt, lambda j: z3.Select(na, *(dks + [smt(iadd(idx, j))])) == v))
            st.assume(mk_all(-self.BIG, self.BIG, lambda m: z3.Implies(z3.Or(m < smt(idx), m >= smt(iadd(idx, cnt))), z3.Select(na, *(dks + [m])) == z3.Select(da, *(dks + [m])))))
            if len(dks) == 1:
                st.assume(mk_all(-self.BIG, self.BIG, lambda q: mk_all(-self.BIG, self.BIG, lambda m: z3.Implies(q != dks[0], z3.Select(na, q, m) == z3.Select(da, q, m)))))
            elif len(dks) > 1: raise Bail("deep keyed memset")
            rs.arrs[key] = na

    # ------------------------------------------------------------------ integer semantics
    def sx(self, v, w):
        """unsigned residue -> signed canonical"""
        return v - (1 << w) if v >= (1 << (w - 1)) else v
    def wrap_mod(self, v, w):
        if not is_z3(v): return self.sx(v % (1 << w), w)
        m = v % (1 << w)
        r = z3.If(m >= (1 << (w - 1)), m - (1 << w), m)
        self.wrapped[r.get_id()] = (v, 1 << w, r)
        return r
    def mod_nf(self, e, M):
        """e modulo M with everything already reduced modulo a multiple of M replaced by what it stands for"""
        for _ in range(12):
            if not is_z3(e): return e % M
            t, c = lin(e); acc = c; hit = False
            for m, k in t.values():
                prod = 1
                for f in factors(m):
                    wv = self.wrapped.get(f.get_id())
                    if wv and wv[1] % M == 0: f = wv[0]; hit = True
                    elif z3.is_app(f) and f.decl().kind() == z3.Z3_OP_MOD and z3.is_int_value(f.arg(1)) and f.arg(1).as_long() % M == 0:
                        f = f.arg(0); hit = True
                    elif z3.is_int_value(f): f = f.as_long()
                    elif z3.is_app(f) and f.decl().kind() == z3.Z3_OP_ITE:
                        d = isub(f.arg(1), f.arg(2))
                        if not is_z3(d) and d % M == 0: f = f.arg(2); hit = True
                    prod = imul(prod, f)
                acc = iadd(acc, iscale(prod, k) if is_z3(prod) else prod * k)
            e = acc
            if not hit: break
        if not is_z3(e): return e % M
        t, c = lin(e)
        e = unlin({i: (x, k % M) for i, (x, k) in t.items() if k % M}, c % M)
        if not is_z3(e): return e % M
        return smt(e) % M
    def u(self, st, v, w):
        """unsigned reading of a canonical value"""
        v = self.intval(v)
        if not is_z3(v): return v % (1 << w)
        if self.nonneg(st, v): return v
        r = z3.If(v >= 0, v, v + (1 << w))
        self.wrapped[r.get_id()] = (v, 1 << w, r)
        self.canon[r.get_id()] = (v, w, r)
        return r
    def signed(self, v, w):
        """the canonical value an unsigned reading was taken of"""
        c = self.canon.get(v.get_id()) if is_z3(v) else None
        return c[0] if c is not None and c[1] == w else v
    def nonneg(self, st, v):
        if not is_z3(v): return v >= 0
        if self.lower(st, v) >= 0: return True
        return self.must(st, v >= 0)

    NEG = -(1 << 200)
    def bounds_of(self, pc):
        """literal lower/upper bounds of terms found in the path condition"""
        key = (len(pc), pc[-1].get_id() if pc else 0, pc[0].get_id() if pc else 0)
        c = getattr(self, "_bc", None)
        if c and c[0] == key and all(a is b for a, b in zip(c[2], pc)): return c[1]
        lo = {}
        def put(e, b):
            e_ = e.get_id()
            if b > lo.get(e_, self.NEG): lo[e_] = b
        def ge(a, b, strict):    # a >= b
            if z3.is_int_value(b): put(a, b.as_long() + strict)
            elif b.get_id() in lo: put(a, lo[b.get_id()] + strict)
        for rnd in range(2):
            for f in pc:
                neg = False
                if z3.is_not(f): f = f.arg(0); neg = True
                if not z3.is_app(f) or f.num_args() != 2 or not z3.is_int(f.arg(0)): continue
                a, b = f.arg(0), f.arg(1)
                k = f.decl().kind()
                if neg:
                    k = {z3.Z3_OP_LE: z3.Z3_OP_GT, z3.Z3_OP_LT: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LT, z3.Z3_OP_GT: z3.Z3_OP_LE}.get(k)
                if k == z3.Z3_OP_GE: ge(a, b, 0)
                elif k == z3.Z3_OP_GT: ge(a, b, 1)
                elif k == z3.Z3_OP_LE: ge(b, a, 0)
                elif k == z3.Z3_OP_LT: ge(b, a, 1)
                elif k == z3.Z3_OP_EQ: ge(a, b, 0); ge(b, a, 0)
        self._bc = (key, lo, list(pc))
        return lo
    def lower(self, st, e, depth=0):
        """a syntactic lower bound"""
        if not is_z3(e): return e
        if z3.is_int_value(e): return e.as_long()
        lo = self.bounds_of(st.pc)
        best = lo.get(e.get_id(), self.NEG)
        if depth > 8: return best
        if z3.is_add(e):
            s = 0
            for x in e.children():
                b = self.lower(st, x, depth + 1)
                if b <= self.NEG: s = self.NEG; break
                s += b
            return max(best, s)
        if z3.is_mul(e):
            ch = e.children()
            if z3.is_int_value(ch[0]) and ch[0].as_long() < 0: return best
            bs = [self.lower(st, x, depth + 1) for x in ch]
            if all(b >= 0 for b in bs):
                p = 1
                for b in bs: p *= b
                return max(best, p)
            return best
        if z3.is_app(e) and e.num_args() == 2 and e.decl().name() in ("idiv", "imod"):
            if self.lower(st, e.arg(0), depth + 1) >= 0 and self.lower(st, e.arg(1), depth + 1) >= 1: return max(best, 0)
            return best
        k = e.decl().kind() if z3.is_app(e) else None
        if k == z3.Z3_OP_IDIV and z3.is_int_value(e.arg(1)) and e.arg(1).as_long() > 0:
            b = self.lower(st, e.arg(0), depth + 1)
            return max(best, b // e.arg(1).as_long()) if b > self.NEG else best
        if k == z3.Z3_OP_MOD: return max(best, 0)
        if k == z3.Z3_OP_ITE: return max(best, min(self.lower(st, e.arg(1), depth + 1), self.lower(st, e.arg(2), depth + 1)))
        return best

    def isqd(self, st, a, b, w, signed, rem):
        """division / remainder"""
        a, b = self.intval(a), self.intval(b)
        if not signed:
            a, b = self.u(st, a, w), self.u(st, b, w)
        if not is_z3(a) and not is_z3(b):
            if b == 0:
                self.oblige(st, "div0", "division by zero", False); raise Bail("division by zero")
            q = abs(a) // abs(b) * (1 if (a >= 0) == (b > 0) else -1)
            return a - q * b if rem else q
        if is_z3(b): 
            if not self.pure and not self.must(st, b != 0): self.oblige(st, "div0", "integer divisor is not zero", b != 0)
        def pos(x, y):
            if not is_z3(y):
                t, c = lin(x) if is_z3(x) else ({}, x)
                if all(k % y == 0 for _, k in t.values()):
                    # x = y*q + c
                    return c % y if rem else iadd(unlin({i: (e, k // y) for i, (e, k) in t.items()}, 0), c // y)
                return (smt(x) % y) if rem else (smt(x) / y)
            if not is_z3(x) and x == 0: return 0
            # x = y*q + r with r syntactically free of y: use it when 0 <= r < y
            if is_z3(x):
                t, c = lin(x)
                fy = factors(y)
                qs, rs = {}, {}
                for i, (e, k) in t.items():
                    f = divide(e, fy)
                    if f is None: rs[i] = (e, k)
                    else:
                        if not is_z3(f): c_q = k * f; qs.setdefault("c", [0])[0] += c_q
                        else: qs[f.get_id()] = (f, k + (qs[f.get_id()][1] if f.get_id() in qs else 0))
                if qs:
                    qc = qs.pop("c", [0])[0]
                    r_ = unlin(rs, c); q_ = unlin(qs, qc)
                    if (self.nonneg(st, r_)) and self.must(st, smt(r_) < y): return r_ if rem else q_
            return MOD(smt(x), y) if rem else DIV(smt(x), y)
        if self.nonneg(st, a) and (self.nonneg(st, b) if is_z3(b) else b > 0): return pos(a, b)
        if not is_z3(b) and b > 0:
            an = ineg(a)
            if not rem: return z3.If(smt(a) >= 0, smt(pos(a, b)), -smt(pos(an, b)))
            return z3.If(smt(a) >= 0, smt(pos(a, b)), -smt(pos(an, b)))
        if is_z3(b) and self.must(st, b > 0):
            an = ineg(a)
            return z3.If(smt(a) >= 0, smt(pos(a, b)), -smt(pos(an, b)))
        raise Bail("division with negative operands")

    def binop(self, st, op, a, b, ty, flags):
        ty = self.mod.resolve(ty)
        if ty.k == "int":
            w = ty.w
            if w == 1:
                if isinstance(a, Undef): a = fresh("undef", B)
                if isinstance(b, Undef): b = fresh("undef", B)
                if op == "and": return band(a, b)
                if op == "or": return bor(a, b)
                if op == "xor":
                    if isinstance(b, bool): return bnot(a) if b else a
                    if isinstance(a, bool): return bnot(b) if a else b
                    return z3.Xor(a, b)
                if op in ("add", "sub"): return z3.Xor(smt(a), smt(b))
                raise Bail("i1 " + op)
            if isinstance(a, PtrInt) or isinstance(b, PtrInt):
                return self.ptrint_op(st, op, a, b)
            if isinstance(a, Undef): a = fresh("undef", I)
            if isinstance(b, Undef): b = fresh("undef", I)
            if op == "shl" and isinstance(b, int):
                if b == 0: return a
                if isinstance(a, Parts): return Parts([(b, 0)] + self.trunc_parts(a, w - b).ps)
                if b == 32 and w == 64: return Parts([(32, 0), (32, self.low(a, 32))])
                return iscale(self.intval(a), 1 << b)
            if op in ("or", "add") and (isinstance(a, Parts) or isinstance(b, Parts)):
                r = self.parts_or(st, a, b, w)
                if r is not None: return r
            if op == "lshr" and isinstance(b, int):
                if isinstance(a, Parts):
                    bits = 0
                    for i, (n, x) in enumerate(a.ps):
                        if bits == b: 
                            rest = a.ps[i:]
                            if len(rest) == 1: return self.u_nost(rest[0][1], rest[0][0])
                            return Parts(rest + [(b, 0)])
                        bits += n
                a = self.u(st, a, w)
                if not is_z3(a): return a >> b
                return self.isqd(st, a, 1 << b, w, True, False)
            if op == "and" and w == 64 and isinstance(a, Parts) and isinstance(b, int) and a.ps[0][0] == 32:
                if b % (1 << 64) == 0xffffffff: return Parts([a.ps[0], (32, 0)])
                if b % (1 << 64) == 0xffffffff00000000: return Parts([(32, 0)] + a.ps[1:])
            a, b = self.intval(a), self.intval(b)
            if isinstance(a, Raw) or isinstance(b, Raw): raise Bail("arithmetic on raw bits")
            if op in ("add", "sub", "mul"):
                if op == "add": r = iadd(a, b)
                elif op == "sub": r = isub(a, b)
                else: r = imul(a, b)
                if not is_z3(r): return self.sx(r % (1 << w), w)
                if self.opts.get("wrap") and "nsw" not in flags: return self.wrap_mod(r, w)
                return r
            if op in ("sdiv", "srem"):
                if op == "sdiv" and "exact" in flags and isinstance(b, int) and is_z3(a):
                    t, c = lin(a)
                    if all(k % b == 0 for _, k in t.values()) and c % b == 0:
                        return unlin({i: (e, k // b) for i, (e, k) in t.items()}, c // b)
                return self.isqd(st, a, b, w, True, op == "srem")
            if op in ("udiv", "urem"):
                r = self.isqd(st, a, b, w, False, op == "urem")
                return r if is_z3(r) else self.sx(r % (1 << w), w)
            if op == "ashr" and isinstance(b, int):
                if not is_z3(a): return a >> b
                t, c = lin(a)
                m = 1 << b
                if all(k % m == 0 for _, k in t.values()): return unlin({i: (e, k // m) for i, (e, k) in t.items()}, c // m)
                return smt(a) / (1 << b)
            if op == "and":
                if not is_z3(a) and not is_z3(b): return self.sx((a & b) % (1 << w), w)
                if not is_z3(a): a, b = b, a
                if not is_z3(b):
                    if b == 0: return 0
                    if b == -1: return a
                    bb = b % (1 << w)
                    if w == 64 and bb == 0xffffffff: return Parts([(32, a), (32, 0)])
                    if (bb & (bb + 1)) == 0:
                        if self.opts.get("wrap"): return self.mod_nf(a, bb + 1)
                        au = self.u(st, a, w)
                        return smt(au) % (bb + 1)
                if flag(a) is not None and flag(b) is not None: return z3.If(z3.And(flag(a), flag(b)), z3.IntVal(1), z3.IntVal(0))
                return bitfn("and", w)(smt(a), smt(b))
            if op == "or":
                if not is_z3(a) and not is_z3(b): return self.sx((a | b) % (1 << w), w)
                if not is_z3(a) and a == 0: return b
                if not is_z3(b) and b == 0: return a
                if "disjoint" in flags: return iadd(a, b)
                if flag(a) is not None and flag(b) is not None: return z3.If(z3.Or(flag(a), flag(b)), z3.IntVal(1), z3.IntVal(0))
                return bitfn("or", w)(smt(a), smt(b))
            if op == "xor":
                if not is_z3(a) and not is_z3(b): return self.sx((a ^ b) % (1 << w), w)
                if b == -1: return isub(-1, a)
                if is_z3(a) and not is_z3(b) and b == 0: return a
                if flag(a) is not None and flag(b) is not None: return z3.If(z3.Xor(flag(a), flag(b)), z3.IntVal(1), z3.IntVal(0))
                return bitfn("xor", w)(smt(a), smt(b))
            if op == "shl":
                if not is_z3(a) and not is_z3(b): return self.sx((a << b) % (1 << w), w)
                return bitfn("shl", w)(smt(a), smt(b))
            if op in ("lshr", "ashr"):
                if not is_z3(a) and not is_z3(b): return (a % (1 << w)) >> b
                return bitfn(op, w)(smt(a), smt(b))
            raise Bail(op)
        # floating
        a, b = self.fval(a), self.fval(b)
        if op == "fadd": return radd(a, b)
        if op == "fsub": return rsub(a, b)
        if op == "fmul": return rmul(a, b)
        if op == "fdiv":
            if not is_z3(b) and b == 0: return fresh("fdiv0", R)
            return rdiv(a, b)
        raise Bail(op)

    def fval(self, v):
        if isinstance(v, Undef): return fresh("undef", R)
        if isinstance(v, Raw): return v.v
        if isinstance(v, int): return Fraction(v)
        return v

    def low(self, v, w):
        return self.signed(v, w)
    def trunc_parts(self, p, w):
        out = []; bits = 0
        for b, v in p.ps:
            if bits >= w: break
            if bits + b > w: raise Bail("split part")
            out.append((b, v)); bits += b
        return Parts(out)
    def parts_or(self, st, a, b, w):
        """or / add of disjoint parts"""
        def norm(x):
            if isinstance(x, Parts): return x.ps
            if w == 64: 
                # an integer known to fit in the low 32 bits
                if not is_z3(x) and 0 <= x < (1 << 32): return [(32, self.sx(x, 32)), (32, 0)]
                if is_z3(x): return [(32, self.signed(x, 32)), (32, 0)]
            return None
        pa, pb = norm(a), norm(b)
        if pa is None or pb is None or [x for x, _ in pa] != [x for x, _ in pb]: return None
        out = []
        for (n, x), (_, y) in zip(pa, pb):
            if not is_z3(x) and x == 0: out.append((n, y))
            elif not is_z3(y) and y == 0: out.append((n, x))
            else: return None
        return Parts(out)

    def ptrint_op(self, st, op, a, b):
        if op == "sub" and isinstance(a, PtrInt) and isinstance(b, PtrInt):
            p, q = a.p, b.p
            if p is NULL and q is NULL: return 0
            if isinstance(p, Ptr) and isinstance(q, Ptr) and p.r is q.r: return p.off.add(q.off.neg()).expr()
            if p is NULL or q is NULL: return fresh("ptrdiff", I)
            raise Bail(f"pointer difference {p} {q}")
        if op in ("add", "sub") and isinstance(a, PtrInt) and isinstance(a.p, Ptr) and not isinstance(b, PtrInt):
            return PtrInt(a.p.plus(lin_of(b if op == "add" else ineg(b))))
        if op == "and" and isinstance(a, PtrInt):   # alignment tests
            return 0 if isinstance(b, int) and 0 < b < 16 else fresh("ptrbits", I)
        raise Bail("pointer arithmetic " + op)

    def icmp(self, st, pred, a, b, ty):
        ty = self.mod.resolve(ty)
        if ty.k == "ptr" or isinstance(a, PtrInt) or isinstance(b, PtrInt):
            if isinstance(a, PtrInt): a = a.p
            if isinstance(b, PtrInt): b = b.p
            if isinstance(a, int) and a == 0: a = NULL
            if isinstance(b, int) and b == 0: b = NULL
            return self.pcmp(st, pred, a, b)
        w = ty.w
        if w == 1:
            if isinstance(a, Undef): a = fresh("undef", B)
            if isinstance(b, Undef): b = fresh("undef", B)
            e = simp(smt(a) == smt(b))
            if pred == "eq": return e
            if pred == "ne": return bnot(e)
            raise Bail("icmp i1 " + pred)
        if isinstance(a, Undef): a = fresh("undef", I)
        if isinstance(b, Undef): b = fresh("undef", I)
        if isinstance(a, Parts) and isinstance(b, Parts) and [x[0] for x in a.ps] == [x[0] for x in b.ps] and pred in ("eq", "ne"):
            e = band(*[self.icmp(st, "eq", x[1], y[1], int_ty(x[0])) for x, y in zip(a.ps, b.ps)])
            return e if pred == "eq" else bnot(e)
        a, b = self.intval(a), self.intval(b)
        if isinstance(a, Raw) or isinstance(b, Raw): raise Bail("compare raw bits")
        if pred in ("ugt", "uge", "ult", "ule"):
            a, b = self.u(st, a, w), self.u(st, b, w)
            pred = {"ugt": "sgt", "uge": "sge", "ult": "slt", "ule": "sle"}[pred]
        d = isub(a, b)
        if not is_z3(d):
            return {"eq": d == 0, "ne": d != 0, "sgt": d > 0, "sge": d >= 0, "slt": d < 0, "sle": d <= 0}[pred]
        a, b = smt(a), smt(b)
        return simp({"eq": lambda: a == b, "ne": lambda: a != b, "sgt": lambda: a > b, "sge": lambda: a >= b, "slt": lambda: a < b, "sle": lambda: a <= b}[pred]())

    def pcmp(self, st, pred, a, b):
        if isinstance(a, Undef) or isinstance(b, Undef): return fresh("ptrcmp", B)
        if pred in ("eq", "ne"):
            if a is NULL and b is NULL: r = True
            elif a is NULL or b is NULL: r = False
            elif isinstance(a, FnPtr) or isinstance(b, FnPtr): r = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
            elif a.r is b.r:
                r = simp(band(smt(a.off.add(b.off.neg()).expr()) == 0, *[smt(x) == smt(y) for x, y in zip(a.keys, b.keys)]))
            else: r = False
            return r if pred == "eq" else bnot(r)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r:
            d = a.off.add(b.off.neg()).expr()
            return self.icmp(st, pred.replace("u", "s"), d, 0, int_ty(64))
        if a is NULL and b is NULL: return pred in ("uge", "ule", "sge", "sle")
        return fresh("ptrcmp", B)

    def fcmp(self, st, pred, a, b):
        a, b = self.fval(a), self.fval(b)
        if pred in ("ord",): return True
        if pred in ("uno",): return False
        if pred == "true": return True
        if pred == "false": return False
        k = pred[1:]
        if not is_z3(a) and not is_z3(b):
            return {"eq": a == b, "ne": a != b, "gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}[k]
        a, b = smt(a), smt(b)
        return simp({"eq": lambda: a == b, "ne": lambda: a != b, "gt": lambda: a > b, "ge": lambda: a >= b, "lt": lambda: a < b, "le": lambda: a <= b}[k]())

    def cast(self, st, op, v, t1, t2):
        t1, t2 = self.mod.resolve(t1), self.mod.resolve(t2)
        if op in ("zext", "sext"):
            if isinstance(v, Undef): return fresh("undef", I)
            if t1.w == 1:
                if isinstance(v, bool): return (1 if v else 0) if op == "zext" else (-1 if v else 0)
                return z3.If(v, z3.IntVal(1 if op == "zext" else -1), z3.IntVal(0))
            if isinstance(v, Parts): v = self.parts_int(v)
            if op == "sext": return v
            return self.u(st, v, t1.w)
        if op == "trunc":
            if isinstance(v, Undef): return UNDEF if t2.w != 1 else fresh("undef", B)
            if isinstance(v, PtrInt): raise Bail("trunc of pointer")
            if isinstance(v, Parts):
                bits = 0
                for b, x in v.ps:
                    if bits == 0 and b == t2.w: return x
                    if bits == 0 and b > t2.w: return self.cast(st, "trunc", x, int_ty(b), t2)
                    bits += b
                    if bits == t2.w: return self.trunc_parts(v, t2.w)
                raise Bail("trunc parts")
            if isinstance(v, Raw): raise Bail("trunc raw")
            if t2.w == 1:
                if not is_z3(v): return bool(v & 1)
                return simp(v != 0)
            if not is_z3(v): return self.sx(v % (1 << t2.w), t2.w)
            if self.opts.get("wrap") and not self.must(st, z3.And(v >= -(1 << (t2.w - 1)), v < (1 << (t2.w - 1)))): return self.wrap_mod(v, t2.w)
            return self.signed(v, t2.w)      # value assumed to fit (machine integers treated as mathematical)
        if op in ("sitofp", "uitofp"):
            if isinstance(v, Undef): return fresh("undef", R)
            if t1.w == 1:
                return ite(v, Fraction(1), Fraction(0)) if op == "uitofp" else ite(v, Fraction(-1), Fraction(0))
            v = self.intval(v)
            if op == "uitofp": v = self.u(st, v, t1.w)
            return Fraction(v) if not is_z3(v) else z3.ToReal(v)
        if op in ("fptosi", "fptoui"):
            v = self.fval(v)
            if not is_z3(v): return int(v)
            if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_TO_REAL: return v.arg(0)
            if self.must(st, v >= 0): return z3.ToInt(v)
            return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        if op in ("fpext", "fptrunc"): return v
        if op == "ptrtoint":
            if isinstance(v, (Ptr, NullT, FnPtr)): return PtrInt(v)
            return UNDEF
        if op == "inttoptr":
            if isinstance(v, PtrInt): return v.p
            if isinstance(v, int) and v == 0: return NULL
            return UNDEF
        if op in ("bitcast", "addrspacecast"):
            if t1.k == "int" and t2.k == "double":
                if isinstance(v, Raw): return v.v
                raise Bail("bitcast int to double")
            if t1.k == "double" and t2.k == "int": return Raw(v)
            return v
        raise Bail(op)

class Fork(Exception):
    def __init__(self, alts): self.alts = alts

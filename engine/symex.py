"""Symbolic execution of functions, calls, loops; intrinsics of the contract language; library models."""
import re, time
import z3
from fractions import Fraction
from irparse import *
from terms import *
from vc import *

def sym_ids(e):
    """ids of the versioned symbols (fresh constants and arrays) in e"""
    out = set()
    for x in walk([smt(e)]):
        if z3.is_app(x) and x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            m = re.search(r"!(\d+)$", x.decl().name())
            if m: out.add(int(m.group(1)))
    return out

class View:
    def __init__(self, eng, st, env, k, get):
        self.eng, self.st, self.env, self.k, self.get = eng, st, env, k, get

class Exec(Engine):
    def __init__(self, mod, demangle, opts=None):
        super().__init__(mod, demangle, opts)
        self.contract_of = {}
        self.depth = 0
        self.inlined = {}
        self.n_alloca = 0
        self.frame = []       # by-value parameters and local variables of the functions being executed, for vf_frame_

    # ------------------------------------------------------------------ operands
    def val(self, v, ty, env):
        if v[0] == "local":
            if v[1] not in env: raise Bail("undefined local " + v[1])
            return env[v[1]]
        return self.const(v, ty)

    # ------------------------------------------------------------------ functions
    def call_fn(self, st, name, args, unused=None):
        """execute the body; -> [(state, 'ret'|'throw', value)]"""
        fn = self.mod.funcs[name]; fn.parse()
        if self.depth > 60: raise Bail("call depth")
        mark = len(self.frame)
        env = {}
        cnt = 0
        for i, (t, nm, at) in enumerate(fn.params):
            if nm is None: nm = str(cnt)
            if nm.isdigit(): cnt = int(nm) + 1
            if i < len(args): env[nm] = args[i]
            if at and at[0] == "byval" and i < len(args):
                r = Region(f"byval.{nm}", "obj", size=self.mod.size(at[1]))
                self.memcpy(st, Ptr(r), args[i], self.mod.size(at[1])); env[nm] = Ptr(r)
                self.frame.append(Ptr(r))
        self.depth += 1
        self.curfn.append(name)
        self.stats["functions"].add(name)
        try:
            r = self.run_region(fn, [(st, env, fn.entry, None)], None, None, ())
            return r[2]
        finally:
            self.depth -= 1
            self.curfn.pop()
            del self.frame[mark:]

    def run_region(self, fn, items, blocks, header, ctl, first=True):
        """-> exits [(st,env,target,pred)], latches [(st,env,pred)], rets [(st,kind,val)]"""
        exits, latches, rets = [], [], []
        work = list(items)
        start = True
        nstart = len(items)
        n = 0
        pend = [(it, True) for it in items]
        while pend:
            (st, env, b, pred), isstart = pend.pop()
            n += 1
            if n > 4000: raise Bail("too many paths")
            if blocks is not None and not isstart:
                if b == header: latches.append((st, env, pred)); continue
                if b not in blocks:
                    exits.append((st, env, b, pred)); continue
            if b in fn.doomed:
                k = self.doom_kind(fn, b)
                if k[0] == "assert":
                    self.oblige(st, "assert", "assertion in code: " + k[1], False); continue
                if k[0] == "ub":
                    self.oblige(st, "unreachable", "control never reaches an unreachable point", False); continue
                rets.append((st, "throw", k[1])); continue
            if b in fn.loops and not (isstart and b == header) and (pred is None or pred not in fn.loops[b]["blocks"] or isstart):
                ex, rt = self.handle_loop(fn, b, st, env, pred)
                rets.extend(rt)
                for it in ex: pend.append((it, False))
                continue
            if b in ctl:
                isctl = "nest" if any(x in fn.loops for x in blocks if x != header) else True
                self.loop_now = blocks
            else: isctl = False
            for o in self.exec_block(fn, st, env, b, pred, isctl):
                if o[0] == "goto": pend.append(((o[1], o[2], o[3], b), False))
                else: rets.append((o[1], o[0], o[2]))
        return exits, latches, rets

    def doom_kind(self, fn, b):
        seen = set(); st = [b]; thr = None
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x)
            for ins in fn.blocks[x].insts:
                if ins.op in ("call", "invoke"):
                    c = ins.a[0]
                    if c[0] == "glob":
                        if c[1] == "__assert_fail": return ("assert", self.assert_text(ins))
                        if c[1] in ("__cxa_throw", "__cxa_rethrow", "exit", "abort", "_ZSt9terminatev", "__clang_call_terminate") or "__throw_" in c[1]: thr = c[1]
                        elif thr is None and (c[1] not in self.mod.funcs or True): 
                            if not c[1].startswith("llvm."): thr = c[1]
            st.extend(fn.blocks[x].succ)
        if thr is None: return ("ub", "")
        return ("throw", thr)
    def assert_text(self, ins):
        try:
            p = self.const(ins.a[1][0][1], PTR); return self.cstr(p, State())
        except Exception: return "?"

    def exec_block(self, fn, st, env, b, pred, isctl):
        blk = fn.blocks[b]
        self.check_deadline()
        # phis in parallel
        i = 0
        if blk.insts and blk.insts[0].op == "phi":
            vals = {}
            while blk.insts[i].op == "phi":
                ins = blk.insts[i]
                if not ("phi", b) in env.get("__skip", ()):
                    for v, bb in ins.a:
                        if bb == pred: vals[ins.res] = self.val(v, ins.ty, env); break
                    else: raise Bail(f"phi without incoming for {pred} in {fn.name}")
                i += 1
            if env.get("__skip"):
                env = dict(env); env["__skip"] = ()
                vals = {}
            env = dict(env) if vals else env
            env.update(vals)
        out = []
        work = [(st, env, i)]
        while work:
            st, env, i = work.pop()
            while True:
                ins = blk.insts[i]
                self.st_now = st
                self.stats["insts"] += 1
                op = ins.op
                if op != "load":
                    for nm in self.locals_of(ins):
                        v = env.get(nm)
                        if isinstance(v, PSel):
                            t, f = self.feasible(st, v.c), self.feasible(st, z3.Not(v.c))
                            env = dict(env)
                            if t and f:
                                s2 = st.copy(); s2.assume(z3.Not(v.c)); e2 = dict(env); e2[nm] = v.b
                                work.append((s2, e2, i)); st.assume(v.c)
                                self.stats["paths"] += 1
                            env[nm] = v.a if t else v.b
                if op == "br":
                    if ins.a[0] is None: out.append(("goto", st, env, ins.a[1])); break
                    c = self.val(ins.a[0], int_ty(1), env)
                    if isinstance(c, Undef): c = fresh("undef", B)
                    if is_z3(c): c = simp(c)
                    if isinstance(c, bool): out.append(("goto", st, env, ins.a[1] if c else ins.a[2])); break
                    if ins.a[1] == ins.a[2]: out.append(("goto", st, env, ins.a[1])); break
                    t, f = self.feasible(st, c), self.feasible(st, z3.Not(c))
                    if t and f:
                        if isctl: raise NeedCut()
                        s2 = st.copy()
                        st.assume(c); s2.assume(z3.Not(c))
                        out.append(("goto", st, env, ins.a[1])); out.append(("goto", s2, dict(env), ins.a[2])); 
                        self.stats["paths"] += 1
                        if self.opts["verbose"] and self.record: print("   fork", self.short(fn.name), b, str(c)[:120])
                    elif t or f:
                        tgt = ins.a[1] if t else ins.a[2]
                        if isctl == "nest" and tgt in self.loop_now: raise NeedCut()
                        out.append(("goto", st, env, tgt))
                    break
                if op == "switch":
                    t, cv, d, cases = ins.a
                    c = self.intval(self.val(cv, t, env))
                    if isinstance(c, Undef): c = fresh("undef", I)
                    if is_z3(c): c = simp(c)
                    if not is_z3(c):
                        tgt = d
                        for v, l in cases:
                            if v == c or (isinstance(c, bool) and bool(v) == c): tgt = l
                        out.append(("goto", st, env, tgt)); break
                    if isctl: raise NeedCut()
                    if z3.is_bool(c): c = z3.If(c, z3.IntVal(1), z3.IntVal(0))
                    for v, l in cases:
                        g = c == v
                        if self.feasible(st, g):
                            s2 = st.copy(); s2.assume(g); out.append(("goto", s2, dict(env), l))
                    g = band(*[c != v for v, l in cases])
                    if self.feasible(st, g):
                        s2 = st.copy(); s2.assume(g); out.append(("goto", s2, dict(env), d))
                    break
                if op == "ret":
                    v = self.val(ins.a[0], ins.ty, env) if ins.a[0] is not None else None
                    out.append(("ret", st, v)); break
                if op == "unreachable": break
                if op in ("call", "invoke"):
                    res = self.call(st, env, ins, fn)
                    nxt = []
                    for s2, kind, v in res:
                        if kind == "throw": out.append(("throw", s2, v)); continue
                        e2 = env if len(res) == 1 else dict(env)
                        if ins.res is not None: e2[ins.res] = v
                        nxt.append((s2, e2))
                    if op == "invoke":
                        for s2, e2 in nxt: out.append(("goto", s2, e2, ins.extra["normal"]))
                        break
                    if not nxt: break
                    for s2, e2 in nxt[1:]: work.append((s2, e2, i + 1))
                    st, env = nxt[0]; i += 1
                    continue
                try:
                    v = self.simple(st, env, ins, fn)
                    if ins.res is not None: env[ins.res] = v
                    i += 1
                except Fork as fk:
                    for c, v in fk.alts[1:]:
                        if self.feasible(st, c):
                            s2 = st.copy(); s2.assume(smt(c)); e2 = dict(env); e2[ins.res] = v
                            work.append((s2, e2, i + 1))
                    c, v = fk.alts[0]
                    if not self.feasible(st, c): break
                    st.assume(smt(c)); env[ins.res] = v; i += 1
        return out

    def locals_of(self, ins):
        l = self.loc_cache.get(id(ins))
        if l is None:
            out = []
            def go(x):
                if isinstance(x, tuple) and len(x) == 2 and x[0] == "local": out.append(x[1])
                elif isinstance(x, (tuple, list)):
                    for y in x: go(y)
            if ins.op not in ("phi", "select"): go(ins.a)
            l = (tuple(out), ins); self.loc_cache[id(ins)] = l
        return l[0]

    def load_sel(self, st, p, ty):
        if not isinstance(p, PSel): return self.load(st, p, ty)
        s1 = st.copy(); s1.assume(p.c); s2 = st.copy(); s2.assume(z3.Not(p.c))
        return self.merge([(p.c, self.load_sel(s1, p.a, ty)), (z3.Not(p.c), self.load_sel(s2, p.b, ty))])

    def simple(self, st, env, ins, fn):
        op = ins.op
        if op in BIN:
            return self.binop(st, op, self.val(ins.a[0], ins.ty, env), self.val(ins.a[1], ins.ty, env), ins.ty, ins.extra)
        if op in CAST:
            return self.cast(st, op, self.val(ins.a[1], ins.a[0], env), ins.a[0], ins.ty)
        if op == "icmp":
            return self.icmp(st, ins.a[0], self.val(ins.a[1], ins.ty, env), self.val(ins.a[2], ins.ty, env), ins.ty)
        if op == "fcmp":
            return self.fcmp(st, ins.a[0], self.val(ins.a[1], ins.ty, env), self.val(ins.a[2], ins.ty, env))
        if op == "fneg":
            v = self.fval(self.val(ins.a[0], ins.ty, env))
            return -v
        if op == "freeze": return self.val(ins.a[0], ins.ty, env)
        if op == "alloca":
            n = self.val(ins.a[0], int_ty(32), env)
            nm = f"{self.short(fn.name)}:{ins.res}"
            if is_z3(n):
                r = Region(nm, "arr", self.mod.size(ins.ty), length=n)
            else:
                r = Region(nm, "obj", size=self.mod.size(ins.ty) * n)
                self.frame.append(Ptr(r))
            return Ptr(r)
        if op == "load":
            p = self.val(ins.a[0], PTR, env)
            if isinstance(p, PSel): return self.load_sel(st, p, ins.ty)
            return self.load(st, self.val(ins.a[0], PTR, env), ins.ty)
        if op == "store":
            self.store(st, self.val(ins.a[1], PTR, env), self.val(ins.a[0], ins.ty, env), ins.ty); return None
        if op == "getelementptr":
            base = self.val(ins.a[0][1], PTR, env)
            return self.gep(st, ins.ty, base, [(t, self.val(v, t, env)) for t, v in ins.a[1:]])
        if op == "select":
            c = self.val(ins.a[0], int_ty(1), env)
            if is_z3(c): c = simp(c)
            a, b = self.val(ins.a[1], ins.ty, env), self.val(ins.a[2], ins.ty, env)
            if isinstance(c, Undef): c = fresh("undef", B)
            if isinstance(c, bool): return a if c else b
            if isinstance(a, (Ptr, PSel)) and isinstance(b, (Ptr, PSel)) and not self.same_val(a, b): return PSel(c, a, b)
            return self.merge([(c, a), (z3.Not(c), b)])
        if op == "extractvalue":
            v = self.val(ins.a[0], ins.ty, env)
            for i in ins.a[1]:
                if isinstance(v, Undef): return UNDEF
                v = v[i]
            return v
        if op == "insertvalue":
            v = self.val(ins.a[0], ins.ty, env); x = self.val(ins.a[2], ins.a[1], env)
            t = self.mod.resolve(ins.ty)
            def blank(t):
                t = self.mod.resolve(t)
                if t.k == "struct": return [blank(e) for e in t.elems]
                if t.k == "arr": return [blank(t.elems[0]) for _ in range(t.n)]
                return UNDEF
            if isinstance(v, Undef): v = blank(t)
            def ins_(v, idx):
                v = list(v)
                v[idx[0]] = x if len(idx) == 1 else ins_(v[idx[0]], idx[1:])
                return v
            return ins_(v, ins.a[3])
        if op == "atomicrmw":
            o, p, v = ins.a
            p = self.val(p, PTR, env); v = self.val(v, ins.ty, env)
            old = self.load(st, p, ins.ty)
            if o == "add": new = iadd(old, v)
            elif o == "sub": new = isub(old, v)
            elif o == "xchg": new = v
            else: raise Bail("atomicrmw " + o)
            self.store(st, p, new, ins.ty)
            return old
        if op == "fence": return None
        raise Bail("instruction " + op)

    def short(self, name):
        d = self.dem.get(name, name)
        d = re.sub(r"\(.*", "", d)
        d = re.sub(r"<.*>", "", d)
        return d.split("::")[-1] if "::" in d else d

    # ------------------------------------------------------------------ calls
    def call(self, st, env, ins, fn):
        callee, args = ins.a
        if callee[0] == "glob":
            name = callee[1]
            if name not in self.mod.funcs and name not in self.mod.decls:
                g = self.global_ptr(name)
                if isinstance(g, FnPtr): name = g.name
        else:
            f = env.get(callee[1])
            if isinstance(f, FnPtr): name = f.name
            else: raise Bail(f"indirect call through {f!r} in {self.short(fn.name)}")
        av = [self.val(v, t, env) for t, v, at in args]
        tys = [t for t, v, at in args]
        return self.invoke(st, name, av, tys, ins.ty, fn.name)

    def invoke(self, st, name, av, tys, rty, caller=None):
        if name.startswith("llvm."):
            return [(st, "ret", self.llvm(st, name, av, tys, rty))]
        if name.startswith("vf_"):
            return self.intrinsic(st, name, av, tys, rty)
        d = self.dem.get(name, name)
        if not self.pure or True:
            stub = self.contract_of.get(name)
            if stub is not None and not self.pure and len(self.curfn) > 1 and caller != stub:
                self.stats["contracts_used"].add(d)
                return self.call_fn(st, stub, av)
        m = self.model(st, name, d, av, tys, rty)
        if m is not None:
            self.stats["models"].add(self.model_name(d))
            return m
        if name in self.mod.funcs:
            return self.call_fn(st, name, av)
        raise Bail(f"no contract, model or body for {d}")
    def model_name(self, d):
        return re.sub(r"\(.*", "", d)[:80]

    def llvm(self, st, name, av, tys, rty):
        if name.startswith(("llvm.lifetime", "llvm.dbg", "llvm.invariant", "llvm.experimental.noalias", "llvm.donothing", "llvm.prefetch", "llvm.stackrestore", "llvm.va_", "llvm.var.annotation")): return None
        if name.startswith("llvm.stacksave"): return UNDEF
        if name.startswith("llvm.assume"): return None
        if name.startswith(("llvm.memcpy", "llvm.memmove")):
            self.memcpy(st, av[0], av[1], av[2]); return None
        if name.startswith("llvm.memset"):
            self.memset(st, av[0], av[1], av[2]); return None
        if name.startswith("llvm.expect"): return av[0]
        if name.startswith("llvm.is.constant"): return False
        if name.startswith("llvm.objectsize"): return -1
        if name.startswith("llvm.fmuladd") or name.startswith("llvm.fma."):
            return radd(rmul(self.fval(av[0]), self.fval(av[1])), self.fval(av[2]))
        m = re.match(r"llvm\.(\w+)\.", name)
        op = m.group(1) if m else name
        if op in ("fabs", "sqrt", "sin", "cos", "exp", "log", "floor", "ceil", "pow", "maxnum", "minnum", "trunc", "round", "copysign"):
            return self.mathfn(st, op, av)
        if op in ("smax", "smin", "umax", "umin", "abs"):
            a = self.intval(av[0])
            if op == "abs": return ite(smt(a) >= 0, a, ineg(a)) if is_z3(a) else abs(a)
            b = self.intval(av[1])
            w = self.mod.resolve(tys[0]).w
            if op[0] == "u": a, b = self.u(st, a, w), self.u(st, b, w)
            if not is_z3(a) and not is_z3(b): return max(a, b) if op[1:] == "max" else min(a, b)
            c = smt(a) >= smt(b)
            return ite(c, a, b) if op[1:] == "max" else ite(c, b, a)
        if name.startswith("llvm.eh.typeid"): return fresh("typeid", I)
        m = re.match(r"llvm\.([us])(add|sub|mul)\.with\.overflow\.i(\d+)", name)
        if m:
            w = int(m.group(3)); a, b = self.intval(av[0]), self.intval(av[1])
            if m.group(1) == "u": a, b = self.u(st, a, w), self.u(st, b, w)
            r = {"add": iadd, "sub": isub, "mul": imul}[m.group(2)](a, b)
            return [r, False]     # allocation-size overflow is not modelled
        if name == "llvm.trap":
            self.oblige(st, "trap", "no trap", False); return None
        raise Bail("intrinsic " + name)

    def mathfn(self, st, op, av):
        a = self.fval(av[0])
        if op == "fabs":
            if not is_z3(a): return abs(a)
            return z3.If(a >= 0, a, -a)
        if op == "sqrt":
            if not is_z3(a):
                import math
                n, d = a.numerator, a.denominator
                if a >= 0 and math.isqrt(n) ** 2 == n and math.isqrt(d) ** 2 == d: return Fraction(math.isqrt(n), math.isqrt(d))
            return SQRT(smt(a))
        if op in ("floor", "ceil", "trunc", "round"):
            if not is_z3(a):
                import math
                return Fraction({"floor": math.floor, "ceil": math.ceil, "trunc": int, "round": lambda v: math.floor(v + Fraction(1, 2)) if v >= 0 else -math.floor(Fraction(1, 2) - v)}[op](a))
            if op == "floor": return z3.ToReal(z3.ToInt(a))
            if op == "ceil": return -z3.ToReal(z3.ToInt(-a))
            if op == "trunc": return z3.If(a >= 0, z3.ToReal(z3.ToInt(a)), -z3.ToReal(z3.ToInt(-a)))
            h = z3.Q(1, 2)      # halves go away from zero
            return z3.If(a >= 0, z3.ToReal(z3.ToInt(a + h)), -z3.ToReal(z3.ToInt(h - a)))
        f = {"sin": SIN, "cos": COS, "exp": EXP, "log": LOG, "tan": TAN, "acos": ACOS, "atan": ATAN, "asin": ASIN}.get(op)
        if f is not None:
            if not is_z3(a) and a == 0 and op in ("sin", "tan", "atan", "asin"): return Fraction(0)
            if not is_z3(a) and a == 0 and op in ("cos", "exp"): return Fraction(1)
            return f(smt(a))
        b = self.fval(av[1])
        if op in ("maxnum", "fmax"): return ite(smt(smt(a) >= smt(b)), a, b)
        if op in ("minnum", "fmin"): return ite(smt(smt(a) <= smt(b)), a, b)
        if op == "pow":
            if not is_z3(b) and b.denominator == 1 and 0 <= b <= 4:
                r = Fraction(1)
                for _ in range(int(b)): r = rmul(r, a)
                return r
            return POW(smt(a), smt(b))
        if op == "atan2": return ATAN2(smt(a), smt(b))
        if op == "copysign":
            av_ = z3.If(smt(a) >= 0, smt(a), -smt(a))
            return z3.If(smt(b) >= 0, av_, -av_)
        raise Bail(op)

    LIBM = {"sqrt", "sin", "cos", "exp", "log", "tan", "acos", "atan", "asin", "pow", "floor", "ceil", "fabs", "fmax", "fmin", "atan2", "trunc", "round"}

    def model(self, st, name, d, av, tys, rty):
        if name[:-1] in self.LIBM and name[-1] in "lf" and name not in self.LIBM: name = name[:-1]
        if name in self.LIBM: return [(st, "ret", self.mathfn(st, name, av))]
        if name in ("_Znwm", "_Znam", "malloc", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "_ZnwmRKSt9nothrow_t"):
            n = self.intval(av[0])
            if is_z3(n): n = simp(n)
            if is_z3(n):
                r = Region("heap", "arr", None); r.nbytes = n
            else: r = Region("heap", "obj", size=n)
            return [(st, "ret", Ptr(r))]
        if name in ("_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "free", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"): return [(st, "ret", None)]
        if name in ("memcpy", "memmove"):
            self.memcpy(st, av[0], av[1], av[2]); return [(st, "ret", av[0])]
        if name == "memset":
            self.memset(st, av[0], av[1], av[2]); return [(st, "ret", av[0])]
        if name in ("__cxa_guard_acquire",): return [(st, "ret", 1)]
        if name in ("__cxa_guard_release", "__cxa_guard_abort", "__cxa_atexit"): return [(st, "ret", 0)]
        if name in ("omp_get_thread_num",): return [(st, "ret", 0)]
        if name in ("omp_get_max_threads", "omp_get_num_threads"): return [(st, "ret", 1)]
        if name.startswith("_ZSt") and "__throw_" in name: return [(st, "throw", name)]
        if name in ("__cxa_throw", "__cxa_rethrow", "exit", "abort"): return [(st, "throw", name)]
        if re.search(r"\bstd::(basic_)?(o|i|io)?(string)?stream|std::basic_(o|i|io)|std::ostream|std::__cxx11::basic_(string|ostringstream|stringstream)|std::ios_base|std::endl|std::setw|std::setprecision|std::allocator<char>|operator<< ?<std::char_traits", d) and not d.startswith("bool std::operator=="):
            t = self.mod.resolve(rty)
            if t.k == "ptr": return [(st, "ret", av[0])]
            if t.k == "void": return [(st, "ret", None)]
            if t.k == "int": return [(st, "ret", fresh("io", B if t.w == 1 else I))]
            return [(st, "ret", UNDEF)]
        if re.match(r"(mocc::)?Tee(Stream)?|mocc::Timer::|mocc::TeeStream", d):
            t = self.mod.resolve(rty)
            if t.k == "ptr": return [(st, "ret", av[0])]
            if t.k == "double": return [(st, "ret", fresh("timer", R))]
            return [(st, "ret", None)]
        m = re.match(r"std::__new_allocator<(.*)>::allocate\(", d)
        if m:
            sz = self.size_by_name(m.group(1))
            if sz is None: return None
            n = self.intval(av[1])
            if is_z3(n): n = simp(n)
            if is_z3(n):
                r = Region("heap", "arr", sz); r.length = n
            else: r = Region("heap", "obj", size=n * sz)
            return [(st, "ret", Ptr(r))]
        m = re.match(r".* std::(fill_n<(double|int|unsigned int|float|bool)\*, unsigned long, |__uninitialized_default_n_1<true>::__uninit_default_n<(double|int|unsigned int|float|bool)\*, unsigned long>|__fill_a1<(double|int|unsigned int|float)\*, )", d)
        if m and isinstance(av[0], Ptr) and av[0].r.kind == "arr":
            p = av[0]; t = m.group(2) or m.group(3) or m.group(4)
            sz = self.size_by_name(t); tk = ("d",) if t in ("double", "float") else ("i", 8 * sz)
            idx, foff = self.arr_index(p)
            if p.r.stride != sz or foff: return None
            if m.group(4):
                e = av[1]
                if not isinstance(e, Ptr) or e.r is not p.r: return None
                n = isub(self.arr_index(e)[0], idx)
            else: n = self.intval(av[1])
            v = None
            if not m.group(3):
                v = self.load(st, av[-1], Ty("double") if t == "double" else Ty("float") if t == "float" else int_ty(8 * sz))
            if self.opts["bounds"] and not self.pure and p.r.length is not None:
                L = p.r.length(p.keys) if callable(p.r.length) else p.r.length
                self.oblige(st, "bounds", f"block fill stays inside {p.r.name}", bor(simp(smt(n) <= 0), band(smt(idx) >= 0, smt(iadd(idx, n)) <= smt(L))))
            self.fill_arr(st, p, idx, n, v, tk if v is not None else None)
            return [(st, "ret", None if m.group(4) else p.plus(lin_of(imul(n, sz))))]
        m = re.match(r"(?:void |.*& )?std::vector<(.*)>::(push_back|emplace_back)", d)
        if m: return self.push_back(st, name, d, av, rty)
        return None

    def size_by_name(self, t):
        t = t.strip()
        if t.endswith("*"): return 8
        k = {"double": 8, "float": 4, "int": 4, "unsigned int": 4, "long": 8, "unsigned long": 8, "char": 1, "bool": 1}.get(t)
        if k: return k
        for k in ("struct.", "class."):
            if k + t in self.mod.types: return self.mod.size(Ty("named", name=k + t))
        return None

    def push_back(self, st, name, d, av, rty):
        """append to a vector of scalars: storage is taken to be large enough (growth not modelled)"""
        m = re.search(r"std::vector<(double|int|unsigned int|unsigned long|long|float|bool|char)[,>]", d)
        if m and m.group(1) == "bool": return None
        ety = None
        if m:
            ety = {"double": DOUBLE, "float": FLOAT, "int": int_ty(32), "unsigned int": int_ty(32), "long": int_ty(64), "unsigned long": int_ty(64), "char": int_ty(8)}[m.group(1)]
            sz = self.mod.size(ety)
        else:
            m = re.search(r"std::vector<((?:mocc::)?[\w:]+)[,>]", d)
            if not m or "emplace_back" in d and not re.search(r"emplace_back<" + m.group(1) + r"(?: const&|&)?>", d): return None
            sz = self.size_by_name(m.group(1))
            if sz is None: return None
        v = av[0]
        start = self.load(st, v, PTR); fin = self.load(st, v.plus(Lin(8)), PTR)
        if start is NULL or start is UNDEF:
            r = Region("vecbuf", "arr", sz); start = Ptr(r); fin = start
            self.store(st, v, start, PTR)
        if len(av) > 1:
            # emplace_back(x&) may carry another scalar type
            src = av[1]
            x = self.load(st, src, ety) if isinstance(src, Ptr) and ety is not None else src
        elif ety is None: return None
        else: x = self.const(("zero",), ety)
        if fin.r.kind == "obj":
            # storage of known size: move to a growable region
            r = Region("vecbuf", "arr", sz)
            n = isub(fin.off.expr(), start.off.expr())
            if is_z3(n): raise Bail("push_back on fixed storage")
            if ety is None:
                for i in range(n // sz): self.memcpy(st, Ptr(r, (), Lin(i * sz)), start.plus(Lin(i * sz)), sz)
            else:
              for i in range(n // sz):
                self.store(st, Ptr(r, (), Lin(i * sz)), self.load(st, start.plus(Lin(i * sz)), ety), ety)
            start = Ptr(r); fin = Ptr(r, (), Lin(n)); self.store(st, v, start, PTR)
        fin.r.length = None; fin.r.nbytes = None
        if fin.r.stride is None: fin.r.stride = sz
        if ety is None: self.memcpy(st, fin, x, sz)
        else: self.store(st, fin, x, ety)
        nf = fin.plus(Lin(sz))
        self.store(st, v.plus(Lin(8)), nf, PTR)
        self.store(st, v.plus(Lin(16)), nf, PTR)
        t = self.mod.resolve(rty)
        return [(st, "ret", fin if t.k == "ptr" else None)]

    # ------------------------------------------------------------------ contract language
    def pure_eval(self, st, name, args):
        """evaluate a side-effect free function in a state: merged value"""
        base = len(st.pc)
        s0 = st.copy()
        self.pure += 1
        rec = self.record; self.record = False
        try:
            res = self.call_fn(s0, name, args)
        finally:
            self.pure -= 1; self.record = rec
        vals = []
        for s, kind, v in res:
            if kind != "ret": continue
            vals.append((band(*[simp(c) for c in s.pc[base:]]), v))
        if not vals: raise Bail("specification function never returns")
        vals = [(c, (False if isinstance(v, Undef) else v)) for c, v in vals]
        r = self.merge(vals)
        return r

    def thunk(self, st, f, env, nargs):
        if not isinstance(f, FnPtr): raise Bail("thunk")
        def go(*js):
            s = st.copy()
            return self.pure_eval(s, f.name, [env] + list(js))
        return go

    def quant(self, st, kind, lo, hi, f, env):
        lo, hi = self.intval(lo), self.intval(hi)
        if is_z3(lo): lo = back(z3.simplify(lo)) if z3.is_int_value(z3.simplify(lo)) else lo
        if is_z3(hi): hi = back(z3.simplify(hi)) if z3.is_int_value(z3.simplify(hi)) else hi
        g = self.thunk(st, f, env, 1)
        if not is_z3(lo) and not is_z3(hi) and hi - lo <= 40:
            vs = [g(j) for j in range(lo, hi)]
            if kind == "all": return band(*[simp(v) for v in vs])
            acc = Fraction(0) if kind == "sumr" else 0
            for v in vs: acc = radd(acc, self.fval(v)) if kind == "sumr" else iadd(acc, self.intval(v))
            return acc
        def body(off):
            def h(bv):
                s = st.copy()
                j = bv if off is None else iadd(off, bv)
                s.assume(bv >= (0 if off is not None else lo)); s.assume(smt(j) < smt(hi))
                r = self.pure_eval(s, f.name, [env, j])
                return r
            return h
        if kind == "all":
            return mk_all(lo, hi, body(None))
        return self.sum_term(lo, hi, lambda bv: self.sumbody(st, f, env, lo, hi, bv, kind))
    def sum_term(self, lo, hi, fb):
        mk_sum.depth += 1
        try:
            bv = z3.Int(f"b!sum{mk_sum.depth}")
            b = smt(fb(bv))
        finally: mk_sum.depth -= 1
        return Closure.make("sum", b, bv, [isub(hi, lo)])
    def sumbody(self, st, f, env, lo, hi, bv, kind):
        s = st.copy(); j = iadd(lo, bv)
        s.assume(bv >= 0); s.assume(smt(j) < smt(hi))
        r = self.pure_eval(s, f.name, [env, j])
        if kind == "sumr": return smt(self.fval(r))
        return smt(self.intval(r))

    def tobool(self, c):
        if isinstance(c, bool): return c
        if is_z3(c) and z3.is_bool(c): return c
        if is_z3(c): return c != 0
        if isinstance(c, Undef): raise Bail("undef condition")
        return c != 0

    def intrinsic(self, st, name, av, tys, rty):
        R_ = lambda v=None: [(st, "ret", v)]
        if name == "vf_assume":
            c = self.tobool(av[0])
            if is_z3(c): c2 = simp(c)
            else: c2 = c
            if c2 is False: return []
            if not isinstance(c2, bool):
                st.assume(c)
                if not self.feasible(st, True if False else z3.BoolVal(True)): return []
            return R_()
        if name == "vf_assert":
            self.oblige(st, "post", self.cstr(av[1], st), self.split_goal(self.tobool(av[0])))
            return R_()
        if name == "vf_cover":
            if not self.pure and self.record:
                o = Obl("cover", self.cstr(av[0], st), list(st.pc), False, self.curfn[-1], [], list(st.inputs), 0); self.obls.append(o)
            return R_()
        if name == "vf_int_":
            nm = self.cstr(av[0], st); x = self.input_sym(st, nm, I)
            st.assume(x >= smt(av[1]))
            if av[3] is True or (not is_z3(av[3]) and av[3]): st.assume(x <= smt(av[2]))
            return R_(x)
        if name == "vf_real_":
            nm = self.cstr(av[0], st); x = self.input_sym(st, nm, R)
            lo, hi, mode = av[1], av[2], av[3]
            if mode & 1: st.assume(x > smt(lo) if mode & 4 else x >= smt(lo))
            if mode & 2: st.assume(x <= smt(hi))
            return R_(x)
        if name == "vf_bool_":
            nm = self.cstr(av[0], st); x = self.input_sym(st, nm, B); return R_(x)
        if name == "vf_buffer_":
            nm = self.cstr(av[0], st); n = self.intval(av[1]); sz = av[2]
            r = Region(self.uniq(st, nm), "arr", sz, lazy=True, length=n)
            r.elem = {1: ("d",), 2: ("i", 32), 3: ("i", 64)}.get(av[3])
            st.inputs.append(("buf", nm, r, n, sz))
            return R_(Ptr(r))
        if name == "vf_scratch_":    # uninitialised storage of n elements
            nm = self.cstr(av[0], st); n = self.intval(av[1]); sz = av[2]
            r = Region(self.uniq(st, nm), "arr", sz, lazy=True, length=n)
            return R_(Ptr(r))
        if name == "vf_object_":
            nm = self.cstr(av[0], st)
            r = Region(self.uniq(st, nm), "obj", lazy=True, size=av[1])
            return R_(Ptr(r))
        if name == "vf_raw_":         # uninitialised object
            nm = self.cstr(av[0], st)
            r = Region(self.uniq(st, nm), "obj", lazy=True, size=av[1])
            return R_(Ptr(r))
        if name == "vf_frame_":       # the first or last local variable or by-value parameter of a size in the functions being executed
            for p in (reversed(self.frame) if av[1] else self.frame):
                if p.r.size == av[0]: return R_(p)
            return R_(NULL)
        if name == "vf_family_":
            # (ptr outer, long field offset, name, inner elem size, len fn, env): pointer members of the elements of outer
            outer, foff, nm, sz, lf, env = av
            nm = self.cstr(nm, st)
            base = outer.r
            fam = Region(self.uniq(st, nm), "arr", sz, nkeys=base.nkeys + 1, lazy=True)
            g = self.thunk(st.copy(), lf, env, base.nkeys + 1)
            def ln(keys): return self.intval(g(*[k if not is_z3(k) else k for k in keys]))
            fam.length = ln
            fam.lenfn = ln
            foff = foff + outer.off.c
            base.ptrfields[foff] = lambda eng, s, key: Ptr(fam, tuple(key))
            base.ptrfields[foff + 8] = lambda eng, s, key: Ptr(fam, tuple(key), lin_of(ln(tuple(key)), sz))
            base.ptrfields[foff + 16] = base.ptrfields[foff + 8]
            return R_()
        if name == "vf_snapshot_":
            p = av[0]
            if p is NULL: return R_(NULL)
            r = Region(p.r.name + "'", p.r.kind, p.r.stride, p.r.nkeys, p.r.lazy, p.r.length, p.r.size)
            r.ptrfields = p.r.ptrfields
            if p.r.kind == "arr" and p.r.lazy:
                # materialise the scalar field readings so that the copy shares them
                pass
            rs = self.rs(st, p.r).copy()
            r.snap_of = p.r
            st.mem[r.id] = rs
            r.name = r.name
            if p.r.lazy: self.share_lazy(r, p.r)
            return R_(Ptr(r, p.keys, p.off))
        if name == "vf_havoc_":
            # (ptr, lo, hi, elemsize-kind): elements lo..hi-1 of the buffer take arbitrary values
            p, lo, hi = av[0], self.intval(av[1]), self.intval(av[2])
            self.havoc_range(st, p, lo, hi); return R_()
        if name == "vf_forall_": return R_(self.quant(st, "all", av[0], av[1], av[2], av[3]))
        if name == "vf_sumr_": return R_(self.quant(st, "sumr", av[0], av[1], av[2], av[3]))
        if name == "vf_sumi_": return R_(self.quant(st, "sumi", av[0], av[1], av[2], av[3]))
        if name == "vf_hint_":
            # (function name substring, depth, kind, fn, env)
            st.hints.append((self.cstr(av[0], st), av[1], av[2], av[3], av[4]))
            return R_()
        if name == "vf_loose_":      # the contracts fix more than the property does (order of calls): refutations are not exact
            st.abstract += 1; return R_()
        if name == "vf_may_throw":
            st.may_throw.append(self.tobool(av[0])); return R_()
        if name == "vf_term_":
            t = self.intval(av[0])
            if is_z3(t): st.terms.append(t)
            else: st.terms.append(z3.IntVal(t))
            return R_()
        if name == "vf_throws_":
            # run fn(env); returns whether it throws (forks)
            f, env = av
            out = []
            for s, k, v in self.call_fn(st, f.name, [env]):
                out.append((s, "ret", k == "throw"))
            return out
        if name == "vf_symbolic": return R_(True)
        if name == "vf_implies_": 
            return R_(implies(self.tobool(av[0]), self.tobool(av[1])))
        if name == "vf_and_": return R_(band(self.tobool(av[0]), self.tobool(av[1])))
        if name == "vf_or_": return R_(bor(self.tobool(av[0]), self.tobool(av[1])))
        if name == "vf_iter_": return R_(ite(self.tobool(av[0]), self.fval(av[1]), self.fval(av[2])))
        if name == "vf_itei_": return R_(ite(self.tobool(av[0]), self.intval(av[1]), self.intval(av[2])))
        if name == "vf_eq_":
            a, b = self.fval(av[0]), self.fval(av[1])
            return R_(simp(smt(a) == smt(b)) if is_z3(a) or is_z3(b) else a == b)
        if name == "vf_lemma_mono_": return R_()
        if name == "vf_div_": return R_(self.isqd(st, av[0], av[1], 64, True, False))
        if name == "vf_mod_" and self.opts.get("wrap") and not is_z3(av[1]): return R_(self.mod_nf(av[0], av[1] % (1 << 64)))
        if name == "vf_mod_": return R_(self.isqd(st, av[0], av[1], 64, True, True))
        if name == "vf_note_": return R_()
        raise Bail("unknown intrinsic " + name)

    def share_lazy(self, r, src):
        r.lazyptr = src.lazyptr; r.lazyval = src.lazyval
        r.alias_name = getattr(src, "alias_name", src.name)
    def arr_name(self, r, foff, tk):
        return f"{getattr(r, 'alias_name', r.name)}@{foff}{tk[0]}{tk[1] if len(tk) > 1 else ''}"

    def split_goal(self, g): return g

    def uniq(self, st, nm): return nm
    def input_sym(self, st, nm, sort):
        n = sum(1 for x in st.inputs if x[0] == "var" and x[1] == nm)
        s = z3.Const(f"in.{nm}" + (f".{n}" if n else ""), sort)
        if self.pure: return fresh(nm, sort)
        st.inputs.append(("var", nm, s))
        return s

    def havoc_range(self, st, p, lo, hi):
        if p.r.kind == "obj":
            for o in list(self.rs(st, p.r).cells):
                pass
            raise Bail("havoc of object")
        rs = self.rs(st, p.r).copy(); st.mem[p.r.id] = rs
        idx, foff = self.arr_index(p)
        keys = list(rs.arrs) or [(0, ("d",)), ]
        dks = [smt(x) for x in p.keys]
        a_, b_ = iadd(idx, lo), iadd(idx, hi)
        for key in keys:
            if key[1][0] == "p": continue
            da = self.arr_get(st, p.r, rs.arrs, key[0], key[1])
            na = self.arr_new(f"{p.r.name}@{key[0]}{key[1][0]}h!{fresh_id()}", p.r.nkeys + 1, key[1])
            st.assume(mk_all(-self.BIG, self.BIG, lambda m: z3.Implies(z3.Or(m < smt(a_), m >= smt(b_)), z3.Select(na, *(dks + [m])) == z3.Select(da, *(dks + [m])))))
            if len(dks) == 1:
                st.assume(mk_all(-self.BIG, self.BIG, lambda q: mk_all(-self.BIG, self.BIG, lambda m: z3.Implies(q != dks[0], z3.Select(na, q, m) == z3.Select(da, q, m)))))
            elif dks: raise Bail("deep keyed havoc")
            rs.arrs[key] = na
            st.wlog.add((p.r.id, "a", key[0], key[1]))

    # ------------------------------------------------------------------ loops
    def handle_loop(self, fn, h, st, env, pred):
        L = fn.loops[h]
        exiting = [b for b in L["blocks"] if any(s not in L["blocks"] and s not in fn.doomed for s in fn.blocks[b].succ)]
        if h in exiting: ctl = {h}
        else: ctl = {b for b in exiting if all(fn.dom(b, l) for l in L["latches"])}
        saved = len(self.obls)
        try:
            exits, rets = [], []
            items = [(st.copy(), dict(env), pred)]
            for it in range(self.opts["unroll"] + 1):
                if not items: 
                    self.stats["unrolled"] += 1
                    return exits, rets
                if it == self.opts["unroll"] or len(items) > 150: raise NeedCut()
                ex, items, rt = self.run_region(fn, [(s, e, h, p) for s, e, p in items], L["blocks"], h, ctl)
                exits += ex; rets += rt
        except NeedCut:
            del self.obls[saved:]
        return self.cut_loop(fn, L, st, env, pred)

    # slots: ('phi', name) | ('c', rid, off) | ('a', rid, foff, tk) | ('e', rid, lo, foff, tk)
    def slot_get(self, slot, st, env, size=None):
        if slot[0] == "phi": return env[slot[1]]
        rs = self.rs(st, Region.table[slot[1]])
        if slot[0] == "c":
            c = rs.cells.get(slot[2])
            return c[1] if c is not None else None
        if slot[0] == "a": return rs.arrs.get((slot[2], slot[3]))
        for lo, hi, s, a in rs.emb:
            if lo == slot[2]: return a.get((slot[3], slot[4]))
        return None
    def slot_set(self, slot, st, env, v, size=None):
        if slot[0] == "phi": env[slot[1]] = v; return
        r = Region.table[slot[1]]
        rs = self.rs(st, r).copy(); st.mem[r.id] = rs
        if slot[0] == "c":
            if v is None: rs.cells.pop(slot[2], None)
            else: rs.cells[slot[2]] = (size, v)
        elif slot[0] == "a": rs.arrs[(slot[2], slot[3])] = v
        else:
            out = []
            for lo, hi, s, a in rs.emb:
                if lo == slot[2]: a = dict(a); a[(slot[3], slot[4])] = v
                out.append((lo, hi, s, a))
            rs.emb = tuple(out)

    def fresh_like(self, v, name):
        if isinstance(v, bool) or (is_z3(v) and z3.is_bool(v)): return fresh(name, B)
        if isinstance(v, int) or (is_z3(v) and z3.is_int(v)): return fresh(name, I)
        if isinstance(v, Fraction) or (is_z3(v) and z3.is_real(v)): return fresh(name, R)
        if is_z3(v) and z3.is_array(v): return fresh(name, v.sort())
        if isinstance(v, Parts): return Parts([(b, fresh(name, I)) for b, _ in v.ps])
        if isinstance(v, Raw): return Raw(fresh(name, R))
        if isinstance(v, list): return [self.fresh_like(x, name) for x in v]
        return UNDEF

    def step_of(self, head, latch, marks):
        """constant difference latch-head, or None"""
        if isinstance(latch, Ptr) and isinstance(head, Ptr):
            if latch.r is not head.r or len(latch.keys) != len(head.keys) or not all(smt(a).eq(smt(b)) for a, b in zip(latch.keys, head.keys)): return None
            d = latch.off.add(head.off.neg()).expr()
            if is_z3(d) and (sym_ids(d) & marks or any(i > self.loop_mark for i in sym_ids(d))): return None
            return d
        isint = lambda x: (isinstance(x, int) and not isinstance(x, bool)) or (is_z3(x) and z3.is_int(x))
        if isint(latch) and isint(head):
            d = isub(latch, head)
            if is_z3(d):
                d2 = simp(d)
                if not is_z3(d2): return d2
                if sym_ids(d) & marks or any(i > self.loop_mark for i in sym_ids(d)): return None
            return d
        if self.same_val(head, latch): return 0
        return None

    def apply_step(self, v0, step, k):
        if not is_z3(step) and step == 0: return v0
        if isinstance(v0, Ptr):
            if is_z3(step): return v0.plus(lin_of(imul(step, k)))
            return v0.plus(Lin(0, ((k, step, None),)))
        return iadd(v0, imul(step, k))

    def cut_loop(self, fn, L, st, env, pred):
        h = L["header"]
        self.stats["loops"] += 1
        name = f"{self.short(fn.name)}:{h}"
        rec = self.record
        mark_outer = getattr(self, "loop_mark", None)
        mark = fresh_id()
        lreg = Region.n
        k = fresh("k", I); kid = int(k.decl().name().split("!")[1])
        phis = [i for i in fn.blocks[h].insts if i.op == "phi"]
        init = {}
        for p in phis:
            for v, bb in p.a:
                if bb == pred: init[("phi", p.res)] = self.val(v, p.ty, env)
        slots = list(init)
        sizes = {}
        sym = {}
        steps = {s: None for s in slots}     # None unknown ; 'undef' ; value
        for s in slots:
            if isinstance(init[s], (Ptr, NullT, FnPtr)): steps[s] = 0
        base = st
        def mkhead():
            s = base.copy(); e = dict(env)
            s.assume(k >= 0)
            s.wlog = set()
            s.ctrs = base.ctrs + [k]
            for sl in slots:
                v0 = init[sl]; stp = steps[sl]
                if isinstance(stp, str): v = UNDEF
                elif stp is not None: v = self.apply_step(v0, stp, k)
                else:
                    if sl not in sym:
                        sym[sl] = self.fresh_like(v0, "h." + ("%s" % (sl[1],) if sl[0] == "phi" else f"{Region.table[sl[1]].name}.{sl[2]}"))
                    v = sym[sl]
                    s.abstract += 0
                self.slot_set(sl, s, e, v, sizes.get(sl))
            e["__skip"] = (("phi", h),)
            return s, e
        def symmarks():
            m = {kid}
            for sl in slots:
                if sl in sym and steps[sl] is None:
                    vs = sym[sl]
                    for x in (vs if isinstance(vs, list) else [p for _, p in vs.ps] if isinstance(vs, Parts) else [vs]):
                        if is_z3(x): m |= sym_ids(x)
            return m
        def body(record, cands):
            s, e = mkhead()
            for nm, f in cands:
                try: s.assume(simp(f))
                except Exception: raise
            self.record = record
            self.dry = getattr(self, "dry", 0) + 1
            try: return s, e, self.run_region(fn, [(s.copy(), dict(e), h, pred)], L["blocks"], h, ())
            finally: self.dry -= 1
        try:
            dry = None
            for rnd in range(14):
                saved = len(self.obls)
                self.record = False
                self.loop_mark = mark
                marks = symmarks()
                s, e, (ex, la, rt) = body(False, [])
                marks = symmarks()
                changed = False
                # newly modified memory
                self.loop_region = lreg
                wl = set()
                for x, _, _ in la: wl |= x.wlog
                for w in sorted(wl, key=str):
                    r = Region.table[w[0]]
                    if not self.region_live(r, base): continue
                    sl = (w[1],) + (w[0],) + w[2:]
                    if sl in steps: continue
                    if sl[0] == "e" and not any(lo == sl[2] for lo, _, _, _ in self.rs(base, r).emb):
                        for x, _, _ in la:
                            for lo, hi, sd, a in self.rs(x, r).emb:
                                if lo == sl[2]: self.emb(base, r, lo, sd, (hi - lo) // sd); break
                            break
                    v0 = self.slot_get(sl, base, env)
                    if v0 is None:
                        # materialise from the latch type
                        for x, _, _ in la:
                            rsx = self.rs(x, r)
                            if sl[0] == "c":
                                c = rsx.cells.get(sl[2])
                                if c is None: continue
                                sizes[sl] = c[0]
                                if r.lazy and not isinstance(c[1], (Ptr, NullT, FnPtr)):
                                    tk = ("d",) if isinstance(c[1], Fraction) or (is_z3(c[1]) and z3.is_real(c[1])) else ("i", c[0] * 8)
                                    v0 = self.cell_load(base, r, sl[2], c[0], tk)
                                    if isinstance(v0, Parts): v0 = c[1]
                                else:
                                    v0 = self.fresh_like(c[1], "uninit")
                                break
                            elif sl[0] == "a":
                                v0 = self.arr_get(base, r, self.rs(base, r).arrs, sl[2], sl[3]); break
                            else:
                                for lo, hi, sd, a in self.rs(base, r).emb:
                                    if lo == sl[2]: v0 = self.arr_get(base, r, a, sl[3], sl[4], f"{r.name}.{lo}", 1)
                                break
                        if v0 is None: continue
                        self.slot_set(sl, base, env, v0, sizes.get(sl))
                    elif sl[0] == "c": sizes[sl] = self.rs(base, r).cells[sl[2]][0]
                    if isinstance(v0, tuple): raise Bail("pointer table modified in loop")
                    init[sl] = v0; slots.append(sl)
                    steps[sl] = 0 if isinstance(v0, (Ptr, NullT, FnPtr)) else ("undef" if isinstance(v0, Undef) else None)
                    changed = True
                if changed: continue
                # steps
                for sl in slots:
                    if isinstance(steps[sl], str): continue
                    hv = self.slot_get(sl, s, e)
                    ds = []
                    for x, xe, xp in la:
                        lv = self.latch_val(fn, h, sl, x, xe, xp)
                        if lv is None: ds.append("none"); continue
                        ds.append(self.step_of(hv, lv, marks))
                    if not ds: continue
                    ok = all(d is not None and not (isinstance(d, str)) for d in ds) and all(self.same_val(d, ds[0]) for d in ds)
                    if ok and not (is_z3(ds[0]) and z3.is_array(smt(ds[0]))):
                        if steps[sl] is None or not self.same_val(steps[sl], ds[0]):
                            if steps[sl] is not None and not (not is_z3(steps[sl]) and steps[sl] == 0 and isinstance(init[sl], (Ptr,))):
                                steps[sl] = None if not isinstance(init[sl], (Ptr, NullT, FnPtr)) else "undef"
                                self.nolin = getattr(self, "nolin", set()); 
                            else: steps[sl] = ds[0]
                            changed = True
                    else:
                        if steps[sl] is not None:
                            steps[sl] = "undef" if isinstance(init[sl], (Ptr, NullT, FnPtr)) else None
                            changed = True
                if not changed: break
            else: raise Bail(f"loop analysis did not converge in {name}")
            if not la:
                # body never completes an iteration under the head state: execute once
                pass
            # ---------------- candidates
            cands = self.candidates(fn, h, L, slots, steps, init, sym, k, kid, mark, base, env, s, e, la, name)
            def view_init():
                e0 = dict(env)
                for sl in slots:
                    if sl[0] == "phi": e0[sl[1]] = init[sl]
                b = base.copy(); b.ctrs = base.ctrs + [0]
                return View(self, b, e0, 0, lambda sl: init[sl])
            def view_latch(x, xe, xp):
                return View(self, x, xe, iadd(k, 1), lambda sl: self.latch_val(fn, h, sl, x, xe, xp))
            self.record = False
            good = []; defd = set()
            vi = view_init()
            for nm, f in cands:
                # a stated invariant that holds on entry replaces the inferred array facts
                if getattr(f, "inferred", False) and any(n2 == "hint" for n2, _ in good): continue
                try: g = f(vi)
                except Bail as b:
                    if self.opts["verbose"] and nm.startswith("hint"): print("   no value", name, nm, b)
                    continue
                if g is None: continue
                if getattr(f, "gen", 0) in defd: continue
                if getattr(f, "unless", None) is not None and any(x is f.unless for _, x in good): continue
                if nm.startswith("hint-acc"):
                    r = self.quick_ground(base.pc, g, base.terms)
                    if r: good.append((nm, f)); defd.add(f.slot)
                    elif self.opts["verbose"]: print("   not initial", name, nm, g)
                    continue
                if self.quick(base.pc, g, base.terms): good.append((nm, f))
                elif self.opts["verbose"] and nm.startswith("hint"): print("   not initial", name, nm, g)
            def define(s, e, good):
                """slots with a candidate closed form become that expression; the candidates used"""
                defined = {}
                for i, (nm, f) in enumerate(good):
                    sl = getattr(f, "slot", None)
                    if sl is None or sl in defined or sl[0] not in ("phi", "c"): continue
                    try: v = f.value(s, k)
                    except Bail: v = None
                    if v is None: continue
                    self.slot_set(sl, s, e, v, sizes.get(sl)); defined[sl] = i
                return defined
            for rnd in range(24):
                s, e = mkhead()
                used = define(s, e, good)
                vh = View(self, s, e, k, lambda sl: self.slot_get(sl, s, e))
                forms = []
                ok = []
                for nm, f in good:
                    try: forms.append((nm, f(vh))); ok.append((nm, f))
                    except Bail: pass
                if len(ok) < len(good):
                    good = ok; continue
                if not good: break
                for nm, g in forms: s.assume(simp(g) if isinstance(simp(g), bool) else g)
                saved = len(self.obls)
                _, la2, _ = self.run_region(fn, [(s.copy(), dict(e), h, pred)], L["blocks"], h, ())
                bad = set()
                for x, xe, xp in la2:
                    v = view_latch(x, xe, xp)
                    for i, (nm, f) in enumerate(good):
                        if i in bad: continue
                        try: g = f(v)
                        except Bail: bad.add(i); continue
                        if not self.quick(x.pc, g, x.terms): bad.add(i)
                if not bad: break
                alt = {i for sl, i in used.items() if i in bad and any(j != i and getattr(f, "slot", None) == sl for j, (_, f) in enumerate(good))}
                if alt: bad = alt      # a wrong definition may be what failed the others
                if self.opts["verbose"]: print("   houdini drop", name, [good[i][0] for i in bad])
                good = [c for i, c in enumerate(good) if i not in bad]
            else: raise Bail("invariant filtering did not converge in " + name)
            # ---------------- final run
            self.record = rec
            s, e = mkhead()
            vh = View(self, s, e, k, lambda sl: self.slot_get(sl, s, e))
            s.abstract += sum(1 for sl in slots if steps[sl] is None)
            used = set(define(s, e, good).values())     # proved closed forms
            for i, (nm, f) in enumerate(good):
                if i in used: continue
                g = f(vh)
                s.assume(simp(g) if isinstance(simp(g), bool) else g)
            ex, la, rt = self.run_region(fn, [(s.copy(), dict(e), h, pred)], L["blocks"], h, ())
            for x, xe, xt, xp in ex: self.resolve_count(x, xe, k, kid, len(s.pc), slots, steps, init, sizes)
            if rec:
                self.stats["loops_cut"].append((name, [nm for nm, f in good]))
            if self.opts["verbose"] and rec: print("loop", name, "slots", [(sl[:3], str(steps[sl])) for sl in slots], "inv", [nm for nm, f in good])
            mods = {(sl[1], sl[0]) + sl[2:] for sl in slots if sl[0] != "phi"}
            for x, xe, xt, xp in ex:
                x.wlog |= base.wlog | mods; x.ctrs = list(base.ctrs)
            for x, kind, v in rt:
                x.wlog |= base.wlog | mods; x.ctrs = list(base.ctrs)
            return ex, rt
        finally:
            self.record = rec
            self.loop_mark = mark_outer if mark_outer is not None else 1 << 60

    def resolve_count(self, x, xe, k, kid, npc, slots, steps, init, sizes):
        """on a loop exit, replace the iteration count by the bound it provably equals"""
        for c in x.pc[npc:]:
            if kid not in sym_ids(c): continue
            cc = c
            while z3.is_not(cc): cc = cc.arg(0)
            if not (z3.is_eq(cc) or z3.is_le(cc) or z3.is_ge(cc) or z3.is_lt(cc) or z3.is_gt(cc)) or not z3.is_int(cc.arg(0)): continue
            d = z3.simplify(cc.arg(0) - cc.arg(1), som=True)
            d0 = z3.simplify(z3.substitute(d, (k, z3.IntVal(0))), som=True)
            d1 = z3.simplify(z3.substitute(d, (k, z3.IntVal(1))) - d0, som=True)
            if not z3.is_int_value(d1) or d1.as_long() == 0 or kid in sym_ids(d0): continue
            co = d1.as_long()
            if not z3.simplify(d - d0 - co * k, som=True).eq(z3.IntVal(0)): continue
            q = []
            for m in (d0.children() if z3.is_add(d0) else [d0]):
                f, rest = (m.arg(0).as_long(), list(m.children()[1:])) if z3.is_mul(m) and z3.is_int_value(m.arg(0)) else (m.as_long(), []) if z3.is_int_value(m) else (1, [m])
                if f % co: q = None; break
                t = z3.IntVal(-f // co)
                for y in rest: t = t * y
                q.append(t)
            if q is None: continue
            K0 = z3.Sum(q) if len(q) > 1 else q[0]
            for K in (z3.simplify(K0, som=True), z3.simplify(K0 + 1, som=True)):
                if not self.quick(x.pc, k == K, x.terms): continue
                kv = back(K)
                sub = lambda v: back(z3.substitute(v, (k, K))) if is_z3(v) and kid in sym_ids(v) else v
                for nm in list(xe):
                    if is_z3(xe[nm]): xe[nm] = sub(xe[nm])
                for sl in slots:
                    if sl[0] == "phi":
                        if isinstance(xe.get(sl[1]), Ptr) and not isinstance(steps[sl], str) and steps[sl] is not None and xe[sl[1]].r is init[sl].r:
                            if self.same_val(xe[sl[1]], self.apply_step(init[sl], steps[sl], k)): xe[sl[1]] = self.apply_step(init[sl], steps[sl], kv)
                        continue
                    v = self.slot_get(sl, x, xe)
                    if is_z3(v): self.slot_set(sl, x, xe, sub(v), sizes.get(sl))
                x.assume(k == K)
                return

    def region_live(self, r, base):
        """was the region known before the loop?"""
        return r.id in base.mem or r.lazy or r.id <= self.loop_region

    def latch_val(self, fn, h, sl, x, xe, xp):
        if sl[0] == "phi":
            for p in fn.blocks[h].insts:
                if p.op != "phi": break
                if p.res == sl[1]:
                    for v, bb in p.a:
                        if bb == xp: return self.val(v, p.ty, xe)
            return None
        return self.slot_get(sl, x, xe)

    def quick_ground(self, pc, g, terms):
        """does g follow from the ground facts, or from the quantified ones about its own arrays?"""
        g = simp(g)
        if isinstance(g, bool): return g
        s, _ = self.base_solver([f for f in pc if not self.has_closure(f)], 400, (), g)
        if not self.has_closure(g) and s.check() == z3.unsat: return True
        rel = set(self.arrays_of(g))
        sub = [f for f in pc if not self.has_closure(f) or self.arrays_of(f) & rel]
        s, fs = self.base_solver(sub, 600, terms, g)
        return self.uf_unsat(fs) or s.check() == z3.unsat

    def quick(self, pc, g, terms):
        r = self.prove(pc, g, self.opts["cand_ms"], terms, quick=True)
        return r[0] == "unsat"

    def candidates(self, fn, h, L, slots, steps, init, sym, k, kid, mark, base, env, hs, he, la, name):
        out = []
        dry = getattr(self, "dry", 0) > 0      # inside the dry run of an enclosing loop
        # user supplied hints
        plain = False          # no guesses about integers in memory
        depth = len(base.ctrs) + 1
        for fnsub, dep, kind, f, envp in ([] if dry else base.hints):
            if fnsub and fnsub not in self.dem.get(fn.name, fn.name): continue
            if dep and dep != depth: continue
            if kind == 9: plain = True; continue
            if kind == 0:
                def mk(f=f, envp=envp, dep=dep):
                    def c(v):
                        b = base.ctrs
                        s = v.st.copy(); s.assume(smt(v.k) >= 0)
                        args = (list(base.ctrs) + [v.k])
                        args = args[-dep:] if dep else args[-1:]
                        return self.tobool(self.pure_eval(s, f.name, [envp] + args))
                    return c
                out.append(("hint", mk()))
            else:
                for sl in slots:
                    if steps[sl] is not None or sl[0] in ("a", "e"): continue
                    v0 = init[sl]
                    isr = isinstance(v0, Fraction) or (is_z3(v0) and z3.is_real(v0))
                    isi = not isr and not isinstance(v0, bool) and (isinstance(v0, int) or (is_z3(v0) and z3.is_int(v0)))
                    if (kind == 1 and isr) or (kind == 2 and isi):
                        def mk(f=f, envp=envp, sl=sl, dep=dep):
                            def c(v):
                                args = (list(base.ctrs) + [v.k])
                                args = args[-dep:] if dep else args[-1:]
                                s = v.st.copy(); s.assume(smt(v.k) >= 0)
                                return self.tobool(self.pure_eval(s, f.name, [envp] + args + [v.get(sl)]))
                            return c
                        c = mk()
                        # "v == expression": usable as a definition of the slot
                        def value(s, kk, f=f, envp=envp, sl=sl, dep=dep, isr=isr):
                            p = fresh("probe", R if isr else I)
                            args = (list(base.ctrs) + [kk])
                            args = args[-dep:] if dep else args[-1:]
                            s = s.copy(); s.assume(smt(kk) >= 0)
                            g = self.tobool(self.pure_eval(s, f.name, [envp] + args + [p]))
                            if not is_z3(g) or not z3.is_eq(g): return None
                            for a, b in ((g.arg(0), g.arg(1)), (g.arg(1), g.arg(0))):
                                if a.eq(p) and p.get_id() not in sym_ids(b): return back(b)
                            return None
                        c.slot = sl if sl[0] in ("phi", "c") else None
                        c.value = value
                        out.append((f"hint-acc({sl[1]})", c))
        # integer slots without closed form
        for sl in slots:
            if steps[sl] is not None or sl[0] in ("a", "e") or (plain and sl[0] == "c"): continue
            v0 = init[sl]
            if isinstance(v0, bool) or isinstance(v0, (Undef, Parts, Raw, list)): continue
            if isinstance(v0, int) or (is_z3(v0) and z3.is_int(v0)):
                for nm, f in ((">=init", lambda v, sl=sl, v0=v0: smt(v.get(sl)) >= smt(v0)),
                              ("<=init", lambda v, sl=sl, v0=v0: smt(v.get(sl)) <= smt(v0)),
                              ("<=init+k", lambda v, sl=sl, v0=v0: smt(v.get(sl)) <= smt(v0) + smt(v.k))):
                    f.gen = sl
                    out.append((f"{sl[1]}{nm}", f))
        # guard of the previous iteration
        marks = set()
        for sl in slots:
            if sl in sym and steps[sl] is None and is_z3(sym[sl]): marks |= sym_ids(sym[sl])
        common = None
        for x, xe, xp in la:
            ids = {c.get_id(): c for c in x.pc[len(hs.pc):]}
            common = ids if common is None else {i: c for i, c in common.items() if i in ids}
        for c in (common or {}).values():
            ids = sym_ids(c)
            if kid not in ids or ids & marks or any(i > mark and i != kid for i in ids): continue
            out.append((f"guard(k-1)", lambda v, c=c: True if (not is_z3(v.k) and v.k == 0) else z3.Or(smt(v.k) == 0, z3.substitute(c, (k, smt(isub(v.k, 1)))))))
            # disequality guards give bounds
            cc = c
            neg = False
            if z3.is_not(cc): cc = cc.arg(0); neg = True
            if z3.is_eq(cc) and z3.is_int(cc.arg(0)) or (z3.is_distinct(cc)):
                a, b = cc.arg(0), cc.arg(1)
                le = lambda v, a=a, b=b: z3.substitute(a <= b, (k, smt(v.k)))
                ge = lambda v, a=a, b=b: z3.substitute(a >= b, (k, smt(v.k)))
                ge.unless = le      # the other direction is only of use when the first does not start out true
                out.append(("le", le))
                out.append(("ge", ge))
        # accumulators and arrays
        def merged(sl):
            vs = []
            for x, xe, xp in la:
                lv = self.latch_val(fn, h, sl, x, xe, xp)
                if lv is None: return None
                vs.append((band(*x.pc[len(hs.pc):]), lv))
            return vs
        for sl in slots:
            if steps[sl] is not None: continue
            hv = self.slot_get(sl, hs, he); v0 = init[sl]
            if sl[0] in ("a", "e"):
                if dry: continue
                for nm, f in self.array_candidates(sl, hv, v0, merged(sl), k, kid, mark, marks, slots, steps, init):
                    f.inferred = True; out.append((nm, f))
                continue
            isr = isinstance(v0, Fraction) or (is_z3(v0) and z3.is_real(v0))
            isi = not isinstance(v0, bool) and (isinstance(v0, int) or (is_z3(v0) and z3.is_int(v0)))
            if not (isr or isi): continue
            vs = merged(sl)
            if not vs: continue
            t = None
            for c, lv in reversed(vs):
                d = smt(lv) - smt(hv)
                t = d if t is None else z3.If(c, d, t) if not isinstance(c, bool) else (d if c else t)
            t = z3.simplify(t)
            t = self.lift_hv(t, hv)
            ids = sym_ids(t)
            if ids & marks or any(i > mark and i != kid for i in ids): continue
            def acc(v, t=t, v0=v0, sl=sl):
                S = mk_sum(0, v.k, lambda j: z3.substitute(t, (k, smt(j))))
                return smt(v.get(sl)) == smt(v0) + S
            acc.slot = sl
            acc.value = lambda s_, kk, t=t, v0=v0: back(smt(v0) + mk_sum(0, kk, lambda j: z3.substitute(t, (k, smt(j)))))
            out.append((f"{sl[1]}=sum", acc))
        return out

    def lift_hv(self, t, hv):
        """(ite c (x - h) ((y+h) - h)) forms: arithmetic normalisation"""
        t = z3.simplify(t, som=True, hoist_ite=False)
        def go(e):
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE and not z3.is_bool(e):
                return z3.If(e.arg(0), go(e.arg(1)), go(e.arg(2)))
            return z3.simplify(e, som=True)
        # push ite outward: ite + rest
        if z3.is_add(t):
            ites = [x for x in t.children() if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE]
            rest = [x for x in t.children() if not (z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE)]
            if len(ites) == 1:
                r = z3.Sum(rest) if len(rest) > 1 else rest[0] if rest else None
                def push(e):
                    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE: return z3.If(e.arg(0), push(e.arg(1)), push(e.arg(2)))
                    return z3.simplify(e + r, som=True) if r is not None else e
                return push(ites[0])
        return go(t)

    def array_candidates(self, sl, A, A0, vs, k, kid, mark, marks, slots, steps, init):
        out = []
        if not vs: return out
        nk = A.sort().domain_n(0) if False else None
        aid = A.get_id()
        def stores(e):
            lst = []
            while z3.is_store(e):
                ch = e.children(); lst.append((ch[1:-1], ch[-1])); e = e.arg(0)
            return e, lst[::-1]
        idxs = {}
        opaque = False
        per = []
        for c, lv in vs:
            b, lst = stores(lv)
            if not b.eq(A): opaque = True
            d = {}
            for ks, v in lst:
                key = tuple(x.get_id() for x in ks)
                idxs[key] = ks; d[key] = v
            per.append((c, d, lv))
        nm = f"{Region.table[sl[1]].name}"
        arity = A.sort().domain_n if False else None
        okidx = lambda ks: not any((sym_ids(x) & (marks - sym_ids(A))) or any(i > mark and i != kid and i not in sym_ids(A) for i in sym_ids(x)) for x in ks) and not any(contains(x, A) for x in ks)
        if not opaque and idxs and all(okidx(ks) for ks in idxs.values()):
            # value written at each index
            for key, ks in idxs.items():
                val = None
                for c, d, lv in reversed(per):
                    v = d.get(key)
                    if v is None: v = z3.Select(lv, *ks)
                    val = v if val is None else z3.If(c, v, val) if not isinstance(c, bool) else (v if c else val)
                dep = any(kid in sym_ids(x) for x in ks)
                vids = sym_ids(val) - sym_ids(A)
                clean = not (vids & marks) and not any(i > mark and i != kid for i in vids)
                if dep and clean:
                    def c1(v, ks=ks, val=val, mode=0):
                        Ac = v.get(sl)
                        def at(j):
                            sub = [(k, smt(j))]
                            kk = [z3.substitute(x, *sub) for x in ks]
                            vv = z3.substitute(val, *(sub + [(A, Ac if mode == 0 else A0)]))
                            return z3.Select(Ac, *kk) == vv
                        return mk_all(0, v.k, at)
                    if contains(val, A):
                        out.append((f"{nm}[i]=v(old)", lambda v, c1=c1: c1(v, mode=1)))
                    out.append((f"{nm}[i]=v", c1))
                if not dep and clean:
                    # in-place accumulation
                    t = z3.simplify(val - z3.Select(A, *ks), som=True) if z3.is_arith(val) else None
                    if t is not None:
                        if contains(t, A):
                            t2 = z3.substitute(t, (A, A0))
                        else: t2 = t
                        if not contains(t, A):
                            out.append((f"{nm}[c]+=sum", lambda v, ks=ks, t=t: z3.Select(v.get(sl), *ks) == z3.Select(A0, *ks) + mk_sum(0, v.k, lambda j: z3.substitute(t, (k, smt(j))))))
            # frame: indices not touched so far
            n = len(next(iter(idxs.values())))
            BIG = self.BIG
            def frame(v):
                Ac = v.get(sl)
                def untouched(mi):
                    cs = []
                    for ks in idxs.values():
                        deps = [kid in sym_ids(x) for x in ks]
                        conj = []
                        for x, m in zip(ks, mi):
                            if kid not in sym_ids(x): conj.append(m != x)
                            else:
                                t, c0 = lin(x)
                                co = None
                                for i, (ee, q) in t.items():
                                    if ee.eq(k): co = q
                                rest_has = any(kid in sym_ids(ee) for i, (ee, q) in t.items() if not ee.eq(k))
                                if co is None or rest_has: return None
                                b0 = smt(unlin({i: z for i, z in t.items() if not z[0].eq(k)}, c0))
                                if co > 0: conj.append(z3.Or(m < b0, m >= b0 + co * smt(v.k), *( [ (m - b0) % co != 0 ] if co > 1 else [])))
                                else: conj.append(z3.Or(m > b0, m <= b0 + co * smt(v.k), *( [ (b0 - m) % (-co) != 0 ] if co < -1 else [])))
                        cs.append(z3.Or(*conj) if len(conj) > 1 else conj[0])
                    return z3.And(*cs) if len(cs) > 1 else cs[0]
                def nest(ms):
                    if len(ms) == n:
                        u = untouched(ms)
                        if u is None: raise Bail("frame")
                        return z3.Implies(u, z3.Select(Ac, *ms) == z3.Select(A0, *ms))
                    return mk_all(-BIG, BIG, lambda m: nest(ms + [m]))
                return nest([])
            out.append((f"frame {nm}", frame))
        # generic frames relative to running integer slots / keys
        d = A.sort()
        n = 1
        try:
            n = len(idxs and next(iter(idxs.values())) or ()) or self.arity(A)
        except Exception: n = self.arity(A)
        if n == 1:
            for s2 in slots:
                if s2 == sl: continue
                v2 = init[s2]
                if isinstance(v2, bool) or not (isinstance(v2, int) or (is_z3(v2) and z3.is_int(v2))): continue
                out.append((f"frame {nm} beyond {s2[1]}", lambda v, s2=s2: mk_all(-self.BIG, self.BIG, lambda m: z3.Implies(m >= smt(v.get(s2)), z3.Select(v.get(sl), m) == z3.Select(A0, m)))))
                out.append((f"frame {nm} before {s2[1]}", lambda v, s2=s2, v2=v2: mk_all(-self.BIG, self.BIG, lambda m: z3.Implies(m < smt(v2), z3.Select(v.get(sl), m) == z3.Select(A0, m)))))
        if opaque and n >= 2:
            # keys other than the counter value
            out.append((f"frame {nm} keys>=k", lambda v: mk_all(-self.BIG, self.BIG, lambda q: mk_all(-self.BIG, self.BIG, lambda m: z3.Implies(q >= smt(v.k), z3.Select(v.get(sl), q, m) == z3.Select(A0, q, m)))) if n == 2 else True))
        return out
    def arity(self, A):
        s = A.sort(); n = 0
        import z3 as _z
        n = _z.Z3_get_array_arity(s.ctx_ref(), s.ast) if hasattr(_z, "Z3_get_array_arity") else 1
        return n

    # ------------------------------------------------------------------ driver
    def run_harness(self, name):
        st = State()
        self.loop_mark = 1 << 60
        t0 = time.time()
        res = self.call_fn(st, name, [])
        done = 0
        for s, kind, v in res:
            if kind == "throw":
                g = bor(*s.may_throw) if s.may_throw else False
                self.curfn.append(name)
                self.oblige(s, "throw", f"no exception ({v})", g)
                self.curfn.pop()
            else: done += 1
        self.finals = [s for s, kind, v in res if kind == "ret"]
        self.stats["exec_s"] = time.time() - t0
        return res

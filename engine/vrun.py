"""Verify the harnesses of one contract file.  usage: vrun.py SRC SCRATCH OUT.json [--budget S] [--jobs N] [--only H] [--def D] [-v]"""
import sys, os, json, time, traceback, multiprocessing as mp, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import argparse
import z3
from irparse import Module
from terms import *
import vc, symex, build

def model_inputs(o, model):
    """concrete values of the harness inputs under a model"""
    out = []
    def num(v):
        v = model.eval(v, model_completion=True)
        if z3.is_int_value(v): return v.as_long()
        if z3.is_rational_value(v): return float(v.numerator_as_long()) / float(v.denominator_as_long())
        if z3.is_algebraic_value(v):
            a = v.approx(20); return float(a.numerator_as_long()) / float(a.denominator_as_long())
        if z3.is_true(v): return 1
        if z3.is_false(v): return 0
        return 0
    for x in o.inputs:
        if x[0] == "var": out.append((x[1], [num(x[2])]))
        elif x[0] == "buf":
            r, n, sz = x[2], x[3], x[4]
            n = num(n) if is_z3(n) else n
            vals = []
            if 0 <= n <= 4096 and r.nkeys == 0 and sz in (4, 8):
                for tk in (("d",), ("i", sz * 8)):
                    nm = f"{r.name}@0{tk[0]}{tk[1] if len(tk) > 1 else ''}"
                    if tk == ("d",) and not any(d.name() == nm for d in model.decls()): continue
                    a = z3.Const(nm, z3.ArraySort(I, R if tk[0] == "d" else I))
                    vals = [num(z3.Select(a, i)) for i in range(n)]
                    break
            out.append((x[1], vals))
    return out

def verify(mod, dem, contract_of, h, opts, q):
    t0 = time.time()
    eng = symex.Exec(mod, dem, opts)
    eng.contract_of = contract_of
    if opts.get("budget"): eng.deadline = t0 + opts["budget"]
    res = {"harness": h, "bail": None, "obligations": [], "covers": []}
    try:
        eng.run_harness(h)
        # vacuity: some path must reach the end with satisfiable assumptions
        reach = False
        for s in eng.finals:
            sol, _ = eng.base_solver(s.pc, 3000, s.terms)
            r = sol.check()
            if r == z3.sat: reach = True; break
            if r == z3.unknown: reach = reach or "unknown"
        res["reach"] = reach if reach else (len(eng.finals) == 0 and "throws only" or False)
        if not any(o.kind == "post" for o in eng.obls): res["bail"] = "no property obligation generated"
        for o in eng.obls:
            t1 = time.time()
            if o.kind == "cover":
                sol, _ = eng.base_solver(o.pc, 4000, o.terms)
                r = sol.check()
                res["covers"].append({"name": o.name, "result": str(r)})
                continue
            if o.status is None:
                try:
                    o.status, m, o.backend = eng.prove(o.pc, o.goal, opts.get("obl_ms", 4000), o.terms)
                except vc.Bail as e:
                    o.status, m, o.backend = "unknown", None, str(e)
                d = {"kind": o.kind, "name": o.name, "fn": eng.dem.get(o.fn, o.fn), "status": o.status, "backend": o.backend, "time": round(time.time() - t1, 3)}
                if o.status == "sat":
                    try: d["inputs"] = model_inputs(o, m)
                    except Exception as e: d["inputs"] = []
                    forms = o.pc + [smt(o.goal)]
                    clos = any(closure_of(e) is not None for e in walk([smt(f) for f in forms]))
                    undef = any(re.match(r"(undef|uninit|io|ptrcmp|ptrdiff|typeid|timer|pad|fdiv0)", e.decl().name()) for f in forms for e in walk([smt(f)]) if z3.is_app(e) and e.num_args() == 0)
                    uf = any(z3.is_app(e) and e.num_args() > 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name() not in ("idiv", "imod", "rsqrt") for f in forms for e in walk([smt(f)]))
                    # constants rounded to double (by the source text or by constant folding): exact equality means nothing
                    rnd = any(z3.is_rational_value(e) and e.denominator_as_long() > 1 << 20 for f in forms for e in walk([smt(f)]))
                    d["exact"] = not rnd and not clos and not undef and not uf and o.abstract == 0
                    d["goal"] = str(z3.simplify(smt(o.goal)))[:400]
                if o.status != "unsat": d["goal"] = str(z3.simplify(smt(o.goal)))[:600]
                if o.status != "unsat" and opts.get("dump"):
                    d["pc"] = [str(x) for x in o.pc]
            else:
                d = {"kind": o.kind, "name": o.name, "fn": eng.dem.get(o.fn, o.fn), "status": o.status, "backend": o.backend, "time": 0}
            res["obligations"].append(d)
    except vc.Bail as e:
        res["bail"] = str(e)
        res["where"] = [eng.short(f) for f in eng.curfn]
        if opts.get("verbose"): traceback.print_exc()
    except vc.NeedCut: res["bail"] = "loop control"
    except RecursionError: res["bail"] = "recursion"
    except Exception as e:
        res["bail"] = "internal: " + repr(e)[:300]
        if opts.get("verbose"): traceback.print_exc()
        res["trace"] = traceback.format_exc()[-1500:]
    st = eng.stats
    res["stats"] = {"paths": st["paths"], "insts": st["insts"], "queries": st["queries"], "solver_s": round(st["qtime"], 3), "wall_s": round(time.time() - t0, 3),
                    "functions": sorted(eng.dem.get(f, f) for f in st["functions"] if eng.dem.get(f, f).startswith(("mocc::", "int mocc", "void mocc", "double mocc", "bool mocc")) or "mocc::" in eng.dem.get(f, f).split("(")[0]),
                    "contracts_used": sorted(st["contracts_used"]), "models": sorted(st["models"]), "lazy": sorted(st["lazy"])[:20],
                    "loops_cut": st["loops_cut"], "unrolled": st["unrolled"]}
    q.put(res)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("src"); ap.add_argument("scratch"); ap.add_argument("out")
    ap.add_argument("--budget", type=float, default=100)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--only", default=None)
    ap.add_argument("--defs", default="")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--dump", action="store_true")
    ap.add_argument("--slow", type=float, default=0)
    a = ap.parse_args()
    os.makedirs(a.scratch, exist_ok=True)
    t0 = time.time()
    defs = [d for d in a.defs.split(",") if d]
    txt, dem, contract_of, unmatched = build.to_ir(os.path.abspath(a.src), a.scratch, defs)
    mod = Module(txt)
    hs = [n for n in mod.funcs if n.startswith("vfh_")]
    if a.only: hs = [h for h in hs if h == "vfh_" + a.only]
    t1 = time.time()
    results = []
    pend = list(hs); running = {}
    src = open(a.src).read()
    while pend or running:
        while pend and len(running) < a.jobs:
            h = pend.pop(0)
            q = mp.Queue()
            opts = {"budget": a.budget, "verbose": a.v, "dump": a.dump}
            if a.slow: opts["slow"] = a.slow
            m = re.search(r"//\s*opts\s+" + h[4:] + r":(.*)", src)
            if m:
                for kv in m.group(1).split():
                    k, v = kv.split("="); opts[k] = int(v) if v.lstrip("-").isdigit() else v
            if a.v:
                class Q:
                    def put(self, r): results.append(r)
                verify(mod, dem, contract_of, h, opts, Q()); continue
            p = mp.Process(target=verify, args=(mod, dem, contract_of, h, opts, q)); p.start()
            running[h] = (p, q, time.time())
        for h in list(running):
            p, q, ts = running[h]
            got = None
            try: got = q.get(timeout=0.05)
            except Exception: pass
            if got is not None:
                results.append(got); p.join(5); del running[h]; continue
            if not p.is_alive():
                try: results.append(q.get(timeout=0.5))
                except Exception: results.append({"harness": h, "bail": "verifier process ended", "obligations": [], "covers": [], "stats": {}})
                del running[h]; continue
            if time.time() - ts > a.budget * 1.3 + 20:
                p.kill(); results.append({"harness": h, "bail": "time budget exhausted", "obligations": [], "covers": [], "stats": {}}); del running[h]
    # a callee that is gone leaves the contracts that speak about it without their subject: no refutation is exact then
    if unmatched:
        for r in results:
            for o in r.get("obligations", []): o["exact"] = False
    json.dump({"src": a.src, "unmatched_contracts": unmatched, "build_s": round(t1 - t0, 2), "wall_s": round(time.time() - t0, 2), "harnesses": results}, open(a.out, "w"), indent=1)

if __name__ == "__main__":
    main()

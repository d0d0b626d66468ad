#!/usr/bin/env python3
"""Decide one property against /repo's current tree.

usage: check.py PROPERTY            run the check (VERIF_TIER=quick|thorough, VERIF_SEED)
       check.py --replay FILE       run a recorded failing input against the current tree

For every contract file of the property the harnesses are (1) verified symbolically from the LLVM IR of the
current sources and (2) compiled with those sources and run.  See DESIGN.md for the decision rule."""
import sys, os, json, time, glob, re, subprocess, tempfile, shutil, signal, threading
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, f"{HERE}/engine")
import build
PY = shutil.which("python3-vt") or sys.executable
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"): TIER = "quick"
try: SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError: SEED = 1
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
QUICK = TIER == "quick"
BUDGET = 240 if QUICK else 900          # symbolic seconds per harness
NSECS = 8 if QUICK else 120             # native seconds per harness
NTRIALS = 4000 if QUICK else 200000
TRUSTED = ["clang 18 front end and the listed opt passes (IR text is the verified text)", "engine/*.py (IR parser, symbolic executor, VC generator)",
           "z3 5.3.2", "cvc5 1.1.2", "gcc 13.3 for the compiled harnesses"]
ASSUME = ["floating-point arithmetic is treated as real arithmetic in the symbolic obligations (the native runs use IEEE doubles with a relative tolerance of 1e-8)",
          "signed and unsigned machine integers are treated as mathematical integers except where the code masks, shifts or wraps them explicitly; sizes and indices are assumed not to overflow",
          "standard library, blitz++ and Eigen code is verified as included from the installed headers where it is inlined; memory allocation succeeds; iostream, string and timer calls are no-ops",
          "OpenMP regions are executed as the sequential code clang emits without -fopenmp"]

def sh(cmd, timeout, env=None, cwd=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, start_new_session=True, cwd=cwd, errors="replace")
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        p.communicate()
        return None, "", "timeout"

def known(prop):
    out = []
    p = f"{HERE}/known-findings.txt"
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known:\s+property=(\w+)\s+key=(\S+)\s+(.*)", line.strip())
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3)))
    return out

class Check:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")
        self.files = sorted(glob.glob(f"{HERE}/contracts/{prop.lower()}_*.cpp"))
        self.viol = []
        self.known_hit = []
        self.notes = []
        self.seenkeys = set()

    # ---- symbolic
    def symbolic(self, f):
        out = f"{self.scratch}/{os.path.basename(f)}.json"
        d = f"{self.scratch}/sym-{os.path.basename(f)}"
        os.makedirs(d, exist_ok=True)
        rc, o, e = sh([PY, f"{HERE}/engine/vrun.py", f, d, out, "--budget", str(BUDGET), "--jobs", str(JOBS)], 720 if QUICK else 7200)
        if not os.path.exists(out):
            return {"src": f, "error": (e or "no result")[-1500:], "harnesses": []}
        return json.load(open(out))

    # ---- native
    def native_build(self):
        self.lib, errs = build.native_lib(self.scratch, JOBS)
        for e in errs: self.notes.append("not compiled: " + e[:300])
        self.exes = {}
        def one(f):
            try:
                o = build.to_native_obj(f, self.scratch)
                exe = build.link_native(o, self.lib)
                rc, out, e = sh([exe], 60)
                self.exes[f] = (exe, out.split())
            except (build.BuildError, subprocess.TimeoutExpired) as e:
                self.notes.append(f"native build of {os.path.basename(f)} failed: {str(e)[-800:]}")
        with ThreadPoolExecutor(JOBS) as ex: list(ex.map(one, self.files))

    def run_native(self, exe, h, trials, seed, secs, inputs=None):
        wd = tempfile.mkdtemp(dir=self.scratch)
        out = f"{wd}/inputs.txt"
        env = dict(os.environ, VF_SECS=str(secs), OMP_NUM_THREADS=os.environ.get("OMP_NUM_THREADS", "2"), VF_TIER=TIER)
        cmd = ["prlimit", "--as=8000000000", exe, h, str(trials), str(seed), out] + ([inputs] if inputs else [])
        rc, o, e = sh(cmd, secs * 3 + 240, env, wd)
        fails = []
        for m in re.finditer(r"^FAIL harness=(\S+) trial=(\d+) obligation=(.*)$", o, re.M):
            if re.search(r"bad_alloc|vector::_M_default_append|cannot create std::vector", m.group(3)) and inputs: continue
            fails.append((m.group(3), open(out).read() if os.path.exists(out) else ""))
        ok = re.search(r"^OK harness=\S+ trials=(\d+)", o, re.M)
        keys = re.findall(r"^KEY (\S+)", o, re.M)
        res = {"fails": fails, "trials": int(ok.group(1)) if ok else 0, "done": bool(ok), "keys": sorted(set(keys))}
        if not ok and not fails:
            if rc is None: res["undecided"] = "time limit"
            elif rc == -9: res["undecided"] = "killed (memory)"
            elif inputs and "bad_alloc" in o: res["undecided"] = "memory limit"
            elif rc < 0 or rc > 2: fails.append((f"harness ended with status {rc}", ""))
            else: res["undecided"] = f"status {rc}: {e[-300:]}"
        shutil.rmtree(wd, ignore_errors=True)
        return res

    def violation(self, f, h, obl, inputs, how, verifier=None, tail=""):
        d = f"{HERE}/evidence/replay"
        os.makedirs(d, exist_ok=True)
        path = f"{d}/{self.prop}-{h}-{len(self.viol)}.json"
        json.dump({"property": self.prop, "contract_file": os.path.relpath(f, HERE), "harness": h, "obligation": obl, "found_by": how, "seed": SEED, "inputs": inputs,
                   "verifier": verifier, "replay_cmd": f"python3 check.py --replay {path}"}, open(path, "w"), indent=1)
        self.viol.append((path, tail))
        print(f"  {self.prop} {h}: {obl} [{how}]")

    def run(self):
        if not self.files:
            print("no contract files"); return 2
        with ThreadPoolExecutor(len(self.files) + 1) as ex:
            nb = ex.submit(self.native_build)
            syms = {f: ex.submit(self.symbolic, f) for f in self.files}
            nb.result()
            nat = {}
            def one(fh):
                f, h = fh
                exe, _ = self.exes[f]
                m = re.search(r"//\s*trials\s+(?:" + h + r"|\*):\s*(\d+)(?:\s+(\d+))?", open(f).read())
                n = NTRIALS
                if m: n = int(m.group(1)) if QUICK or not m.group(2) else int(m.group(2))
                return fh, self.run_native(exe, h, n, SEED, NSECS)
            with ThreadPoolExecutor(JOBS) as ex2:
                for fh, r in ex2.map(one, [(f, h) for f in self.exes for h in self.exes[f][1]]): nat[fh] = r
            sym = {f: s.result() for f, s in syms.items()}
        return self.decide(sym, nat)

    def decide(self, sym, nat):
        kn = dict(known(self.prop))
        ob_total = ob_ok = 0
        backends = {}; solver_s = 0.0
        functions = set(); models = set(); contracts = set(); lazy = set()
        proved = []; bounded = []; undecided = []; hidx = {}
        loops = 0
        samples = []
        for (f, h), r in nat.items():
            for obl, inp in r["fails"]:
                m = re.match(r"\[(\S+)\]", obl)
                if m and m.group(1) in kn:
                    self.known_hit.append(m.group(1)); continue
                self.violation(f, h, obl, inp, "compiled harness on the real code")
            for k in r["keys"]:
                if k in kn: self.known_hit.append(k)
        failed = {(f, h) for (f, h), r in nat.items() if r["fails"]}
        for f, s in sym.items():
            if s.get("error"): undecided.append(f"{os.path.basename(f)}: extraction: {s['error'][-300:]}")
            for hr in s["harnesses"]:
                h = hr["harness"][4:]
                hidx[(f, h)] = hr
                st = hr.get("stats", {})
                solver_s += st.get("solver_s", 0)
                functions |= set(st.get("functions", [])); models |= set(st.get("models", [])); contracts |= set(st.get("contracts_used", []))
                lazy |= set(st.get("lazy", [])); loops += len(st.get("loops_cut", [])) if isinstance(st.get("loops_cut"), list) else int(st.get("loops_cut") or 0)
                obls = hr["obligations"]
                vac = hr.get("reach") is False or any(c["result"] == "unsat" for c in hr.get("covers", []))
                full = not hr.get("bail") and obls and all(o["status"] == "unsat" for o in obls) and not vac
                for o in obls:
                    ob_total += 1
                    if o["status"] == "unsat" and not vac:
                        ob_ok += 1
                        backends[o.get("backend") or "syntactic"] = backends.get(o.get("backend") or "syntactic", 0) + 1
                        if len(samples) < 6 and o["kind"] == "post": samples.append(f"{h}: {o['name']} ({o.get('backend')})")
                if full: proved.append(f"{os.path.basename(f)}:{h}"); continue
                why = hr.get("bail") or ("precondition unreachable" if vac else "; ".join(f"{o['name']} {o['status']}" for o in obls if o["status"] != "unsat")[:300])
                undecided.append(f"{os.path.basename(f)}:{h}: {why}")
                if (f, h) in failed: continue
                # refuted obligations: replay the model on the real code, then search around it
                if f in self.exes and h in self.exes[f][1] and any(o["status"] == "sat" for o in obls):
                    hit = False
                    for o in obls:
                        if o["status"] != "sat" or hit: continue
                        inp = f"{self.scratch}/model.txt"
                        with open(inp, "w") as g:
                            for n, v in o.get("inputs", []): g.write(n + " " + " ".join(map(repr, v)) + "\n")
                        # sizes the solver made up freely would only exhaust the memory
                        big = any(isinstance(x, int) and abs(x) > 100000 for n, v in o.get("inputs", []) for x in v)
                        r = self.run_native(self.exes[f][0], h, 1, SEED, 20, inp)
                        if big: r["fails"] = [x for x in r["fails"] if not re.match(r"(exception|crash|harness ended|time)", x[0])]
                        if not r["fails"]: r = self.run_native(self.exes[f][0], h, NTRIALS * 4, SEED + 77, NSECS)
                        for obl, tr in r["fails"]:
                            m = re.match(r"\[(\S+)\]", obl)
                            if m and m.group(1) in kn: continue
                            self.violation(f, h, obl, tr, "verifier counterexample replayed on the real code", o); hit = True
                    if not hit:
                        ex = [o for o in obls if o["status"] == "sat" and o.get("exact")]
                        if ex: self.violation(f, h, ex[0]["name"], ex[0].get("inputs"), "refuted obligation", ex[0], " no-failing-input-found")
        for (f, h), r in nat.items():
            if f"{os.path.basename(f)}:{h}" in proved: continue
            if r["done"]: bounded.append(f"{os.path.basename(f)}:{h}: {r['trials']} generated inputs")
            elif not r["fails"]: undecided.append(f"{os.path.basename(f)}:{h}: native run: {r.get('undecided')}")
        trials = sum(r["trials"] for r in nat.values())
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": level_of(self.prop),
              "coverage": {"obligations": ob_total, "discharged": ob_ok, "checker_cmd": f"python3 check.py {self.prop}", "trusted_base": TRUSTED,
                           "native_runs": trials,
                           "samples": samples or [f"{h}: {r['trials']} runs" for (f, h), r in list(nat.items())[:4]],
                           "backends": backends, "solver_s": round(solver_s, 2), "functions_under_contract": sorted(functions), "callee_contracts_used": sorted(contracts),
                           "loops_with_inferred_invariants": loops, "proved_harnesses": sorted(proved), "bounded_harnesses": sorted(bounded), "undecided": undecided,
                           "modelled_externals": sorted(models), "notes": self.notes},
              "assumptions": ASSUME + [f"modelled, not verified: {m}" for m in sorted(models)],
              "wall_s": round(time.time() - self.t0, 1), "violations": len(self.viol)}
        os.makedirs(f"{HERE}/evidence", exist_ok=True)
        json.dump(ev, open(f"{HERE}/evidence/{self.prop}.json", "w"), indent=1)
        for k in sorted(set(self.known_hit)): print(f"KNOWN-FINDING: property={self.prop} {kn[k]}")
        print(f"{self.prop}: {ob_ok}/{ob_total} obligations discharged, {len(proved)} harnesses proved, {len(bounded)} bounded, {trials} native runs, {ev['wall_s']} s")
        for u in undecided: print("  undecided: " + u)
        for n in self.notes: print("  note: " + n)
        if self.viol:
            for p, tail in self.viol[:5]: print(f"VIOLATION property={self.prop} replay={p}{tail}")
            return 1
        if not nat and ob_ok == 0:
            print("nothing could be checked"); return 2
        return 0

def level_of(prop):
    try:
        for c in json.load(open(f"{HERE}/MANIFEST.json"))["checks"]:
            if c["property"] == prop: return c["level"]
    except Exception: pass
    return "proof"

def replay(path):
    r = json.load(open(path))
    c = Check(r["property"])
    try:
        c.files = [f"{HERE}/{r['contract_file']}"]
        c.native_build()
        f = c.files[0]
        if f not in c.exes: print(c.notes); return 2
        inp = f"{c.scratch}/in.txt"
        with open(inp, "w") as g:
            if isinstance(r["inputs"], str): g.write(r["inputs"])
            else:
                for n, v in r["inputs"] or []: g.write(n + " " + " ".join(map(repr, v)) + "\n")
        res = c.run_native(c.exes[f][0], r["harness"], 1, r["seed"], 20, inp)
        for o, t in res["fails"]: print(f"FAILS: {r['harness']}: {o}\n{t[:2000]}")
        if not res["fails"]: print("passes on the current tree")
        return 1 if res["fails"] else 0
    finally: shutil.rmtree(c.scratch, ignore_errors=True)

def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay": return replay(sys.argv[2])
    c = Check(sys.argv[1])
    try: return c.run()
    except Exception:
        import traceback; traceback.print_exc(); return 2
    finally: shutil.rmtree(c.scratch, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(main())

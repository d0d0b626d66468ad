#!/usr/bin/env python3
"""development: build one contract file natively (library cached in /tmp/nb until -c) and run a harness
   nat.py [-c] contracts/X.cpp [harness [trials [seed]]]"""
import sys, os, subprocess, shutil
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, f"{H}/engine")
import build
a = sys.argv[1:]
if a[0] == "-c":
    shutil.rmtree("/tmp/nb", ignore_errors=True); a = a[1:]
os.makedirs("/tmp/nb", exist_ok=True)
if os.path.exists("/tmp/nb/lib.path"): lib = open("/tmp/nb/lib.path").read()
else:
    lib, errs = build.native_lib("/tmp/nb", 8)
    print(errs); open("/tmp/nb/lib.path", "w").write(lib)
try: exe = build.link_native(build.to_native_obj(os.path.abspath(a[0]), "/tmp/nb"), lib)
except build.BuildError as e: print(str(e)[-3000:]); sys.exit(2)
hs = a[1:2] or subprocess.run([exe], capture_output=True, text=True).stdout.split()
n = a[2] if len(a) > 2 else "300"
seed = a[3] if len(a) > 3 else "1"
wd = "/tmp/nb/wd"; os.makedirs(wd, exist_ok=True)
env = dict(os.environ, VF_SECS="20", OMP_NUM_THREADS=os.environ.get("OMP_NUM_THREADS", "2"))
for h in hs:
    p = subprocess.run([exe, h, n, seed, f"{wd}/in.txt"], cwd=wd, env=env, capture_output=True, text=True)
    print(h, p.returncode, p.stdout[-600:].strip()[:200], p.stderr[-1400:].strip()[-1200:])
    if p.returncode and os.path.exists(f"{wd}/in.txt"): print(open(f"{wd}/in.txt").read().replace("\n", "; ")[:int(os.environ.get("W", "150"))])

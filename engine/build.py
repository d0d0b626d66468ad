"""Extraction: compile a contract file together with the real sources it includes to LLVM IR, and the
same text natively."""
import os, re, subprocess, sys, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import repair
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

class BuildError(Exception):
    pass

def incs(scratch):
    return ["-isystem", f"{VERIF}/engine/include", "-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/hdf5/serial",
            "-include", f"{VERIF}/engine/include/compat.hpp",
            f"-I{VERIF}/contracts", f"-I{REPO}/src", f"-I{REPO}/src/core", f"-I{REPO}/src/sweepers", f"-I{REPO}/src/solvers", f"-I{REPO}/lib/pugixml/src", f"-I{REPO}/lib", f"-I{scratch}/gen"]

def prepare(scratch):
    """headers that the project's build generates and git ignores"""
    os.makedirs(f"{scratch}/gen/util", exist_ok=True)
    if not os.path.exists(f"{REPO}/src/util/force_inline.hpp"):
        with open(f"{scratch}/gen/util/force_inline.hpp", "w") as f:
            f.write("#pragma once\n#define MOCC_FORCE_INLINE __attribute__((always_inline)) inline\n")

def run(cmd, what, timeout=600):
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
    if p.returncode:
        err = BuildError(f"{what} failed:\n{p.stderr[-3000:]}")
        err.text = p.stderr
        raise err
    return p.stdout

KEEP = r"std::vector<.*>::(push_back|emplace_back)|basic_ostream|basic_string|TeeStream|mocc::Timer::|std::__new_allocator<.*>::allocate|std::fill_n<(double|int|unsigned int|float|bool)\\*, unsigned long|__uninit_default_n<(double|int|unsigned int|float|bool)\\*|__fill_a1<(double|int|unsigned int|float)\\*"

def to_ir(src, scratch, defs=()):
    return repair.attempt(lambda f, more: to_ir_(f, scratch, tuple(defs) + tuple(more)), src, scratch, REPO, BuildError)

def to_ir_(src, scratch, defs=()):
    prepare(scratch)
    base = os.path.join(scratch, os.path.basename(src).rsplit(".", 1)[0] + "-" + hashlib.md5(" ".join(defs).encode()).hexdigest()[:6])
    wrap = base + ".sym.cpp"
    with open(wrap, "w") as f:
        for x in header(src)["sources"]: f.write(f'#include "{x}"\n')
        f.write(f'#include "{src}"\n')
    run(["clang++-18", "-std=c++14", "-DVF_SYM", "-isystem", f"{VERIF}/engine/syminc"] + [f"-D{d}" for d in defs] + incs(scratch) +
        ["-w", "-fno-access-control", "-fno-strict-aliasing", "-ffp-contract=off", "-fno-math-errno", "-O1", "-Xclang", "-disable-llvm-passes", "-S", "-emit-llvm", "-o", base + ".0.ll", wrap], "clang")
    txt = open(base + ".0.ll").read()
    names = re.findall(r'^(?:define|declare)[^@]*@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', txt, re.M)
    names = [n.strip('"') for n in names]
    dem = demangle(names)
    cts = {}
    for m in re.finditer(r'^@vf_ctname_(\w+) = .*? c"((?:[^"\\]|\\.)*)\\00"', txt, re.M):
        cts[m.group(1)] = m.group(2)
    keep = set()
    contract_of = {}
    unmatched = []
    for stub, target in cts.items():
        target = target.replace("\\5C", "\\")
        if target.startswith("re:"): hits = [n for n in names if re.match(target[3:], dem.get(n, n))]
        else: hits = [n for n in names if dem.get(n, n) == target or dem.get(n, n).startswith(target + "(")]
        if not hits: unmatched.append(target)
        for n in hits: keep.add(n); contract_of[n] = "vfc_" + stub
    for n in names:
        if re.search(KEEP, dem.get(n, n)): keep.add(n)
        if n.startswith(("vfh_", "vfc_")): keep.add(n)
        if re.match(r"(?:[\w:<>, *&]+ )?mocc::", dem.get(n, n).split("(")[0]): keep.add(n)
    out = []
    for line in txt.split("\n"):
        if line.startswith("define"):
            m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', line)
            n = m.group(1).strip('"')
            if n in keep:
                line = re.sub(r'( #\d+)?( comdat(\([^)]*\))?)?( align \d+)?( personality [^{]*)? \{$', lambda q: (" noinline") + (q.group(1) or "") + (q.group(2) or "") + (q.group(4) or "") + (q.group(5) or "") + " {", line)
        out.append(line)
    txt = "\n".join(out)
    txt = re.sub(r'^(attributes #\d+ = \{.*?)\balwaysinline\b', r'\1inlinehint', txt, flags=re.M)
    open(base + ".1.ll", "w").write(txt)
    run(["opt-18", "-S", "-inline-threshold=1500", "-passes=function(sroa,simplifycfg),cgscc(inline),function(sroa,early-cse<memssa>,simplifycfg,sroa,early-cse<memssa>,loop-simplify)", "-o", base + ".2.ll", base + ".1.ll"], "opt")
    return open(base + ".2.ll").read(), dem, contract_of, unmatched

def demangle(names):
    p = subprocess.run(["c++filt"], input="\n".join(names) + "\n", capture_output=True, text=True)
    return dict(zip(names, p.stdout.split("\n")))

def header(src):
    """directives in the leading comments of a contract file"""
    txt = open(src).read()
    out = {"sources": [], "links": []}
    for m in re.finditer(r"^//\s*(sources|links):(.*)$", txt, re.M): out[m.group(1)] += m.group(2).split()
    return out

def repo_sources():
    out = []
    for d in ("core", "core/geometry", "util", "sweepers", "sweepers/cmdo", "sweepers/mc", "sweepers/moc", "sweepers/sn", "solvers"):
        p = f"{REPO}/src/{d}"
        if not os.path.isdir(p): continue
        out += [f"{p}/{f}" for f in sorted(os.listdir(p)) if f.endswith(".cpp")]
    for f in ("input_proc.cpp",):
        if os.path.exists(f"{REPO}/src/{f}"): out.append(f"{REPO}/src/{f}")
    return out

LIBS = ["-lhdf5_cpp", "-lhdf5", "-lpugixml"]

def native_lib(scratch, jobs=8, flags=("-O1",)):
    """all of the project's sources, compiled from the current tree"""
    prepare(scratch)
    from concurrent.futures import ThreadPoolExecutor
    d = f"{scratch}/obj"; os.makedirs(d, exist_ok=True)
    errs = []; objs = []
    def one(f):
        o = f"{d}/{os.path.relpath(f, REPO).replace('/', '_')}.o"
        cmd = ["g++", "-std=c++14", "-pipe", "-w", "-fopenmp", "-no-pie", "-D_GLIBCXX_ASSERTIONS"] + list(flags) + incs(scratch) + ["-c", f, "-o", o]
        try: run(cmd, f"compiling {f}"); objs.append(o)
        except (BuildError, subprocess.TimeoutExpired) as e: errs.append(str(e))
    with ThreadPoolExecutor(jobs) as ex: list(ex.map(one, sorted(repo_sources(), key=lambda f: -os.path.getsize(f))))
    lib = f"{scratch}/libmocc_v.a"
    run(["ar", "rcs", lib] + sorted(objs), "ar")
    return lib, errs

def to_native_obj(src, scratch, defs=(), opt="-O1"):
    return repair.attempt(lambda f, more: to_native_obj_(f, scratch, tuple(defs) + tuple(more), opt), src, scratch, REPO, BuildError)

def to_native_obj_(src, scratch, defs=(), opt="-O1"):
    prepare(scratch)
    base = os.path.join(scratch, os.path.basename(src).rsplit(".", 1)[0] + "-" + hashlib.md5(" ".join(defs).encode()).hexdigest()[:6])
    wrap = base + ".native.cpp"
    with open(wrap, "w") as f:
        f.write(f'#include "{src}"\n#include "{VERIF}/contracts/native.inc"\n')
    run(["g++", "-std=c++14", "-pipe", "-w", "-fno-access-control", opt, "-fopenmp", "-no-pie", "-D_GLIBCXX_ASSERTIONS"] + [f"-D{d}" for d in defs] + incs(scratch) + ["-c", wrap, "-o", base + ".o"], "native build")
    return base + ".o"

def link_native(obj, lib, libs=()):
    exe = obj[:-2] + ".exe"
    run(["g++", "-fopenmp", "-no-pie", obj, lib, "-o", exe, "-L/usr/lib/x86_64-linux-gnu/hdf5/serial"] + LIBS + list(libs), "native link")
    return exe

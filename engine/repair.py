"""When a contract file no longer compiles with the sources: follow renamed members, and leave out the parts of the
contract text that still do not compile, so that the rest of it can be checked."""
import json, os, re, shutil, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TABLE = f"{VERIF}/engine/members.json"

def members(path):
    """[type, name] of the member declarations in a header, in order"""
    txt = open(path, errors="replace").read()
    txt = re.sub(r"/\*.*?\*/", " ", txt, flags=re.S)
    txt = re.sub(r"//[^\n]*", "", txt)
    out = []
    for m in re.finditer(r"(?<=[;{}:])\s*((?:(?:mutable|const|static|constexpr|unsigned|struct|class|virtual|inline|explicit)\s+)*[A-Za-z_][\w:]*(?:\s*<[^;{}()]*>)?(?:::\w+)?(?:\s+const)?(?:\s+int|\s+long)?\s*[&*]*)[\s&*]+(\w+)\s*((?:\[[^\]]*\])*)\s*(;|=|\{|\()", txt):
        typ, name, dim, end = m.groups()
        typ = re.sub(r"\s+", " ", typ.strip())
        if typ.split()[0] in ("return", "using", "typedef", "throw", "else", "new", "delete", "case", "namespace", "goto", "if", "for", "while", "class", "struct", "enum"): continue
        if end == "(":
            depth, k = 1, m.end()
            while k < len(txt) and depth:
                depth += {"(": 1, ")": -1}.get(txt[k], 0); k += 1
            args = re.sub(r"\s+", " ", txt[m.end():k])
            args = re.sub(r"\b(\w+)\s*(,|\))", r"\2", args) if " " in args else args
            typ += " (" + args
        out.append([typ + dim, name])
    return out

def headers(repo):
    for d, _, fs in os.walk(f"{repo}/src"):
        if "/tests" in d: continue
        for f in sorted(fs):
            if f.endswith(".hpp"): yield os.path.relpath(f"{d}/{f}", repo), f"{d}/{f}"

def table(repo):
    return {k: members(p) for k, p in headers(repo)}

def renames(repo):
    """members that have gone, and the one of the same type and place that came"""
    out = {}
    try: old = json.load(open(TABLE))
    except OSError: return out
    new = {}
    for k, p in headers(repo):
        if k in old: new[k] = members(p)
    for k, now in new.items():
        was = old[k]
        wn, nn = {n for _, n in was}, {n for _, n in now}
        gone = [(t, n) for t, n in was if n not in nn]
        came = [(t, n) for t, n in now if n not in wn]
        for key in (lambda t, n: (t, n.endswith("_")), lambda t, n: t):
            left, right = {}, {}
            for t, n in gone: left.setdefault(key(t, n), {})[n] = 1
            for t, n in came: right.setdefault(key(t, n), {})[n] = 1
            for kk, g in left.items():
                c = right.get(kk, {})
                if len(g) != len(c): continue
                for a, b in zip(g, c): out[a] = b if out.get(a, b) == b else None
            gone = [(t, n) for t, n in gone if n not in out]
            came = [(t, n) for t, n in came if n not in out.values()]
    return {k: v for k, v in out.items() if v}

def units(txt):
    """(first line, last line, is a harness or function) of the definitions at file or namespace level"""
    out = []
    lines = txt.split("\n")
    depth = ns = 0
    start = None
    for i, l in enumerate(lines, 1):
        s = re.sub(r'"(?:[^"\\]|\\.)*"|\'(?:[^\'\\]|\\.)*\'|//.*', "", l)
        if depth == ns and re.match(r"\s*(inline\s+)?namespace\b[^;]*\{", s):
            ns += 1; depth += 1; start = None; continue
        if depth == ns and s.strip() and start is None and not s.startswith("#"): start = i
        depth += s.count("{") - s.count("}")
        if depth < ns: ns = depth; start = None; continue
        if depth == ns and start is not None and (s.rstrip().endswith(("}", "};", ";"))):
            out.append((start, i, "\n".join(lines[start - 1:i]))); start = None
    return out

def attempt(compile_fn, src, scratch, repo, BuildError):
    """compile_fn(src, defs); retried with the renames followed, then with what fails left out"""
    try: return compile_fn(src, ())
    except BuildError as e: err = e
    first = err
    ren = renames(repo)
    defs = tuple(f"{a}={b}" for a, b in sorted(ren.items()) if re.search(r"\b%s\b" % a, getattr(err, "text", str(err))))
    if defs:
        try: return compile_fn(src, defs)
        except BuildError as e: err = e
        defs = tuple(f"{a}={b}" for a, b in sorted(ren.items()))
    d = f"{scratch}/left-out-{os.path.basename(src)}-{os.getpid()}-{id(compile_fn)}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(f"{VERIF}/contracts", d)
    mine = f"{d}/{os.path.basename(src)}"
    for _ in range(8):
        txt = open(mine).read()
        us = units(txt)
        bad = set()
        for m in re.finditer(r"^(?:In file included from )?(\S+?):(\d+):\d+: (?:fatal error|error|  required from here|note: in instantiation)", getattr(err, "text", ""), re.M):
            if os.path.basename(m.group(1)) != os.path.basename(src): continue
            n = int(m.group(2))
            bad |= {u for u in us if u[0] <= n <= u[1]}
        bad = {u for u in bad if "VF_CONTRACT" not in u[2]}
        if not bad: break
        lines = txt.split("\n")
        for a, b, _ in bad:
            for i in range(a - 1, b): lines[i] = ""
        open(mine, "w").write("\n".join(lines))
        if "VF_HARNESS" not in "\n".join(lines): break
        left = re.findall(r"VF_HARNESS\((\w+)\)", "\n".join(u[2] for u in bad))
        if left: print(f"note: {os.path.basename(src)}: left out {', '.join(left)}", file=sys.stderr)
        try: return compile_fn(mine, defs)
        except BuildError as e: err = e
    raise first

if __name__ == "__main__":
    json.dump(table(sys.argv[1] if len(sys.argv) > 1 else "/repo"), open(TABLE, "w"), indent=0)

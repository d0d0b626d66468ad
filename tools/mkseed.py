#!/usr/bin/env python3
"""mkseed.py SPEC.py: writes seeded/<id>/ (patch.diff, demo.sh, demo.cpp,
meta.json) from a spec that sets id, prop, file, edits=[(old,new)...], needs,
breaks, demo (C++ text with int main)."""
import sys, os, json, subprocess, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = r'''#!/bin/bash
# Compiles demo.cpp against the headers and libraries of the tree in the
# current directory and runs it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
root=$PWD
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
libs=$(find "$root/_build/src" -name 'lib*.a' -not -path '*/tests/*')
g++ -std=c++14 -O1 -fopenmp -w -fno-access-control -include /opt/vp/cmake/compat.hpp \
    -isystem /usr/include/eigen3 -isystem /usr/include/hdf5/serial \
    -I"$root/src" -I"$root/src/core" -I"$root/src/util" -I"$root/src/sweepers" -I"$root/lib" $(for d in "$root"/lib/*/; do echo -I"$d"; done) \
    -o "$w/demo" "$here/demo.cpp" \
    -Wl,--start-group $libs -Wl,--end-group \
    -L/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5_cpp -lhdf5 -lpugixml || exit 3
cd "$w" && timeout 200 ./demo
'''
for spec in sys.argv[1:]:
    text = open(spec).read()
    env = {}
    exec(text, env)
    d = os.path.join(HERE, "seeded", env["id"])
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    edits = env["edits"]
    if not isinstance(edits, dict):
        edits = {env["file"]: edits}
    diff = ""
    for f, es in edits.items():
        src = subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + f], capture_output=True, text=True, check=True).stdout
        new = src
        for e in es:
            old, rep = e[0], e[1]
            n = e[2] if len(e) > 2 else None
            if n is None:
                assert new.count(old) == 1, (spec, old, new.count(old))
                new = new.replace(old, rep)
            else:
                parts = new.split(old)
                assert len(parts) > n, (spec, old)
                new = old.join(parts[:n]) + rep + old.join(parts[n:])
        for pre, body in (("a", src), ("b", new)):
            p = os.path.join(t, pre, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").write(body)
        r = subprocess.run(["diff", "-u", os.path.join("a", f), os.path.join("b", f)], cwd=t, capture_output=True, text=True)
        lines = r.stdout.splitlines(True)
        lines[0] = "--- a/%s\n" % f
        lines[1] = "+++ b/%s\n" % f
        diff += "".join(lines)
    shutil.rmtree(t)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(env.get("demo_sh", DEMO_SH))
    open(os.path.join(d, "demo.cpp"), "w").write(env["demo"].lstrip())
    json.dump(dict(property=env["prop"], needs=env["needs"], what_it_breaks=env["breaks"]),
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    print(d)

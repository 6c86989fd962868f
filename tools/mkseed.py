#!/usr/bin/env python3
"""writes one planted bug: mkseed(id, property, [(file, old, new)...], needs, breaks, demo source)"""
import json, os, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = r'''#!/bin/bash
# builds demo.cxx against the tree in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -f "$t/demo"; rmdir "$t"' EXIT
g++ -std=gnu++17 -O1 -w -DFMT_DEPRECATED_OSTREAM @FLAGS@-I. -I/usr/include/eigen3 -I_build/ext_shim/async_comm_ext/include @INC@"$here/demo.cxx" -o "$t/demo" \
    -Wl,--start-group $(find "$PWD/_build" -name '*.a' ! -path '*ext_shim*') -Wl,--end-group @LIBS@ || exit 3
cd "$t" && timeout 120 ./demo
'''
def mkseed(id, prop, edits, needs, breaks, demo, libs="-fopenmp -lfmt -lyaml-cpp -lpthread -lstdc++fs -ldl", flags="", inc="", sh=None, extra={}):
    d = V + "/seeded/" + id
    os.makedirs(d, exist_ok=True)
    sv = {}
    try:
        for f, old, new in edits:
            p = "/repo/" + f
            s = open(p).read()
            sv.setdefault(p, s)
            assert s.count(old) >= 1, (id, f, old)
            open(p, "w").write(s.replace(old, new, 1))
        diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True, check=True).stdout
    finally:
        for p, s in sv.items():
            open(p, "w").write(s)
    open(d + "/patch.diff", "w").write(diff)
    if demo is not None:
        open(d + "/demo.cxx", "w").write(demo)
    open(d + "/demo.sh", "w").write((sh or SH).replace("@LIBS@", libs).replace("@FLAGS@", flags + (" " if flags else "")).replace("@INC@", inc + (" " if inc else "")))
    os.chmod(d + "/demo.sh", 0o755)
    for n, t in extra.items():
        open(d + "/" + n, "w").write(t)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)

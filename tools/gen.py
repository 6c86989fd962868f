#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py and rules/"""
import importlib, json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/tools", V + "/engine", V + "/rules"]
from props import P
checks, na, doc = [], [], []
with open(V + "/properties.jsonl", "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"],
                            "quantifier": {"over": q["over"], "text": q["q"]}, "why_tests_cant": q["why"],
                            "anchors": {"files": q["files"], "mechanism": [{"name": a, "where": b} for a, b in q["mech"]]}}) + "\n")
        r = V + "/rules/" + q["id"].lower() + ".py"
        if os.path.exists(r):
            m = importlib.import_module(q["id"].lower())
            assert m.TITLE == q["title"], (q["id"], m.TITLE, q["title"])
            doc.append("### %s %s\n\n*Decided by* %s.\n*Rule.* %s\n*Assumes:* %s.\n*Beyond tests:* %s; the quantifier is %s.\n" % (
                q["id"], q["title"], getattr(m, "TECH", "abstract interpretation of the value graph built from LLVM IR"), " ".join(m.RULE.split()),
                "; ".join(getattr(m, "ASSUME", ())) or "nothing further", q["why"], q["q"]))
            checks.append({"property": q["id"], "quick_cmd": "python3 check.py " + q["id"], "thorough_cmd": "python3 check.py " + q["id"],
                           "technique": getattr(m, "TECH", "abstract interpretation of the value graph built from LLVM IR"),
                           "level": getattr(m, "LEVEL", "other"),
                           "level_note": " ".join(m.RULE.split()) + " Assumes: " + "; ".join(getattr(m, "ASSUME", ())) + ". Trusts clang/LLVM 18 and the engine in /verif/engine."})
        else:
            na.append({"property": q["id"], "reason": q["na"] or "no static rule built for it yet"})
json.dump({"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na,
           "notes": "Static analysis only: checks re-derive their facts from /repo's working tree (clang AST / LLVM IR / Python ast) on every run; see DESIGN.md."},
          open(V + "/MANIFEST.json", "w"), indent=1)
d = open(V + "/DESIGN.md").read()
A, B, C, E = "<!-- rules -->\n", "<!-- end rules -->\n", "<!-- not applicable -->\n", "<!-- end not applicable -->\n"
d = d[:d.index(A) + len(A)] + "\n".join(doc) + d[d.index(B):]
d = d[:d.index(C) + len(C)] + "".join("* **%s** – %s\n" % (x["property"], x["reason"]) for x in na) + d[d.index(E):]
open(V + "/DESIGN.md", "w").write(d)
print(len(checks), "checks;", len(na), "not applicable")

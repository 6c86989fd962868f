#!/usr/bin/env python3
import importlib, os, sys
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(here, "engine"), os.path.join(here, "rules")]
import framework


def one(pid):
    m = importlib.import_module(pid.lower())
    return framework.main(pid.upper(), m.TITLE, m.run, getattr(m, "LEVEL", "other"), " ".join(m.RULE.split()), getattr(m, "ASSUME", ()))


if __name__ == "__main__":
    if sys.argv[1] == "setup":
        import ir
        ir.build_tools()
        sys.exit(0)
    rc = 0
    for p in sys.argv[1:]:
        rc = max(rc, one(p))
    sys.exit(rc)

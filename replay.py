#!/usr/bin/env python3-vt
"""replay.py <replay.json>: run a counterexample on the unmodified code of /repo.

Exit 1: the property is broken on this input; 0: it is not.
"""
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from symex import runner  # noqa: E402


def main():
    with open(sys.argv[1]) as f:
        d = json.load(f)
    runner.setup(instrumented=False)
    h = runner.Harness(d["module"], d["fn"], name=d["harness"], **d["params"])
    runner.finish_setup([h], instrumented=False)
    st, label, ctx = runner.concrete(h, d["values"])
    print("%s: %s" % (st, label))
    for k, v in ctx.info.items():
        print("  %s = %r" % (k, v))
    return 1 if st in ("violation", "timeout") else 0


if __name__ == "__main__":
    sys.exit(main())

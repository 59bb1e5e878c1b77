#!/usr/bin/env python3
"""run.py --property ID [--tier quick|thorough]    run one check
run.py --replay FILE                              re-run a recorded scenario on the current tree
run.py --setup                                    build the harnesses"""
import argparse, json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core, check
import checks


def replay(f):
    d = json.load(open(f))
    c = checks.CHECKS[d["property"]](d["property"])
    w = core.Work()
    try:
        consts = c.consts()
        t = c.collect(c.build(), w, [d["scenario"]])[0]
        rej, _, _ = core.validate(c.spec, w, [t], consts)
        for i, e in enumerate(t["ev"]):
            print(i + 1, json.dumps(e))
        if rej:
            pos, last = core.explain(c.spec, w, t, consts)
            print("rejected at event", pos)
            print(last)
            print("VIOLATION property=%s replay=%s" % (d["property"], f))
            return 1
        print("accepted")
        return 0
    finally:
        w.close()


def main():
    a = argparse.ArgumentParser()
    a.add_argument("--property")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a.add_argument("--replay")
    a.add_argument("--setup", action="store_true")
    o = a.parse_args()
    if o.setup:
        for h, (i, c) in sorted({c.harness: (i, c) for i, c in checks.CHECKS.items()}.items()):
            c(i).build()
        return 0
    if o.replay:
        return replay(o.replay)
    return check.run(checks.CHECKS[o.property](o.property), o.tier, o.seed)


sys.exit(main())

"""python3 -m vlib.replay FILE: run the program of a replay file again and check it against the specification"""
import json
import sys

from . import run, sexp
from .check import units_of


def main():
    d = json.load(open(sys.argv[1]))
    if "text" in d and "calls" not in d:
        print(json.dumps(d)[:2000])
        return 0
    job = dict(d.get("job") or {}, id=0, calls=d["calls"])
    us = units_of([job], run.drive([job]))
    r = run.check_cases([sexp.case(k, c, t, 6000, job=job) for k, (_, c, t) in enumerate(us)])
    for k, (_, c, t) in enumerate(us):
        print("\n".join(c))
        for i, e in enumerate(t):
            print("%3d %s" % (i + 1, json.dumps(e)[:200]))
        for what in (r.acc, r.rej, r.drop):
            if k in what:
                print(json.dumps(what[k])[:600])
    return 1 if r.rej else 0


if __name__ == "__main__":
    sys.exit(main())

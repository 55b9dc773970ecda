"""python3 -m vlib.check C01: decides one property (VERIF_TIER, VERIF_SEED)."""
import importlib
import json
import os
import sys
import time
import traceback

from . import run, sexp

HERE = run.VERIF
LEVEL = "model_checking"


def known(prop):
    r = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip("\n")
            if line.startswith("known: property=%s " % prop):
                key, _, what = line[len("known: property=%s " % prop):].partition(" :: ")
                r[key] = what
    return r


class Report:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.violations = []
        self.findings = []
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}

    def replay_path(self, name):
        d = os.path.join(HERE, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        return os.path.join(d, "%s-%s.json" % (self.prop, name))

    def violation(self, name, what, data):
        """name identifies the failing input"""
        k = known(self.prop)
        if name in k:
            self.findings.append(name)
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k[name]))
            return
        path = self.replay_path(str(len(self.violations)))
        with open(path, "w") as f:
            json.dump(dict(data, property=self.prop, what=what, seed=self.seed, tier=self.tier), f, indent=1)
        self.violations.append(path)
        print("%s: %s" % (self.prop, what))
        print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)

    def add(self, **kw):
        for k, v in kw.items():
            if isinstance(v, int):
                self.cov[k] = self.cov.get(k, 0) + v
            else:
                self.cov[k] = v

    def finish(self):
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": LEVEL, "coverage": self.cov,
              "violations": len(self.violations), "wall_s": round(time.time() - self.t0, 1)}
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s seed %d: %d traces validated, %d states, %.0f s, %d violation(s)" % (
            self.prop, self.tier, self.seed, self.cov.get("traces_validated_against_impl", 0), self.cov["states"], time.time() - self.t0, len(self.violations)))
        return 1 if self.violations else 0


def jobs_of(progs):
    out = []
    for i, p in enumerate(progs):
        j = {"id": i, "calls": p.get("calls", [])} if isinstance(p, dict) else {"id": i, "calls": p}
        if isinstance(p, dict):
            j.update({k: v for k, v in p.items() if k != "calls"})
        out.append(j)
    return out


def shrink(calls, bad):
    """drop calls as long as the program stays bad"""
    i = len(calls) - 1
    tries = 0
    while i >= 0 and len(calls) > 1 and tries < 6:
        c = calls[:i] + calls[i + 1:]
        tries += 1
        if bad(c):
            calls = c
        i -= 1
    return calls


def units_of(jobs, tr):
    """the Worlds of the jobs: (job, calls, trace)"""
    u = []
    for j in jobs:
        r = tr[j["id"]]
        if j.get("joint"):
            # several Worlds and then the first of them, as one World which does it all in one order
            ts = r.get("traces")
            calls = [c for w in j["worlds"] for c in w] + j["after"]
            u.append((j, calls, [e for t in ts for e in t] if ts else r["trace"]))
        elif "worlds" in j:
            ts = r.get("traces") or [r["trace"]] * len(j["worlds"])
            u += [(j, c, t) for c, t in zip(j["worlds"], ts)]
        else:
            u.append((j, j["calls"], r["trace"]))
    return u


def validate(rep, progs, kinds=None, fuel=6000, limit=20, race=False, total=600, nproc=None, procs=2):
    """run programs on the implementation and check the traces against LispCore"""
    jobs = jobs_of(progs)
    tr = run.drive(jobs, limit=limit, race=race, total=total, nproc=nproc, procs=procs)
    units = units_of(jobs, tr)
    cases, unread = [], 0
    for i, (j, calls, trace) in enumerate(units):
        try:
            cases.append(sexp.case(i, calls, trace, fuel, job=j))
        except ValueError:
            unread += 1
    res = run.check_cases(cases)
    n = len(res.acc) + len(res.rej)
    rep.add(states=res.states, transitions=res.transitions, traces_validated_against_impl=n, programs=len(progs), unspecified=len(res.drop), unread=unread,
            distinct_programs=len({json.dumps([c for c in (j.get("worlds"), j["calls"], j.get("order"), j.get("cancel"), j.get("precancel"), j.get("cancelms")) if c]) for j in jobs}))
    if kinds:
        rep.cov.setdefault("kinds", {}).update(kinds)
    why = rep.cov.setdefault("unspecified_why", {})
    for d in res.drop.values():
        why[str(d[2])] = why.get(str(d[2]), 0) + 1
    for i in sorted(res.acc)[:: max(1, len(res.acc) // 3)][:3]:
        rep.cov["samples"].append({"program": units[i][1], "trace": units[i][2][:12], "states": res.acc[i][2]})

    def bad(calls, job, tries=1):
        for _ in range(tries):
            j2 = dict(job, id=0, calls=calls)
            us = units_of([j2], run.drive([j2], limit=limit, race=race, procs=procs))
            r = run.check_cases([sexp.case(k, c, t, fuel, job=j2) for k, (_, c, t) in enumerate(us)])
            for k in sorted(r.rej):
                return us[k][2], r.rej[k]
        return None
    shown = 0
    for i in sorted(res.rej, key=lambda i: (sum(map(len, units[i][1])), i)):
        if shown >= 3:
            break
        job, calls, trace = units[i]
        rej = res.rej[i]
        again = bad(job["calls"], job, 2)
        if again is None and trace and trace[-1][0] in ("hang", "crash") and not job.get("par"):
            continue  # not reproduced: the process was disturbed
        if again is not None and shown == 0 and not any(job.get(k) for k in ("views", "worlds", "bad", "any")) and "argv" not in job:
            calls = shrink(calls, lambda c: bad(c, job))
            b = bad(calls, job)
            if b:
                trace, rej = b
        shown += 1
        rep.violation(json.dumps(calls), "element %s of the trace: the specification allows %s, the implementation did %s; program: %s%s" % (
            rej[2], json.dumps(rej[3])[:300], json.dumps(rej[4])[:300], json.dumps(calls)[:600], " (one of %d Worlds)" % len(job["worlds"]) if "worlds" in job else ""),
            {"calls": calls, "job": {k: v for k, v in job.items() if k not in ("calls", "id")}, "trace": trace, "expected": rej[3], "got": rej[4], "position": rej[2]})
    rep.add(rejected=len(res.rej))
    return res


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    rep = Report(prop, tier, seed)
    try:
        from . import checks
        checks.CHECKS[prop](rep)
        rc = rep.finish()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == "__main__":
    main()

"""Building the drivers from /repo, running programs on them and checking the traces with TLC."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
JAR = "/opt/veriftools/tla/tla2tools.jar"
CP = ":".join([JAR] + [os.path.join("/opt/veriftools/tla", f) for f in sorted(os.listdir("/opt/veriftools/tla")) if f.endswith(".jar") and f != "tla2tools.jar"])
NCPU = min(8, os.cpu_count() or 1)


class ToolError(Exception):
    pass


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="verif-", dir=os.environ.get("VERIF_SCRATCH", "/var/tmp"))
        import atexit
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


_built = {}


def build(cmd="drive", race=False):
    """build the command ./cmd of the harness against the working tree of /repo"""
    key = (cmd, race)
    if key in _built:
        return _built[key]
    hd = os.path.join(VERIF, "harness")
    if REPO != "/repo":
        hd2 = os.path.join(scratch(), "harness")
        if not os.path.isdir(hd2):
            shutil.copytree(hd, hd2)
            p = os.path.join(hd2, "go.mod")
            s = open(p).read().replace("=> /repo", "=> " + REPO)
            open(p, "w").write(s)
        hd = hd2
    out = os.path.join(scratch(), cmd + ("-race" if race else ""))
    env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local")
    a = ["go", "build"] + (["-race"] if race else []) + ["-o", out, "./" + cmd]
    r = subprocess.run(a, cwd=hd, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        raise ToolError("build of %s failed:\n%s" % (cmd, r.stderr[-3000:]))
    _built[key] = out
    return out


def cli(jobs, limit=20):
    """run the command gmnlisp: {id: result}"""
    from concurrent.futures import ThreadPoolExecutor
    key = "gmnlisp"
    if key not in _built:
        out = os.path.join(scratch(), key)
        r = subprocess.run(["go", "build", "-o", out, "./cmd/gmnlisp"], cwd=REPO, capture_output=True, text=True,
                           env=dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local"))
        if r.returncode != 0:
            raise ToolError("build of gmnlisp failed:\n%s" % r.stderr[-3000:])
        _built[key] = out

    def one(j):
        d = tempfile.mkdtemp(dir=scratch())
        for n, t in j.get("files", []):
            with open(os.path.join(d, n), "w", newline="") as f:
                f.write(t)
        try:
            r = subprocess.run([_built[key]] + j["args"], cwd=d, input=j.get("stdin", "").encode(), capture_output=True, timeout=limit)
            t = ["crash", "the process ended with %d" % r.returncode] if r.returncode not in (0, 1) or b"goroutine 1 [" in r.stderr else \
                ["exit", r.returncode, [ord(c) for c in r.stdout.decode("utf-8", "replace")], [ord(c) for c in r.stderr.decode("utf-8", "replace")]]
        except subprocess.TimeoutExpired:
            t = ["hang"]
        shutil.rmtree(d, ignore_errors=True)
        return j["id"], {"id": j["id"], "trace": [t]}
    with ThreadPoolExecutor(NCPU) as ex:
        return dict(ex.map(one, jobs))


def _run_chunk(exe, jobs, out, limit, total, procs=2):
    """run the jobs in one driver process, restarting it when a job kills it"""
    i = hangs = 0
    while i < len(jobs):
        env = dict(os.environ, DRIVE_LIMIT="%ds" % (limit if hangs < 2 else min(limit, 3)), GOMAXPROCS=str(procs), GORACE="halt_on_error=1 exitcode=66")
        p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, cwd=scratch())
        data = ("\n".join(json.dumps(j) for j in jobs[i:]) + "\n").encode()

        def feed(p=p, data=data):
            try:
                p.stdin.write(data)
                p.stdin.close()
            except (BrokenPipeError, OSError):
                pass
        t = threading.Thread(target=feed, daemon=True)
        t.start()
        timer = threading.Timer(total, p.kill)
        timer.start()
        n = 0
        for line in p.stdout:
            r = json.loads(line)
            out[r["id"]] = r
            n += 1
        p.wait()
        timer.cancel()
        i += n
        if p.returncode == 3:
            hangs += 1
            if hangs > 12:  # enough to report
                for j in jobs[i:]:
                    out[j["id"]] = {"id": j["id"], "trace": [["cut"]]}
                return
            continue  # the last one was a hang
        if i < len(jobs) and p.returncode != 0:
            out[jobs[i]["id"]] = {"id": jobs[i]["id"], "trace": [["crash", "a data race" if p.returncode == 66 else "the process died (%s)" % p.returncode]]}
            i += 1
        elif i < len(jobs):
            raise ToolError("driver stopped early")


def drive(jobs, cmd="drive", race=False, limit=20, total=600, nproc=None, procs=2):
    """run jobs on the implementation; returns {id: result}"""
    exe = build(cmd, race)
    nproc = nproc or NCPU
    out = cli([j for j in jobs if "argv" in j])
    jobs = [j for j in jobs if "argv" not in j]
    chunks = [jobs[i::nproc] for i in range(nproc)]
    errs = []

    def go(c):
        try:
            _run_chunk(exe, c, out, limit, total, procs)
        except Exception as e:  # noqa
            errs.append(e)
    ts = [threading.Thread(target=go, args=(c,)) for c in chunks if c]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise ToolError(str(errs[0]))
    return out


LINE = re.compile(r'^"(\[.*\])"\s*$')


def tlc(module, cfg, env=None, workers=None, timeout=800, files=None, extra=(), xss="1g", xmx=None):
    """run TLC; returns (messages printed with PrintT(ToJson(..)), text, states generated, distinct)"""
    d = tempfile.mkdtemp(dir=scratch())
    e = dict(os.environ)
    e.update(env or {})
    a = ["java", "-Xss" + xss, "-Xmx" + (xmx or "12g"), "-XX:+UseParallelGC" if (workers or NCPU) > 2 else "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4", "-cp", CP, "tlc2.TLC", "-workers", str(workers or NCPU), "-metadir", d,
         "-noGenerateSpecTE", "-config", os.path.join(os.environ.get("SPECDIR", os.path.join(VERIF, "spec")), cfg)] + list(extra) + [os.path.join(os.environ.get("SPECDIR", os.path.join(VERIF, "spec")), module + ".tla")]
    try:
        r = subprocess.run(a, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    msgs = []
    for line in r.stdout.splitlines():
        m = LINE.match(line)
        if m:
            msgs.append(json.loads(json.loads('"' + m.group(1) + '"')))
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct", r.stdout)
    gen, dis = (int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))) if m else (0, 0)
    return msgs, r.stdout + r.stderr, gen, dis, r.returncode


class Result:
    def __init__(self):
        self.acc, self.rej, self.drop = {}, {}, {}
        self.states = self.transitions = 0
        self.invariant = None


def _check_part(part, n, module, cfg, timeout, workers, xmx, failed=()):
    path = os.path.join(scratch(), "cases-%d.ndjson" % n)
    with open(path, "w") as f:
        for c in part:
            f.write(json.dumps(c) + "\n")
    msgs, text, gen, dis, rc = tlc(module, cfg, env={"CASES": path}, timeout=timeout, workers=workers, xmx=xmx)
    os.unlink(path)
    if rc != 0:
        keep = os.environ.get("VERIF_KEEP")
        if keep:
            open(keep, "w").write(text)
        if "Invariant" in text and "is violated" in text:
            raise ToolError("invariant of the specification violated:\n" + text[-3000:])
        pids = re.findall(r"pid \|-> (\d+)", text)
        if pids and "evaluating the nested" in text and len(failed) < int(os.environ.get("VERIF_UNDEF", "5")) and len(part) > 1:
            # the specification is not defined for this program: go on without it
            i = int(pids[-1]) - 1
            return _check_part(part[:i] + part[i + 1:], n, module, cfg, timeout, workers, xmx, tuple(failed) + (part[i],))
        raise ToolError("TLC failed (%d):\n%s" % (rc, text[:200] + "\n...\n" + text[-3000:]))
    return part, msgs, text, gen, dis, failed


def check_cases(cases, module="LispCore", cfg="Lisp.cfg", batch=600, timeout=800, nproc=None):
    """check recorded traces against the specification"""
    from concurrent.futures import ThreadPoolExecutor
    res = Result()
    nproc = nproc or NCPU
    k = max(1, -(-len(cases) // batch))
    if k > nproc // 2:
        k = -(-k // nproc) * nproc
    parts = [cases[i::k] for i in range(k)]
    w = max(1, NCPU // min(k, nproc))
    with ThreadPoolExecutor(nproc) as ex:
        fs = [ex.submit(_check_part, p, n, module, cfg, timeout, w, "%dm" % (16000 // min(k, nproc))) for n, p in enumerate(parts) if p]
        for fu in fs:
            part, msgs, text, gen, dis, failed = fu.result()
            for c in failed:
                if os.environ.get("VERIF_DEBUG"):
                    print("undefined", {k: c[k] for k in ("id", "cells", "groups", "trace")})
                res.drop[c["id"]] = ["DROP", c["id"], "the specification is undefined", 0]
            for m in msgs:
                if m[0] == "ACC":
                    res.acc[m[1]] = m
                elif m[0] == "REJ":
                    if m[1] not in res.rej or res.rej[m[1]][2] < m[2]:
                        res.rej[m[1]] = m
                elif m[0] == "DROP":
                    res.drop[m[1]] = m
            # a cancelled call may stop at several places: one explanation is enough
            for i in list(res.rej) + list(res.drop):
                if i in res.acc:
                    res.rej.pop(i, None)
                    res.drop.pop(i, None)
            for i in list(res.rej):
                if i in res.drop:
                    del res.rej[i]
            ids = {c["id"] for c in part}
            left = ids - set(res.acc) - set(res.rej) - set(res.drop)
            if left:
                raise ToolError("%d cases without a verdict, e.g. %s\n%s" % (len(left), sorted(left)[:3], text[-1500:]))
            res.states += dis
            res.transitions += max(0, gen - len(part))
    return res


def lin(cases):
    """which histories Lin.tla explains: (ids, distinct states, transitions)"""
    acc, states, gen = set(), 0, 0
    for i in range(0, len(cases), 2000):
        path = os.path.join(scratch(), "lin-%d.ndjson" % i)
        part = cases[i:i + 2000]
        with open(path, "w") as f:
            for c in part:
                f.write(json.dumps(c) + "\n")
        msgs, text, g, d, rc = tlc("Lin", "Lin.cfg", env={"CASES": path})
        os.unlink(path)
        if rc != 0:
            raise ToolError("TLC failed (%d):\n%s" % (rc, text[-3000:]))
        acc |= {m[1] for m in msgs if m[0] == "ACC"}
        states += d
        gen += max(0, g - len(part))
    return acc, states, gen

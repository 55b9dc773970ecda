"""Programs of several Worlds, cancellation, host errors and robustness (C21-C25)."""
import json
import random

from . import ctx, gen
from .ctx import CTX, fill
from .progs import NAMES, PROBE, LEAVE, LEAVE_OUT
from .progs2 import CHK, chk

# ---------------------------------------------------------------- C21
# what one World may do; %K is a number of the World, %U of the program
DEFS = [
    "(defun f (x) (list 'w%K x))",
    "(defun f (x) (if (= x 0) (tr 'end %K) (progn (tr 'f %K x) (f (- x 1)))))",
    "(defun h (g) (tr 'h %K) (funcall g))",
    "(defmacro mm (x) (list 'list %K x))",
    "(defmacro mm (x &rest r) `(progn (tr 'mm %K) ,x ,@r))",
    "(defdynamic *d* %K)",
    "(setf (dynamic *d*) (list %K))",
    "(defgeneric gg (x)) (defmethod gg ((x <integer>)) (list 'int %K x)) (defmethod gg ((x <object>)) (list 'obj %K))",
    "(defgeneric gg (x)) (defmethod gg ((x <number>)) (list 'num %K (if (next-method-p) (call-next-method))))",
    "(let ((n %K)) (defun cnt () (setq n (+ n 1)) n))",
    "(defun third (x) (list 'mine %K))",
    "(defun string-index (x y) 'index%K)",
    "(defun max (x &rest y) 'max%K)",
    "(defclass <c%K-%U> () ((a :initarg a :accessor acc :initform %K)))",
    "(defmethod acc ((x <integer>)) (list 'accint %K))",
    "(defmethod report-condition ((x <c%K-%U>) (s <object>)) (format s \"rep%K\"))",
    "(defun when2 (x) (tr 'when2 %K x))",
    "(defmacro when2 (x) (list 'tr ''mwhen2 x %K))",
    "(defun leaf () (throw 'k %K))",
    "(defun second (x) 'second%K)",
]
USES = [
    "(ignore-errors (f 2))", "(f 1)", "(ignore-errors (h (lambda () (dynamic *d*))))", "(ignore-errors (mm 5))", "(dynamic *d*)", "(ignore-errors (dynamic *d*))", "(ignore-errors (gg 3))", "(gg 'sym)", "(ignore-errors (cnt))", "(cnt)",
    "(third '(1 2 3))", "(string-index \"b\" \"abc\")", "(max 1 5 2)", "(ignore-errors (acc (create <c%K-%U>)))", "(ignore-errors (acc 5))", "(ignore-errors (when2 7))", "(catch 'k (ignore-errors (leaf)))",
    "(tr 'fs (functionp (function car)) (ignore-errors (functionp (function f))))", "(second '(1 2 3))", "(ignore-errors (funcall (function second) '(1 2)))",
    "(format t \"w%K\")", "(format t \"~&l%K\")", "(format t \"x~%\")", "(format (error-output) \"~&e%K\")", "(format t \"~a\" (list %K))",
    "(quit)", "(abort)", "(car %K)", "(error \"e~a\" %K)", "(throw 'nobody %K)", "(undef-f)", "undef-v", "(host-fail \"w%K\")", "(return-from nowhere 1)",
    "(dynamic-let ((*d* 'in%K)) (tr (dynamic *d*)) (ignore-errors (car 5)) (tr (dynamic *d*)))",
    "(dynamic-let ((*d* 'in%K) (*e* 1)) (tr (dynamic *d*)) (throw 'nobody 1))",
    "(dynamic-let ((*d* 'in%K)) (quit))",
    "(with-handler (lambda (c) (tr 'h %K) (continue-condition c %K)) (tr (+ 1 (car 5))))",
    "(with-handler (lambda (c) (tr 'h %K) (abort)) (car 5))",
    "(block b (with-handler (lambda (c) (tr 'h %K) (return-from b %K)) (list (error \"x\"))))",
    "(catch 'k (with-handler (lambda (c) (throw 'k %K)) (car 5)))",
    "(with-standard-input (create-string-input-stream \"in%K more\") (tr (read-line)))",
    "(with-standard-input (create-string-input-stream \"in%K more\") (tr (read)) (car 5))",
    "(with-standard-input (create-string-input-stream \"a b\") (quit))",
    "(tr (read-line (standard-input) nil 'eof))",
    "(unwind-protect (car 5) (tr 'c%K) (setf (dynamic *d*) 'set%K))",
    "(tagbody a (tr 'a %K) (go b) (tr 'no) b (tr 'b))",
]
# library functions and macros of the embedded Lisp code, used in scopes which have the names they use inside
LIB = ["(=~ \"(a+)b\" \"aabxab\")", "(=~i \"[%K-9]\" \"x1y%K\")", "(=~ \"w%K(x|y)?\" \"w%Kyw%K\")", "(subst 1 'a '(a (b a)))",
       "(nth 1 '(1 2 3))", "(nthcdr 1 '(1 2 3))", "(max 2 9 4)", "(min 3 1 2)", "(1+ 4)", "(1- 4)", "(caddr '(1 2 3))", "(cddr '(1 2 3))", "(cdddr '(1 2 3 4))", "(cadddr '(1 2 3 4))", "(cadr '(1 2))", "(caar '((1) 2))", "(rest '(1 2))",
       "(first '(1 2))", "(second '(1 2))", "(let ((q (list 1 2 3))) (setf (nth 1 q) 9) q)", "(let ((q (list 1 2 3))) (setf (elt q 0) 8) q)", "(let ((q 5)) (incf q) q)", "(let ((q 5)) (decf q 2) q)",
       "(let ((q nil)) (dolist (e '(1 2)) (setq q (cons e q))) q)", "(for ((i 0 (+ i 1))) ((= i 3) i) (tr i))", "(case-using #'eql 2 ((1) 'a) ((2) 'b))", "(prog1 1 2)", "(prog2 1 2 3)", "(when t 1 2)", "(unless nil 1 2)",
       "(ignore-errors (error \"e~a\" 1))", "(block bb (with-handler (lambda (c) (return-from bb (list (simple-error-format-string c) (simple-error-format-arguments c)))) (error \"e~a\" 1)))",
       "(let ((q (list 1 2 3))) (setf (cadr q) 9) q)", "(let ((q (vector 1 2 3))) (setf (elt q 0) 8) q)", "(let ((q \"abc\")) (setf (elt q 1) #\\x) q)",
       "(with-handler (lambda (c) (continue-condition c 7)) (cerror \"go\" \"e\"))", "(let ((q 1)) (setf q 2) q)", "(mapcar #'1+ '(1 2))", "(funcall #'max 1 2)", "(apply #'nth 1 '((7 8)))", "(mapcar #'second '((1 2) (3 4)))"]
SCOPES = [
    "%H", "(let ((x 50) (y 51) (z 52) (n 53) (list 54) (l 55)) %H)", "(let ((a nil) (b nil) (s nil) (newvalue 1) (source 2)) %H)",
    "(flet ((elt (&rest r) 'mine) (cdr (x) 'mine) (append (x) 'mine)) %L)", "(flet ((car (x) 'mine) (cdr (x) 'mine) (+ (x y) 'mine) (- (x y) 'mine) (> (x y) t) (< (x y) t)) %L)",
    "(labels ((signal-condition (c x) 'mine) (create (&rest r) 'mine) (consp (x) t)) %L)", "(flet ((while2 () 1)) %H)", "(dynamic-let ((x 5) (a 6)) %H)", "(block b (catch 'k %H))",
    "(funcall (lambda (x &rest b) %H) 1 2)", "(let ((error-string 1) (obj 2) (continue-string 3)) %H)",
    "(flet ((f (x) %H)) (f 1))", "(with-handler (lambda (e) (tr 'outer e) (continue-condition e 1)) %H)",
]
FUNLIB = [l for l in LIB if l.split()[0] in ("(nth", "(nthcdr", "(max", "(min", "(1+", "(1-", "(caddr", "(cddr", "(cdddr", "(cadddr", "(cadr", "(caar", "(rest", "(first", "(second")]


def lib_use(r):
    s = r.choice(SCOPES)
    return "(tr 'lib %s)" % s.replace("%H", r.choice(LIB)).replace("%L", r.choice(FUNLIB))


# definitions of a World which replace functions other library code does not use
OVER = {"third", "string-index", "max", "second"}


def world_calls(m, r, k, u, n):
    calls = []
    mine = set()
    for _ in range(n):
        x = r.random()
        if x < .3:
            c = r.choice(DEFS)
        elif x < .75:
            c = r.choice(USES)
        else:
            c = lib_use(r)
            if any("(%s " % o in c or "#'" + o in c for o in mine):
                continue
        name = (c.split() + [""])[1]
        if c.startswith("(defun") and name in OVER:
            mine.add(name)
        if c.startswith("(defmethod report") or "<c%K" in c and not c.startswith("(defclass"):
            if not any("(defclass <c" in q for q in calls):
                continue
        if c.startswith("(defclass") and any(q.startswith("(defclass") for q in calls):
            continue
        if c.startswith("(defmethod acc") and not any("accessor acc" in q for q in calls):
            continue
        # a name is not a macro and a function in one World, and a generic function is not defined again
        if name in ("mm", "when2", "f") and any((q.split() + [""])[1] == name and q.split()[0] != c.split()[0] for q in calls):
            continue
        if "defgeneric" in c and any("defgeneric" in q for q in calls):
            continue
        calls.append(c.replace("%K", str(k)).replace("%U", str(u)))
    return calls


def order(r, worlds):
    o = [i for i, w in enumerate(worlds) for _ in w]
    style = r.randrange(3)
    if style == 0:
        r.shuffle(o)
    elif style == 1:  # in turns
        o = [i for t in range(max(map(len, worlds))) for i, w in enumerate(worlds) if t < len(w)]
    return o


HOST_USES = ["host-x", "(tr host-x host-y)", "(ignore-errors host-x)", "(setq host-x (list 'set %K))", "(ignore-errors (setq host-x 9))", "(let ((host-x 7)) (tr host-x host-y))", "(ignore-errors (host-f 5))", "(host-f host-y)", "(ignore-errors (funcall #'host-f 3))",
             "(mapcar #'host-f '(1 2))", "(car '(1 2))", "(tr (cadr '(1 2)) (car '(3 4)))", "(defun uses-x () (ignore-errors host-x))", "(uses-x)", "(defun uses-f () (ignore-errors (host-f 1)))", "(uses-f)", "(caar '((1) 2))", "(nth 0 '(4 5))",
             "(flet ((host-f (x) 'inner)) (host-f 1))", "(let ((f (lambda () host-x))) (setq host-x 'z) (funcall f))", "(defglobal host-x%U 5)", "(first '(6 7))", "(mapcar #'car '((1) (2)))", "(defun car2 (x) (car x))", "(car2 '(8 9))", "(f 1)", "(defun f (x) (list x (ignore-errors host-y)))",
             "(defdynamic *d* host-x)", "(dynamic *d*)", "(labels ((g (n) (if (= n 0) host-x (g (- n 1))))) (g 2))"]


def c21(m):
    r = m.rng
    for i in range(420 if m.quick else 5000):
        u = m.uid()
        n = r.choice([2, 2, 3, 4])
        ws = [[CHK] + world_calls(m, r, k + 1, u, r.randrange(4, 12)) for k in range(n)]
        m.add_job({"worlds": ws, "order": order(r, ws)}, "definitions")
    for i in range(200 if m.quick else 2000):
        # the same library code in all the Worlds, the first use in any scope
        ls = [lib_use(r) for _ in range(r.randrange(2, 6))]
        ws = []
        for k in range(r.choice([2, 3])):
            w = list(ls)
            r.shuffle(w)
            ws.append(w + [lib_use(r)])
        m.add_job({"worlds": ws, "order": order(r, ws)}, "library")
    for i in range(150 if m.quick else 2500):
        ws = []
        prof = gen.mix(gen.BASE, gen.EXITS, dynlet=2, dynset=1, dynref=2, error=1, ignore=1, handler=1, flet=1, macro=1, out=1)
        for k in range(r.choice([2, 2, 3])):
            ws.append(gen.program("C21-%s" % m.seed, m.uid() * 10 + k, prof, 3))
        m.add_job({"worlds": ws, "order": order(r, ws)}, "random")
    for i in range(300 if m.quick else 3000):
        # host bindings: one World, several views of it; and another World
        u = m.uid()
        n = r.randrange(6, 16)
        calls = ["(let ((dummy 1)) dummy)"]
        for _ in range(n):
            calls.append(r.choice(HOST_USES).replace("%K", str(u)).replace("%U", str(u)))
        m.add_job({"calls": calls, "views": [0] + [r.randrange(5) for _ in range(len(calls) - 1)]}, "host bindings")


# ---------------------------------------------------------------- C22
def shared_history(m, r, u):
    """Worlds which read and write two global variables: the operations and the calls"""
    g = ["sh%d-1" % u, "sh%d-2" % u]
    nw = r.choice([2, 2, 3, 3])
    ops = []
    for k in range(nw):
        o = []
        for i in range(r.randrange(4, 9)):
            reg = r.choice([1, 2])
            kind = r.choice(["set", "get", "two", "push" if reg == 1 else "add"])
            v = 100 * (k + 1) + i
            if kind == "set":
                o.append((kind, reg, v) if reg == 2 else (kind, reg, None))
            else:
                o.append((kind, reg, v))
        ops.append(o)
    calls = []
    for o in ops:
        c = []
        for kind, reg, v in o:
            n = g[reg - 1]
            if kind == "set":
                c.append(r.choice(["(setq %s %s)", "(setq %s %s)", "(funcall (lambda (v) (setq %s v)) %s)"]) % (n, "nil" if v is None else v))
            elif kind == "get":
                c.append(r.choice(["%s", "(progn %s)", "(let ((q %s)) q)", "(funcall (lambda () %s))"]) % n)
            elif kind == "two":
                c.append("(list %s %s)" % tuple(g))
            elif kind == "push":
                c.append("(setq %s (cons %d %s))" % (n, v, n))
            else:
                c.append("(setq %s (+ %s %d))" % (n, n, v))
        calls.append(c)
    return g, ops, calls


def ext_of(v):
    return ["s", "nil"] if v is None else ["i", v]


def run_shared(rep, m, r, n, race):
    from . import run
    jobs, hist = [], []
    for i in range(n):
        g, ops, calls = shared_history(m, r, 1000000 + i + (500000 if race else 0))
        pre = "(defglobal %s nil) (defglobal %s 0)" % tuple(g)
        jobs.append({"id": i, "calls": [], "worlds": calls, "par": True, "pre": pre})
        hist.append(ops)
    tr = run.drive(jobs, race=race, total=600, nproc=4, procs=8)
    cases, bad = [], []
    for j, ops in zip(jobs, hist):
        t = tr[j["id"]].get("traces")
        ws = []
        ok = t is not None
        for o, w in zip(ops, t or []):
            if [e[:2] for e in w] != [["res", "val"]] * len(o):
                ok = False
                break
            ws.append([[k, reg, ext_of(v), e[2]] for (k, reg, v), e in zip(o, w)])
        if not ok:
            bad.append((j, "a World did not give a value for each of its forms: %s" % json.dumps(tr[j["id"]])[:600]))
            continue
        cases.append({"id": j["id"], "init": [["s", "nil"], ["i", 0]], "worlds": ws})
    acc, states, gen_ = run.lin(cases)
    rep.add(histories_of_shared_variables=len(cases), states=states, transitions=gen_, traces_validated_against_impl=len(cases))
    for c in cases:
        if c["id"] not in acc:
            bad.append((jobs[c["id"]], "no order of the operations of the Worlds explains what they saw: %s" % json.dumps(c["worlds"])[:900]))
    for j, what in bad[:3]:
        rep.violation(json.dumps(j["worlds"]), "%s; program: %s" % (what, json.dumps(j["worlds"])[:600]), {"job": j, "result": tr[j["id"]]})


GLOB = [
    "(defglobal q%U-%K %K)", "(defglobal q%U-%K (list %K 'a \"s\"))", "(setq q%U-%K (list 'again %K))", "q%U-%K", "(defclass <c%U-%K> () ((a :initarg a :initform %K :accessor a%U-%K)))",
    "(defclass <d%U-%K> (<c%U-%K>) ((b :initform 'b)))", "(defglobal y%U-%K (read (create-string-input-stream \"new-sym-%U\")))", "(defglobal z%U-%K (read (create-string-input-stream \"(s%U-1 s%U-2 :k%U |Q %U|)\")))",
    "(defglobal n%U-%K (gensym))", "(defglobal i%U-%K (create <c%U-%K> 'a 5))", "(defun f%U-%K (x) (list x %K))", "(defglobal l%U-%K (lambda (x) (list x %K)))", "(defdynamic *d%U-%K* %K)", "(class-of %K)", "(subclassp <d%U-%K> <c%U-%K>)",
    "(mapcar (lambda (x) (incf x) x) '(1 2 3))", "(let ((q (list 1 2))) (setf (cadr q) %K) q)", "(a%U-%K i%U-%K)", "(format nil \"~a ~s\" %K \"x\")", "(for ((i 0 (+ i 1))) ((= i 3) i))", "(dolist (x '(1 2)) x)",
]
AFTER = ["(eq y%U-1 y%U-2)", "(eq y%U-1 'new-sym-%U)", "(mapcar #'eq z%U-1 z%U-2)", "(list (eq n%U-1 n%U-2) (eq n%U-1 n%U-1))", "(class-of i%U-1)", "(list (instancep i%U-1 <c%U-1>) (instancep i%U-1 <c%U-2>))",
         "(list q%U-1 q%U-2)", "(subclassp <d%U-2> <c%U-2>)", "(list (funcall l%U-1 1) (funcall l%U-2 2))", "(list (class-of (create <d%U-1>)) (instancep (create <d%U-2>) <c%U-2>))", "(equal z%U-1 z%U-2)", "(list (eql q%U-1 q%U-2))"]


def c22(rep):
    from .check import validate
    from . import progs as P
    m = P.Maker(rep.prop, rep.seed, rep.tier)
    r = m.rng
    k = 1 if m.quick else 8

    def indep(n, u0):
        out = []
        for i in range(n):
            u = u0 + i
            x = r.random()
            nw = r.choice([2, 3, 4, 6])
            if x < .5:
                ws = [[CHK] + world_calls(m, r, q + 1, u, r.randrange(5, 14)) for q in range(nw)]
            elif x < .7:
                ls = [lib_use(r) for _ in range(r.randrange(3, 9))]
                ws = []
                for q in range(nw):
                    w = list(ls)
                    r.shuffle(w)
                    ws.append(w)
            else:
                prof = gen.mix(gen.BASE, gen.EXITS, dynlet=2, dynset=1, dynref=2, error=1, ignore=1, handler=1, flet=1, macro=1, out=1, **{"global": 2})
                ws = [gen.program("C22-%s" % m.seed, u * 10 + q, prof, 3) for q in range(nw)]
            out.append({"worlds": ws, "par": True})
        return out
    validate(rep, indep(350 * k, 0), {"independent": 350 * k}, nproc=4, procs=8)
    validate(rep, indep(130 * k, 400000), {"independent, race detector": 130 * k}, race=True, nproc=4, procs=8)
    # global variables, classes and symbols made at the same time: afterwards they are as after any order
    js = []
    for i in range(150 * k):
        u = 700000 + i
        nw = 2
        ws = []
        for q in range(nw):
            c = [x for x in GLOB if "i%U" not in x and "d%U-%K>" not in x and "setq q" not in x and x != "q%U-%K" and "c%U" not in x]
            r.shuffle(c)
            c.insert(r.randrange(len(c)), "CLASS")
            w = []
            for x in c:
                if x == "CLASS":
                    w += [GLOB[4], GLOB[5], GLOB[9], GLOB[14], GLOB[17]]
                else:
                    w.append(x)
                    if x == GLOB[0]:
                        w += [GLOB[2], GLOB[3]]
            ws.append([x.replace("%U", str(u)).replace("%K", str(q + 1)) for x in w])
        after = [x.replace("%U", str(u)) for x in r.sample(AFTER, 8)]
        js.append({"worlds": ws, "par": True, "after": after, "joint": True})
    validate(rep, js[: len(js) * 2 // 3], {"made at the same time": len(js) * 2 // 3}, nproc=4, procs=8)
    validate(rep, js[len(js) * 2 // 3:], {"made at the same time, race detector": len(js) - len(js) * 2 // 3}, race=True, nproc=4, procs=8)
    run_shared(rep, m, r, 400 * k, False)
    run_shared(rep, m, r, 100 * k, True)

"""Programs of cancellation, errors seen by the host, robustness (C23-C25)."""
import json
import re

from . import ctx, gen
from .ctx import CTX, fill
from .progs import NAMES, PROBE, LEAVE, LEAVE_OUT, UNWINDS, DYN_FORMS, DYN_PROBE, HAND_FORMS, HANDLERS
from .progs2 import CHK, chk
from .progs4 import lit

# ---------------------------------------------------------------- C23
# what may swallow or convert the end of a cancelled evaluation
SWALLOW = [
    "%H", "(ignore-errors %H)", "(ignore-errors (ignore-errors %H) (tr 'more))", "(list (ignore-errors %H) (ignore-errors %H) 3)",
    "(block b (with-handler (lambda (c) (tr 'h) (return-from b 'handled)) %H))", "(with-handler (lambda (c) (tr 'h c) (continue-condition c 5)) %H)",
    "(catch 'k (with-handler (lambda (c) (throw 'k 'handled)) %H))", "(with-handler (lambda (c) (quit)) %H)", "(with-handler (lambda (c) nil) %H)",
    "(unwind-protect %H (tr 'c))", "(unwind-protect %H 5)", "(unwind-protect %H nil)", "(block b (unwind-protect %H (return-from b 'swallowed)))",
    "(catch 'k (unwind-protect %H (throw 'k 'swallowed)))", "(tagbody (unwind-protect %H (go out)) out)", "(unwind-protect %H (car 5))", "(unwind-protect %H (quit))", "(unwind-protect %H undef-v)",
    "(block b %H)", "(catch 'k %H)", "(tagbody a %H b (tr 'b))", "(let ((r nil)) (setq r (ignore-errors %H)) r)", "(if (ignore-errors %H) 1 2)", "(or (ignore-errors %H) 7)",
    "(dynamic-let ((*d* 77)) %H)", "(dynamic-let ((*d* 77)) (ignore-errors %H) (tr (dynamic *d*)))", "(with-standard-input (create-string-input-stream \"inner text\") %H)",
    "(block b (with-handler (lambda (c) (tr 'h) %H (return-from b 'handled)) (car 5)))", "(with-handler (lambda (c) %H (continue-condition c 5)) (+ 1 (car 5)))",
    "(with-handler (lambda (c) (continue-condition c (ignore-errors %H))) (tr (car 5)))", "(unwind-protect (car 5) %H)", "(unwind-protect (tr 'b) (ignore-errors %H) (tr 'c))",
    "(block b (unwind-protect (return-from b 1) %H))", "(ignore-errors (error \"e~a\" %H))", "(ignore-errors (mapcar (lambda (x) %H) '(1 2 3)))", "(format t \"~a~%\" (ignore-errors %H))",
    "(progn (format t \"before~%\") %H (format t \"after~%\"))", "(with-handler (lambda (c) (abort)) %H)", "(funcall (lambda (&rest r) (ignore-errors %H)) 1 2)",
    "(with-handler (lambda (c) (error \"another\")) %H)", "(with-handler (lambda (c) (signal-condition c nil)) %H)",
]
TICK = ["(tr 'x)", "(progn (tr 'x 1) (tr 'y 2) (tr 'z 3))", "(list (tr 'x) (tr 'y))", "(+ (tr 1) (tr 2))", "(progn (tr 'x) 5)", "(car (tr 5))", "(setq q23 (tr 'x))", "(return-from b (tr 1))", "(throw 'k (tr 1))",
        "(progn (tr 'x) undef-v)", "(progn (tr 'x) (error \"e\"))", "(progn (tr 'x) (quit))", "(nth (tr 0) '(7 8))", "(if (tr nil) 1 2)", "(funcall (lambda (x) x) (tr 5))", "(undef-f (tr 1))", "(g-two (tr 1) (tr 2))",
        "(mapcar #'tr '(1 2 3))", "(mapc (lambda (e) (tr e) (car (list e))) '(1 2 3 4))", "(while (tr 1) (tr 2))", "(let ((n 0)) (while t (setq n (+ n 1)) (tr n)))", "(host-fail (tr \"h\"))", "(signal-condition (create <simple-error> 'format-string (tr \"s\") 'format-arguments nil) t)",
        "(dolist (e '(1 2 3)) (tr e))", "(for ((i 0 (+ i 1))) ((tr nil)) (tr i))", "(format t \"~a\" (tr 5))", "(eval '(tr 6))", "(labels ((f (n) (tr n) (f (+ n 1)))) (f 0))", "(max (tr 1) 2)"]
# evaluations which never end
FOREVER = [
    "(while t)", "(while t nil)", "(while t 1 2)", "(while (list 1))", "(while '(1) (list 1))", "(while t (ignore-errors (car 5)))", "(while t (ignore-errors (error \"e\")))", "(while t (ignore-errors (while t)))",
    "(while t (catch 'k (throw 'k 1)))", "(while t (block b (return-from b 1)))", "(while t (with-handler (lambda (c) (continue-condition c 1)) (car 5)))", "(while t (block b (with-handler (lambda (c) (return-from b 1)) (car 5))))",
    "(while t (unwind-protect 1 (list 2)))", "(while t (catch 'k (unwind-protect (throw 'k 1) (list 2))))", "(tagbody a (go a))", "(tagbody a 1 (list 2) (go a))", "(let ((n 0)) (tagbody a (setq n (- 1 n)) (if (= n 1) (go a)) (go a)))",
    "(tagbody a (ignore-errors (car 5)) (go a))", "(while t (tagbody (go x) x))", "(labels ((f () (f))) (f))", "(labels ((f (n) (if (= n -1) 0 (f (+ n 1))))) (f 0))", "(labels ((f (n) (cond ((= n -1) 0) (t (f (+ n 1)))))) (f 0))",
    "(labels ((f (n) (let ((m n)) (f m)))) (f 0))", "(labels ((f (n) (let* ((m n)) (f m)))) (f 0))", "(labels ((f (n) (progn 1 (f n)))) (f 0))", "(labels ((f (&rest r) (f 1 2))) (f))", "(labels ((f (x) (f x))) (mapcar #'f '(1 2)))",
    "(progn (defun for-ever () (for-ever)) (for-ever))", "(progn (defun for-ever (n) (if n (for-ever n))) (for-ever 1))", "(dotimes (i 2000000000))", "(dotimes (i 2000000000) (list i))", "(for ((i 0 (+ i 1))) ((= i -1)))",
    "(for ((i 0 (- 1 i))) (nil) (ignore-errors (car i)))", "(dolist (e '(1 2)) (while t))", "(mapcar (lambda (x) (while t)) '(1 2 3))", "(mapc (lambda (x) (tagbody a (go a))) '(1))", "(maplist (lambda (x) (while t)) '(1 2 3))", "(mapcan (lambda (x) (while t)) '(1))",
    "(funcall (lambda () (while t)))", "(apply (lambda (x) (while x)) '(1))", "((lambda (x) (while x)) 1)", "(with-handler (lambda (c) (while t)) (car 5))", "(unwind-protect 1 (while t))", "(unwind-protect (car 5) (while t))", "(block b (unwind-protect (return-from b 1) (while t)))",
    "(unwind-protect (while t) (while t))", "(let ((x (while t))) x)", "(let* ((x 1) (y (while x))) y)", "(dynamic-let ((*d* (while t))) 1)", "(dynamic-let ((*d* 78)) (while (dynamic *d*)))", "(while t (dynamic-let ((*d* 5)) (dynamic *d*)))",
    "(if (while t) 1 2)", "(cond ((while t) 1))", "(case (while t) ((1) 2))", "(and 1 (while t))", "(or nil (while t))", "(when t (while t))", "(prog1 1 (while t))", "(setq q23 (while t))", "(list 1 (while t) (tr 'no))", "(catch (while t) 1)", "(throw (while t) 1)",
    "(progn (defgeneric gfor (x)) (defmethod gfor ((x <integer>)) (while t)) (gfor 1))", "(progn (defmacro mfor () (while t)) (mfor))", "(eval '(while t))", "(ignore-errors (while t))", "(ignore-errors (ignore-errors (while t)))", "(while (ignore-errors (while t)))",
    "(format t \"~a\" (while t))", "(while t (format nil \"~a~%\" 1))", "(while t (let ((s (create-string-output-stream))) (format s \"x\") (get-output-stream-string s)))", "(while t (eval '(list 1)))", "(while t (append '(1) '(2)))", "(while t (nth 1 '(1 2)))",
    "(progn (defclass <for%N> () ((a :initform (while t)))) (create (class <for%N>)))", "(with-standard-input (create-string-input-stream \"abc\") (while t (ignore-errors (read))))", "(case-using (lambda (a b) (while t)) 1 ((1) 2))", "(assoc (while t) nil)",
    "(flet ((g (f) (while t (funcall f)))) (g (lambda () 1)))", "`(1 ,(while t))", "(convert (while t) <string>)", "(let ((f nil)) (setq f (lambda () (funcall f))) (while t (list f)))", "(and t (labels ((f () (and t (f)))) (tagbody a (go a))))",
    "(for ((i 0 (while t))) ((= i 1) 5))", "(for ((i (while t))) (t))", "(for ((i 0)) ((while t)))", "(setf (car (while t)) 1)", "(let ((q (list 1))) (setf (car q) (while t)))", "(incf (while t))", "(signal-condition (while t) nil)", "(error (while t))",
    "(with-handler (while t) 1)", "(funcall (while t))", "(apply #'list (while t))", "(instancep (while t) <integer>)", "(while t (macroexpand '(m-id 1)))", "(dolist (e (while t)) 1)", "(dotimes (i (while t)) 1)", "(return-from b (while t))",
]
STATE = "(list (ignore-errors (dynamic *d*)) (block b 1) (catch 'k 2) (ignore-errors (car 3)) (ignore-errors (dynamic *none*)))"
AFTERS = ["(tr 'again (max 1 3 2) (nth 1 '(1 2)))", "(tr 'h (block b (with-handler (lambda (c) (return-from b 'ok)) (car 5))))", "(catch 'k (throw 'k (tr 'thrown)))", "(throw 'k 1)", "(car 5)", "(tr (ignore-errors (error \"e\")))",
          "(let ((r nil)) (dolist (e '(1 2)) (setq r (cons e r))) (tr r))", "(labels ((f (n) (if (= n 0) 'end (f (- n 1))))) (tr (f 3)))", "(progn (format t \"~&line~%\") (tr 'w))", "(tr (unwind-protect 1 (tr 'c)))", "(setq q23 (tr 'set))", "q23",
          "(tr (read-line (standard-input) nil 'eof))", "(tr (for ((i 0 (+ i 1))) ((= i 3) i)))", "(dynamic *d*)", "(setf (dynamic *d*) (tr 8))"]


def c23(m):
    r = m.rng
    pre = "(defdynamic *d* 10) (defglobal q23 'old)"

    def calls(t):
        c = ctx.prelude(t) + [pre, t, STATE] + r.sample(AFTERS, r.randrange(1, 4)) + ["(list q23 (dynamic *d*))"]
        return [x.replace("q23", "q23-%d" % m.uid()) for x in c]

    def add(t, kind, **kw):
        j = {"calls": calls(t), "cancel": 1, "files": [], "stdin": "first line\nsecond line\n"}
        if r.random() < .3:
            j["deadline"] = True
        j.update(kw)
        m.add_job(j, kind)
    q = m.quick
    # at each event of a form in every kind of construct
    prods = [(s, "plain", k) for s in SWALLOW for k in TICK]
    prods2 = [(s, a, k) for s in SWALLOW for a in NAMES if a != "plain" for k in TICK]
    for s, a, k in (m.sample(prods, 700) + m.sample(prods2, 700) if q else prods + m.sample(prods2, 9000)):
        t = fill(LEAVE_OUT if r.random() < .4 else "(tr 'val %H)", fill(s, fill(CTX[a], k)))
        add(t, "at-event", cancel=r.choice([1, 1, 1, 2, 2, 3, 4, 6]))
    for t in m.sample([fill(a, fill(b, k)) for a in SWALLOW for b in SWALLOW for k in TICK], 300 if q else 4000):
        add(t, "at-event", cancel=r.choice([1, 1, 2, 3]))
    for t in m.sample([fill(LEAVE_OUT, fill(u, k)) for u in UNWINDS + DYN_FORMS for k in TICK], 200 if q else 800):
        add(t.replace("%N", str(m.uid())), "at-event", cancel=r.choice([1, 1, 2, 3, 4]))
    for t in m.sample([fill(h.replace("%1", hd), k) for h in HAND_FORMS for hd in HANDLERS for k in TICK], 200 if q else 3000):
        add(fill(LEAVE_OUT, t), "at-event", cancel=r.choice([1, 1, 2, 3, 4]))
    # while something goes on for ever
    ever = [(s, f) for s in SWALLOW[:1] for f in FOREVER] + m.sample([(s, f) for s in SWALLOW[1:] for f in FOREVER], 200 if q else 3000)
    for s, f in ever:
        t = fill(s, "(progn (tr 'go) %s)" % f).replace("%N", str(m.uid()))
        t = t if r.random() < .5 else fill(LEAVE_OUT, t)
        add(t, "for-ever", cancelms=r.choice([1, 2, 5]), cancel=t.count("(tr 'b)") * 0 + 1)
    # a context which is cancelled before the call
    for t in m.sample([fill(s, k) for s in SWALLOW for k in TICK + ["5", "'a", "nil", "(list 1)", "(car 5)"]], 120 if q else 1000):
        n = len(calls(t))
        j = {"calls": calls(t), "precancel": len(ctx.prelude(t)) + r.choice([1, 2, 2, 2, 3]), "files": [], "stdin": "x\n"}
        m.add_job(j, "before-the-call")
    # streams which are open, loaded files
    for i in range(60 if q else 600):
        k = r.choice(TICK)
        t = r.choice(["(with-open-output-file (s \"o.txt\") (format s \"abc~%\") (tr 'w) %H (format s \"def~%\"))", "(with-open-input-file (s \"i.txt\") (tr (read-line s)) %H (tr (read-line s)))",
                      "(with-open-output-file (s \"o.txt\") (with-open-output-file (s2 \"p.txt\") (tr 's) %H))", "(load \"l.lsp\")", "(ignore-errors (load \"l.lsp\"))", "(progn (tr 'l) (load \"l.lsp\") (tr 'never))",
                      "(with-standard-input (create-string-input-stream \"inner\") (tr (read-char)) %H (tr (read-char)))", "(ignore-errors (with-open-input-file (s \"i.txt\") %H))"])
        t = fill(t, k)
        add(t, "streams", files=[["i.txt", "l1\nl2\nl3\n"], ["l.lsp", "(tr 'in-file)\n%s\n(setq q23 (tr 'loaded))\n".replace("q23", "q23-%d" % m.uid()) % r.choice(TICK).replace("q23", "q23-%d" % m.uid())]], cancel=r.choice([1, 1, 2, 3, 4]))
    # random programs
    prof = gen.mix(gen.BASE, gen.EXITS, error=2, handler=2, dynlet=2, dynref=2, flet=1, map=1, ignore=2)
    prof["while"] = 1
    for i in range(500 if q else 8000):
        pid = len(m.progs)
        p = gen.program("%s-%s" % (m.prop, m.seed), pid, prof, 4)
        m.add_job({"calls": list(p) + [PROBE, PROBE], "cancel": r.randrange(1, 12), "deadline": r.random() < .3}, "random")

# ---------------------------------------------------------------- C24
STMTS = ["(tr 's%I)", "(setq gx%N (cons %I gx%N))", "(setf (dynamic *d*) %I)", "(defun fn%N (x) (list 'fn %I x))", "(defdynamic *e* %I)", "(format t \"line%I~%%\")", "(format (error-output) \"e%I\")", "5", "'sym", "nil",
         "(defmacro mac%N (x) (list 'list %I x))", "(let ((v %I)) (tr 'let v))", "(set-property %I 'p%N 'q)", "(tr (ignore-errors (fn%N 1)))", "(tr gx%N (dynamic *d*))", "(defclass <k%I-%N> () ((a :initform %I)))",
         "(block b (tr 'b%I) (return-from b 1))", "(setf (car gy%N) %I)", "(tr (ignore-errors (car 5)))", "(defglobal gz%I-%N %I)", "\"text\"", "(create-string-input-stream \"x\")"]
FAILING = LEAVE + ["(error \"plain text\")", "(error \"~a and ~s\" \"x\" \"y\")", "(error \"~5d|~b|\" 7 5)", "(error \"\")", "(error \"line~%second\")", "(error \"~a\" '(1 \"s\" #\\c))", "(error \"日本~a\" \"語\")", "(error \"~d\" 'not-a-number)", "(error \"~a\")", "(error 5)", "(error 'sym 1)",
                   "(signal-condition 5 nil)", "(signal-condition \"a string\" nil)", "(signal-condition '(1 \"two\") t)", "(signal-condition 'sym nil)", "(signal-condition #\\a nil)", "(signal-condition 1.5 nil)", "(signal-condition nil nil)",
                   "(signal-condition (create <uc%N> 'a 5) nil)", "(signal-condition (create <uc%N>) t)", "(signal-condition (create <ud%N> 'a 6) nil)", "(signal-condition (create <ue%N> 'a 7) nil)", "(signal-condition (create <uf%N>) nil)", "(signal-condition (create <ug%N>) nil)",
                   "(error \"outer ~a\" (error \"inner\"))", "(cerror \"continue ~a\" \"told ~a\" 1)", "(funcall (lambda (x) (error \"in ~a\" x)) 3)", "(with-handler (lambda (c) (error \"handler ~a\" 1)) (error \"body\"))", "(with-handler (lambda (c) (tr 'h) 5) (error \"body\"))",
                   "(with-handler (lambda (c) (signal-condition c nil)) (error \"again ~a\" 2))", "(unwind-protect (error \"first\") (tr 'c))", "(unwind-protect (error \"first\") (error \"second\"))", "(dynamic-let ((*d* 5)) (error \"~a\" (dynamic *d*)))", "(elt '(1) 'x)", "(host-fail \"日本\")", "(host-fail \"\")",
                   "(unwind-protect (host-fail \"a\") (tr 'c))", "(unwind-protect (host-fail \"a\") (host-fail \"b\"))", "(with-handler (lambda (c) (host-fail \"in handler\")) (car 5))", "(with-handler (lambda (c) (tr 'h) 1) (host-fail \"declined\"))", "(load \"none.lsp\")", "(the <integer> \"s\")", "(convert \"x\" <integer>)",
                   "(eval '(error \"e\"))", "(macro-err)", "(apply #'error \"ap~a\" '(1))", "(mapcar #'host-fail '(\"m\"))", "(progn (tr 'p) (exit))", "(with-handler (lambda (c) (quit)) (car 5))", "(ignore-errors (quit))", "(ignore-errors (abort))", "(with-handler (lambda (c) (abort)) (error \"x\"))", "(unwind-protect (quit) (tr 'c))",
                   "(catch 'k (quit))", "(block b (abort))", "(unwind-protect (quit) (car 5))", "(unwind-protect (car 5) (quit))", "(unwind-protect (abort) (abort))", "(mapc (lambda (x) (quit)) '(1 2))"]
REP = "(defclass <uc%N> () ((a :initarg a :accessor uc-a%N :initform 1)))" \
      " (defclass <ud%N> (<uc%N>) ()) (defclass <ue%N> (<uc%N>) ()) (defclass <uf%N> () ()) (defclass <ug%N> (<error>) ())" \
      " (defmethod report-condition ((c <uc%N>) (s <object>)) (format s \"uc with ~a\" (uc-a%N c)))" \
      " (defmethod report-condition ((c <ud%N>) (s <object>)) (format s \"ud:\") (format s \"~s\" (uc-a%N c)) (format-char s #\\!) 5)" \
      " (defmethod report-condition ((c <uf%N>) (s <object>)) (tr 'reporting) (car 5))"
MACRO_ERR = "(defmacro macro-err () (error \"in expansion\"))"
BADTEXT = ["(tr 'one) )", "(tr 'one", "(tr 'one) \"abc", "(tr 'one) (a . b c)", "(tr 'one) #|", "'", "(tr 'one) #(1", "(tr 'one) |ab", "(tr 'x) . (tr 'y)", "(1 . )", "(tr 'one) `", "(tr 'one) #'"]


def c24(m):
    r = m.rng
    q = m.quick

    def subst(t, i):
        return t.replace("%N", str(m.uid())).replace("%I", str(i)).replace("%%", "%")

    def job(calls, kind, **kw):
        m.add_job(dict(calls=calls, api=r.choice([0, 0, 1, 2]), **kw), kind)

    def base(text):
        b = ["(defdynamic *d* 10) (defglobal gx%d nil) (defglobal gy%d (list 1 2))" % (m.uid(), m.uid())]
        if "<u" in text:
            b.append(subst(REP, 0))
        if "macro-err" in text:
            b.append(MACRO_ERR)
        return ctx.prelude(text) + b

    def probe():
        return subst("(list gx%N gy%N (dynamic *d*) (ignore-errors (fn%N 0)) (ignore-errors (mac%N 0)) (ignore-errors (dynamic *e*)) (block b 1) (catch 'k 2) (ignore-errors (car 3)) (ignore-errors (property 'p%N 'q)))", 0)
    # a text of several forms of which one fails
    for i in range(900 if q else 9000):
        n = r.randrange(1, 6)
        forms = [subst(r.choice(STMTS), k) for k in range(n)]
        f = r.choice(FAILING)
        a = r.choice(NAMES) if r.random() < .5 else "plain"
        if a.startswith("cleanup") or a in ("unwind", "unwind-b") and "quit" in f:
            a = "plain"
        f = subst(fill(CTX[a], f), 9)
        if r.random() < .3:
            f = fill(LEAVE_OUT, f)
        forms.insert(r.randrange(n + 1), f)
        t = r.choice([" ", "\n", "\n\n; comment\n"]).join(forms)
        more = [subst(r.choice(STMTS), 7), subst(r.choice(FAILING), 8)] if r.random() < .5 else []
        job(base(t + " ".join(more)) + [t, probe()] + more + ([probe()] if more else []), "sequences")
    # the errors of the host through every construct
    ones = [fill(LEAVE_OUT, fill(CTX[a], fill(CTX[b], f))) for a in NAMES for b in NAMES for f in ["(host-fail \"key\")", "(error \"text~a\" 1)", "(quit)", "(abort)"]]
    for t in m.sample(ones, 500 if q else 9000):
        job(base(t) + [t, PROBE], "through")
    for f in FAILING:
        for w in ["%H", "(tr 'val %H)", "(ignore-errors %H)", "(with-handler (lambda (c) (tr 'h) 0) %H)"]:
            t = subst(fill(w, f), 1)
            job(base(t) + [t, PROBE], "failing")
    # text which cannot be read has no effect
    for b in BADTEXT:
        for k in range(3):
            g = base("") + [subst(r.choice(STMTS), 1), b, probe()]
            job(g, "unreadable", bad=[len(g) - 2])
    # files
    for i in range(80 if q else 800):
        forms = [subst(r.choice(STMTS), k) for k in range(r.randrange(1, 4))]
        forms.insert(r.randrange(len(forms) + 1), subst(r.choice(FAILING), 9))
        t = r.choice(["(load \"l.lsp\")", "(tr 'l (load \"l.lsp\"))", "(tr 'l (ignore-errors (load \"l.lsp\")))", "(progn (load \"l.lsp\") (tr 'after))", "(unwind-protect (load \"l.lsp\") (tr 'c))", "(with-handler (lambda (c) (tr 'h)) (load \"l.lsp\"))"])
        job(base(" ".join(forms)) + [t, probe()], "load", files=[["l.lsp", "\n".join(forms) + "\n"]])
    # the command
    PRINT = ["(format t \"out%I~%%\")", "(format (standard-output) \"~a;\" %I)", "(format (error-output) \"err%I\")", "(format (error-output) \"err%I~%%\")", "(defun f%I (x) (* x 2))", "(let ((x %I)) (format t \"~a~%%\" x))", "(format t \"~s~%%\" *posix-argv*)",
             "(format t \"~a\" (length *posix-argv*))", "(defglobal g%I 5)", "\"value\"", "(ignore-errors (car 5))", "(unwind-protect 1 (format t \"c~%%\"))", "(format t \"~s\" (read-line (standard-input) nil 'eof))", "nil", "(list 1 2)"]
    CLIFAIL = [f for f in FAILING if "(tr" not in f and "host-fail" not in f and "<u" not in f and "g-two" not in f] + ["(format t \"~a\" (car 5))", "(exit)", "(quit)", "(progn (format t \"bye\") (quit))", "(unwind-protect (error \"x\") (format t \"cleanup~%%\"))",
               "(unwind-protect (quit) (format t \"cleanup~%%\"))", "(progn (format t \"no newline\") (error \"e~a\" 1))", "(read-line)", "(unwind-protect (abort) (format t \"c\"))", "(with-handler (lambda (c) (format t \"h~%%\")) (error \"declined\"))"]
    for i in range(150 if q else 1500):
        forms = [subst(r.choice(PRINT), k) for k in range(r.randrange(0, 5))]
        if r.random() < .75:
            forms.insert(r.randrange(len(forms) + 1), subst(r.choice(CLIFAIL), 9))
        if not forms:
            forms = ["1"]
        pre = MACRO_ERR + " " if any("macro-err" in f for f in forms) else ""
        t = pre + r.choice([" ", "\n"]).join(forms)
        argv = r.sample(["a", "b c", "日本", "", "12", "x"], r.randrange(0, 3))
        stdin = r.choice(["", "one line\n", "first\nsecond\n"])
        if r.random() < .5:
            job([t], "command -e", args=["-e", t] + argv, argv=argv, files=[], stdin=stdin)
        else:
            first = r.choice(["", "", "#!/usr/bin/env gmnlisp\n", "@echo off\n", "# a (quit) b\n", "@(quit)\n"])
            job([t], "command file", args=["s.lsp"] + argv, argv=argv, files=[["s.lsp", first + t + r.choice(["", "\n"])]], stdin=stdin)
    for b in BADTEXT:
        job(["1"], "command -e", args=["-e", b], argv=[], files=[], bad=[0])
    # long sessions
    prof = gen.mix(gen.BASE, gen.EXITS, error=4, handler=2, ignore=1, dynlet=2, dynset=2, dynref=2, flet=1)
    for i in range(300 if q else 5000):
        pid = len(m.progs)
        p = gen.program("%s-%s" % (m.prop, m.seed), pid, prof, 3)
        fs = [subst(r.choice(FAILING), k) for k in range(3)]
        calls = list(p)
        for f in fs:
            calls.insert(r.randrange(1, len(calls) + 1), f)
        job(base(" ".join(calls)) + calls + [PROBE], "random")

# ---------------------------------------------------------------- C25
BUILTINS = """* + - / /= < <= = =~ =~i > >= abort and append apply aref arithmetic-error-operands arithmetic-error-operation array-dimensions assoc assure atom basic-array*-p basic-array-p
block car case catch cdr ceiling char-index char/= char< char<= char= char> char>= characterp class class-of close clrhash cond cons consp continue-condition convert create create-array create-list
create-string create-string-input-stream create-string-output-stream defclass defconstant defdynamic defgeneric defglobal defmacro defmethod defun domain-error-expected-class domain-error-object dynamic
dynamic-let elt eq eql equal equalp error-output eval evenp exit expand-defun file-length flet floatp floor format format-char format-float format-integer format-object funcall function functionp
general-array*-p generic-function-p gensym get-internal-real-time get-internal-run-time get-output-stream-string get-universal-time gethash gmn:dump-session go hash-table-count if ignore-errors instancep
integerp internal-time-units-per-second labels lambda lambda-macro last length let let* list listp load macroexpand make-hash-table mapc mapcan mapcar mapcon mapl maplist member minusp mod
most-negative-fixnum most-positive-fixnum not nreverse null numberp oddp open-input-file open-output-file or parse-number pi plusp probe-file progn psetq quasiquote quit quote read read-char read-line rem
remhash rest return return-from reverse round set-aref set-car set-cdr set-gethash setq signal-condition sqrt standard-input standard-output string-append string-index string/= string< string<= string= string>
string>= stringp subclassp subseq subst symbolp tagbody the throw trace truncate undefined-entity-name undefined-entity-namespace unwind-protect vector while wildcard with-handler with-open-input-file
with-open-output-file with-standard-input zerop 1+ 1- caar cadddr caddr cadr case-using cdddr cddr cerror decf dolist dotimes error first for incf max min nth nthcdr prog1 prog2 second
set-assoc set-setq set-dynamic set-elt set-nth set-nthcdr set-subseq set-cadr set-caddr set-cadddr set-cddr set-cdddr setf swap-elt swap-subseq third unless when property set-property remove-property
symbol-plist report-condition condition-continuable initialize-object simple-error-format-string simple-error-format-arguments stream-error-stream input-stream-p output-stream-p open-stream-p streamp
finish-output preview-char read-byte write-byte set-file-position file-position stream-ready-p parse-error-string parse-error-expected-class generic-function-p next-method-p call-next-method
identity exp log sin cos expt isqrt abs gcd lcm div quotient reciprocal not symbol-function symbol-value garef set-garef symbolp char-code code-char string-length substring concat position sort print princ terpri
tr host-fail""".split()
BUILTINS = list(dict.fromkeys(BUILTINS))
VALUES = ["nil", "t", "0", "1", "-1", "2", "17", "-17", "50", "0.0", "2.5", "-0.5", "1.0e300", "99999999999", "-99999999999", "9223372036854775807", "-9223372036854775808", "123456789012345678901234567890", "\"\"", "\"a\"", "\"abc\"", "\"日本\"", "\"12\"", "\"~a~s~d\"", "\"~\"", "\"[\"",
          "#\\a", "#\\日", "#\\space", "'a", "'sym", "':key", "'<integer>", "'()", "'(1)", "'(1 2 3)", "'(a b)", "'(1 . 2)", "'(1 2 . 3)", "'((a . 1) (b . 2))", "'((a 1) b nil)", "'(quote)", "'(lambda)", "'(lambda (x) x)", "'(lambda . 1)", "'(1 (2 (3)))", "'(nil)",
          "#(1 2 3)", "#()", "#(a #\\b \"c\")", "#2a((1 2) (3 4))", "#2a(() ())", "#0a5", "#3a(((1)))", "(make-hash-table)", "(let ((h (make-hash-table))) (setf (gethash 'a h) 1) h)", "(lambda (x) x)", "(lambda () 1)", "(lambda (&rest r) r)", "(lambda (x y) (cons x y))", "#'car", "#'list", "#'tr", "#'max",
          "(class <integer>)", "(class <object>)", "(class <list>)", "(class <kc>)", "(class <null>)", "(class <function>)", "(create (class <kc>))", "(create (class <kc>) 'ka 5)", "(class-of 5)", "(create-string-input-stream \"abc (1 2) x\")", "(create-string-input-stream \"\")",
          "(create-string-output-stream)", "(standard-input)", "(standard-output)", "(error-output)", "(open-input-file \"i.txt\")", "(let ((s (open-input-file \"i.txt\"))) (close s) s)", "(let ((s (open-output-file \"c.txt\"))) (close s) s)", "(open-output-file \"o.txt\")", "\"i.txt\"", "\"no-such.txt\"",
          "(class <string>)", "(class <general-array*>)", "(gensym)", "(block b25 (with-handler (lambda (c) (return-from b25 c)) (car 5)))", "(block b25 (with-handler (lambda (c) (return-from b25 c)) (error \"e~a\" 1)))", "(block b25 (with-handler (lambda (c) (return-from b25 c)) undefined-v))", "(block b25 (with-handler (lambda (c) (return-from b25 c)) (/ 1 0)))",
          "(create (class <simple-error>))", "(create (class <arithmetic-error>))", "(create (class <domain-error>))", "(create (class <undefined-function>))", "(create (class <stream-error>))", "(create (class <storage-exhausted>))", "#'gf25", "#'mac25", "undefined-var-25", "(undefined-fun-25)", "(list)", "(vector)", "(list 1 \"a\" #\\c nil 2.5)", "(create-array '(2 2) 0)",
          "(list (list 1) (list 2))", "(dynamic *d*)", "(quote a)", "`(a ,(+ 1 2))", "(cons 1 (cons 2 3))", "(convert \"12\" <integer>)", "(create-string 3 #\\x)", "(create-list 2 nil)"]
SETUP25 = "(defdynamic *d* 10) (defglobal g25 5) (defglobal l25 (list 1 2 3)) (defclass <kc> () ((a :initarg ka :initform 1 :accessor kc-a25 :reader kc-r25 :writer kc-w25 :boundp kc-b25))) (defgeneric gf25 (x)) (defmethod gf25 ((x <integer>)) x) (defmacro mac25 (x) x) (defun f25 (x) x)"
# forms of every kind, well formed; parts of them are taken away, doubled, exchanged
CLASSES25 = """<object> <class> <built-in-class> <standard-class> <standard-object> <array> <basic-array> <general-vector> <general-array*> <string> <truetype> <null> <symbol> <character> <keyword> <cons> <list> <sequence> <number> <integer> <float> <function> <generic-function>
<hashtable> <macro> <joined-form> <string-builder> <input-stream> <output-file-stream> <reader> <_WriterNode> <stream> <error> <serious-condition> <program-error> <domain-error> <control-error> <parse-error> <storage-exhausted> <stream-error> <end-of-stream> <undefined-entity>
<unbound-variable> <undefined-function> <arithmetic-error> <division-by-zero> <floating-point-overflow> <floating-point-underflow> <simple-error> <kc>""".split()
INTS = ["-2", "-1", "0", "1", "2", "3", "4", "8", "9", "35", "36", "37", "40", "64", "65", "100", "127", "128", "255", "256", "55296", "65536", "1114111", "1114112", "2147483648", "9223372036854775807"]
VALUES += ["(class %s)" % c for c in CLASSES25] + ["(create (class %s))" % c for c in CLASSES25]
TEMPLATES = [
    "(block a25 (return-from a25 1) 2)", "(block nil (return 5))", "(catch 'k25 (throw 'k25 1))", "(tagbody a (if nil (go b)) b 1)", "(unwind-protect 1 2 3)", "(ignore-errors (f25 1) 2)", "(with-handler (lambda (c) (continue-condition c 5)) (f25 \"x\"))", "(with-handler (lambda (c) (return-from a25 5)) (f25 (aref 5 5)))",
    "(let ((a 1) (b 2)) (cons a b))", "(let* ((a 1) (b a)) (cons a b))", "(dynamic-let ((*d* 5) (*e* 6)) (dynamic *d*))", "(flet ((ff (x) x) (gg (y &rest z) z)) (ff (gg 1 2)))", "(labels ((ff (x) x) (gg (y) (ff y))) (gg 1))", "((lambda (x &rest y) (cons x y)) 1 2 3)", "(lambda (x &rest y) (list x y))", "(function f25)", "#'(lambda (x) x)", "(function (lambda (x) x))",
    "(funcall (lambda (x y) (list x y)) 1 2)", "(apply (lambda (x y) (list x y)) 1 '(2))", "(if t 1 2)", "(cond ((f25 nil) 1) ((f25 2)) (t 3))", "(case 5 ((1 2) 'a) ((5) 'b) (t 'c))", "(case-using (lambda (x y) (eql x y)) 5 ((1 2) 'a) ((5) 'b) (t 'c))", "(and 1 2 nil)", "(or nil 1 2)", "(when 1 2 3)", "(unless nil 2 3)", "(progn 1 2 3)", "(prog1 1 2 3)", "(prog2 1 2 3)",
    "(let ((i 0)) (while (< i 2) (setq i (+ i 1)) (f25 i)))", "(for ((i 0 (+ i 1)) (j 5)) ((> i 2) j i) (f25 i))", "(dolist (x '(1 2 3) 5) (f25 x))", "(dotimes (i 3 7) (f25 i))", "(let ((v 1) (w 2)) (setq v 5 w 6) (list v w))", "(let ((v 1) (w 2)) (psetq v 5 w v) (list v w))", "(let ((v (list 1 2))) (setf (car v) 5) v)", "(let ((v (list 1 2 3))) (setf (nth 1 v) 5 (cadr v) 6) v)",
    "(setf (aref #(1 2 3) 1) 5)", "(setf (elt (list 1 2 3) 1) 5)", "(setf (gethash 'a (make-hash-table)) 5)", "(setf (dynamic *d*) 5)", "(setf (property 'x25 'y) 5)", "(setf (kc-a25 (create (class <kc>))) 5)", "(setf (subseq (list 1 2 3) 0 2) '(7 8))", "(setf (assoc 'a l25) 5)", "(let ((v 1)) (setf v 5) v)", "(let ((v 1)) (incf v 2) (decf v) v)", "(let ((v (list 1 2))) (incf (car v) 2) (decf (nth 1 v)) v)",
    "(defun f25 (x y &rest z) (list x y z))", "(defmacro m25 (x &rest y) `(list ,x ,@y))", "(m25 1 2 3)", "(mac25 5)", "(macroexpand '(mac25 5))", "(defglobal g25-%I 5)", "(defdynamic *dd25* 6)", "(defconstant c25-%I 7)", "(dynamic *d*)", "(defclass <k25-%I> (<kc>) ((b :initform 5 :initarg kb :accessor kb25 :reader kr25 :writer kw25 :boundp kp25) c) (:abstractp nil) (:metaclass <standard-class>))",
    "(defgeneric ge25 (x y) (:method-combination nil) (:method ((x <integer>) y) 5))", "(defmethod ge25 ((x <integer>) (y <list>)) (list x y))", "(defmethod gf25 :around ((x <string>)) (call-next-method))", "(defmethod gf25 :before ((x <integer>)) (f25 x))", "(defmethod gf25 ((x <integer>) &rest y) (next-method-p))", "(gf25 5)", "(create (class <kc>) 'ka 5 'kb 6)", "(class <kc>)", "(the <integer> 5)", "(assure <integer> 5)", "(convert 5 <string>)", "(convert \"12\" <integer>)",
    "(quasiquote (a (unquote (f25 1)) b))", "`(a ,(f25 1) ,@(list 1 2) b)", "(quote a)", "(eval '(f25 5))", "(with-open-output-file (s \"w.txt\") (format s \"~a\" 1))", "(with-open-output-file (s \"w.txt\" 8) (format-integer s 5 10))", "(with-open-input-file (s \"i.txt\") (read-line s nil 'eof))", "(with-standard-input (create-string-input-stream \"abc\") (read-char))",
    "(open-input-file \"i.txt\" 8)", "(read (create-string-input-stream \"(1 2)\") nil 'eof)", "(read-line (create-string-input-stream \"abc\") t)", "(read-char (create-string-input-stream \"abc\") nil nil)", "(format t \"~a ~s ~d ~5d ~b ~x ~o ~c ~g ~% ~& ~~ ~3t ~2,'0d\" 1 2 3 4 5 6 7 #\\a 2.5 1)", "(format nil \"~10a|~-5s|~3,'xd\" 1 2 3)", "(format (error-output) \"~{~a~}\" '(1))", "(error \"e~a\" 1 2)", "(cerror \"c~a\" \"e~a\" 1)",
    "(signal-condition (create (class <simple-error>) 'format-string \"x~a\" 'format-arguments '(1)) t)", "(report-condition (create (class <simple-error>)) (standard-output))", "(defmethod report-condition ((c <kc>) (s <object>)) (format s \"~a\" c))", "(mapcar (lambda (x y) (cons x y)) '(1 2) '(3 4))", "(mapc (lambda (x) x) '(1 2))", "(mapcan (lambda (x) (list x)) '(1 2))", "(maplist (lambda (x) x) '(1 2))", "(mapl (lambda (x) x) '(1 2))", "(mapcon (lambda (x) (list x)) '(1 2))",
    "(create-array '(2 3) 0)", "(create-list 3 'a)", "(create-string 3 #\\a)", "(aref #2a((1 2) (3 4)) 1 0)", "(subseq \"abcdef\" 1 3)", "(elt '(1 2 3) 1)", "(length #(1 2))", "(char-index #\\b \"abc\" 1)", "(string-index \"b\" \"abc\" 1)", "(string-append \"a\" \"b\" \"c\")", "(swap-elt (list 1 2 3) 0 1)", "(set-elt 5 (list 1 2 3) 0)", "(assoc 'a '((a . 1)))", "(member 1 '(1 2))", "(append '(1) '(2) '(3))", "(list (nth 1 '(1 2)) (nthcdr 1 '(1 2)))",
    "(max 1 2 3)", "(+ 1 2 3)", "(= 1 2)", "(mod 7 2)", "(floor 7 2)", "(format-float (standard-output) 2.5)", "(format-char (standard-output) #\\a)", "(format-object (standard-output) '(1) t)", "(lambda-macro (x) x)", "((lambda-macro (x) (list 'quote x)) a)", "(expand-defun 'f25 '(x) '(x))", "(parse-number \"12\")", "(trace f25)", "(subst \"a\" \"b\" \"abc\")", "(=~ \"a(b)\" \"xab\")", "(=~i \"a\" \"A\")", "(wildcard \"*.txt\" \"[\")", "(go a25)", "(return-from a25 1)", "(throw 'no25 1)", "(return 1)",
    "(set-dynamic 5 *d*)", "(setf (cdr (list 1)) 2)", "(first '(1))", "(gmn:dump-session)", "(class-of (lambda (x) x))", "(instancep 5 (class <integer>))", "(subclassp (class <integer>) (class <number>))", "(initialize-object (create (class <kc>)) '(ka 6))", "(kc-a25 (create (class <kc>)))", "(kc-w25 5 (create (class <kc>)))", "(kc-b25 (create (class <kc>)))", "(load \"l.lsp\")", "(probe-file \"i.txt\")", "(file-length \"i.txt\" 8)",
]
ODD = ["nil", "()", "5", "\"s\"", "#\\c", "x25", "a", "'a", "(a)", "(1)", "(1 . 2)", "(a . b)", "(quote)", "(quote a b)", "((a))", "((a 1))", "((a . 1))", "(((a)))", "#(1)", "2.5", ":k", "&rest", "(&rest)", "(&rest a b)", "(x &rest)", "(lambda)", "(lambda (x))", "t", "<integer>", "<no-such>", "(unquote a)", ",a", "`a", "#'a", "#'(a)", "(undefined-fun-25 1)", "(car 5)", "(a b . c)", "(((1) 2) . 3)", "*d*", "f25", "m25"]
# one call of each function which is all right
VALID = """(aref #2a((1 2) (3 4)) 1 0)|(aref #(1 2) 1)|(aref "abc" 1)|(set-aref 5 #2a((1 2) (3 4)) 1 0)|(set-aref 5 (vector 1 2) 1)|(set-aref #\\x (create-string 3 #\\a) 1)|(garef #2a((1 2) (3 4)) 1 0)|(array-dimensions #2a((1 2) (3 4)))|(elt '(1 2 3) 1)|(elt "abc" 1)|(elt #(1 2) 1)
(set-elt 5 (list 1 2 3) 1)|(set-elt 5 (vector 1 2) 1)|(set-elt #\\x (create-string 3 #\\a) 1)|(subseq '(1 2 3 4) 1 3)|(subseq "abcd" 1 3)|(subseq #(1 2 3 4) 1 3)|(set-subseq '(7 8) (list 1 2 3) 0 2)|(nth 1 '(1 2 3))|(nthcdr 1 '(1 2 3))|(set-nth 5 1 (list 1 2))|(set-nthcdr '(5) 1 (list 1 2))|(last '(1 2))|(length '(1 2))
(char-index #\\b "abc" 1)|(string-index "bc" "abc" 1)|(string-append "a" "b")|(string< "a" "b")|(string= "a" "b")|(char< #\\a #\\b)|(create-string 3 #\\a)|(create-list 3 'a)|(create-array '(2 2) 0)|(vector 1 2)|(list 1 2)|(cons 1 2)|(set-car 5 (list 1 2))|(set-cdr 5 (list 1 2))|(append '(1) '(2))|(reverse '(1 2))|(nreverse (list 1 2))
(assoc 'a '((a . 1) (b . 2)))|(member 'a '(b a c))|(mapcar #'list '(1 2) '(3 4))|(mapc #'list '(1 2) '(3 4))|(mapcan #'list '(1 2) '(3 4))|(maplist #'list '(1 2) '(3 4))|(mapl #'list '(1 2) '(3 4))|(mapcon #'list '(1 2) '(3 4))|(funcall #'list 1 2)|(apply #'list 1 '(2 3))|(gethash 'a (make-hash-table) 'd)|(set-gethash 1 'a (make-hash-table))
(remhash 'a (make-hash-table))|(clrhash (make-hash-table))|(hash-table-count (make-hash-table))|(convert 65 <character>)|(convert "12" <integer>)|(convert '(1 2) <general-vector>)|(convert 2 <float>)|(convert #\\a <integer>)|(convert 'a <string>)|(convert #(1 2) <list>)|(convert "ab" <list>)|(format nil "~a ~d ~s" 1 2 3)|(format t "~5,'0d" 3)|(format t "~10t~x" 5)
(format-integer (standard-output) 5 16)|(format-char (standard-output) #\\a)|(format-float (standard-output) 2.5)|(format-object (standard-output) '(1) t)|(read (create-string-input-stream "(1 2)") nil 'eof)|(read-line (create-string-input-stream "a") nil 'eof)|(read-char (create-string-input-stream "a") nil 'eof)|(preview-char (create-string-input-stream "a") nil 'eof)
(get-output-stream-string (create-string-output-stream))|(close (open-input-file "i.txt"))|(open-input-file "i.txt" 8)|(open-output-file "o.txt" 8)|(file-length "i.txt" 8)|(probe-file "i.txt")|(load "l.lsp")|(finish-output (standard-output))|(property 'x 'y 'z)|(set-property 1 'x 'y)|(remove-property 'x 'y)|(parse-number "12")|(mod 7 2)|(rem 7 2)|(floor 7.5)|(round 2.5)|(truncate 2.5)|(ceiling 2.5)
(+ 1 2)|(- 5 2.5)|(* 2 3)|(/ 6 4)|(/ 6.0 4)|(max 1 2)|(min 1 2)|(= 1 1)|(< 1 2 3)|(1+ 5)|(1- 5)|(sqrt 4)|(eql 1 1)|(equal '(1) '(1))|(equalp "a" "A")|(eq 'a 'b)|(not nil)|(instancep 5 (class <integer>))|(subclassp (class <integer>) (class <number>))|(create (class <kc>) 'ka 5)|(kc-a25 (create (class <kc>)))|(kc-w25 5 (create (class <kc>)))|(kc-b25 (create (class <kc>)))
(initialize-object (create (class <kc>)) '(ka 5))|(class-of 5)|(report-condition (create (class <simple-error>) 'format-string "~a" 'format-arguments '(1)) (standard-output))|(signal-condition (create (class <simple-error>)) nil)|(error "~a" 1)|(cerror "~a" "~a" 1)|(domain-error-object (create (class <kc>)))|(subst "a" "b" "abc")|(=~ "a" "abc")|(=~i "a" "abc")|(wildcard "*.txt")
(swap-elt (list 1 2 3) 0 1)|(swap-subseq (list 1 2 3) 0 1)|(set-dynamic 5 '*d*)|(eval '(list 1))|(macroexpand '(mac25 1))|(gensym)|(expand-defun 'f '((x) x))|(create-string-input-stream "abc")|(throw 'none 1)|(return-from none 1)|(go none)|(assure <integer> 5)|(the <integer> 5)|(dolist (x '(1 2)) x)|(dotimes (x 2) x)|(case 1 ((1) 2))|(with-open-input-file (s "i.txt") (read-line s))|(gf25 5)|(mac25 5)|(f25 5)|(tr 1)|(host-fail "x")""".replace("\n", "|").split("|")
PROBE25 = "(list (block b 1) (catch 'k 2) (block c (with-handler (lambda (c) (return-from c 'h)) (car 5))) (mapcar (lambda (x) (cons x nil)) '(1 2)) (ignore-errors (car 3)) (let ((i 0)) (while (< i 3) (setq i (+ i 1))) i))"


def tree(t):
    """the text as nested lists of atoms; quotes and the like are atoms put before what they quote"""
    toks = re.findall(r'"(?:\\.|[^"\\])*"|\|[^|]*\||#\\[^\s()]+|#\d*[aA]?\(|#\'|,@|[\'`,()]|[^\s()\'`,"]+', t)
    pos = 0

    def one():
        nonlocal pos
        k = toks[pos]
        pos += 1
        if k in ("'", "`", ",", ",@", "#'"):
            return [k, one()] if False else ("q", k, one())
        if k.endswith("("):
            r = [k]
            while toks[pos] != ")":
                r.append(one())
            pos += 1
            return r
        return k
    return one()


def untree(x):
    if isinstance(x, str):
        return x
    if isinstance(x, tuple):
        return x[1] + untree(x[2])
    return x[0] + " ".join(untree(e) for e in x[1:]) + ")"


def spots(x, path=()):
    yield path
    if isinstance(x, tuple):
        yield from spots(x[2], path + (2,))
    elif isinstance(x, list):
        for i in range(1, len(x)):
            yield from spots(x[i], path + (i,))


def at(x, path):
    for i in path:
        x = x[i]
    return x


def edit(x, path, fn):
    """x with what is at the path changed; fn gives the elements which come instead of it"""
    if not path:
        r = fn(x)
        return r[0] if r else ["("]
    i = path[0]
    if isinstance(x, tuple):
        return (x[0], x[1], edit(x[2], path[1:], fn))
    if len(path) == 1:
        return x[:i] + fn(x[i]) + x[i + 1:]
    return x[:i] + [edit(x[i], path[1:], fn)] + x[i + 1:]


def malform(r, t, n=1):
    x = tree(t)
    for _ in range(n):
        ps = list(spots(x))
        p = r.choice(ps)
        k = r.randrange(9)
        other = at(x, r.choice(ps))
        odd = r.choice(ODD)
        x = edit(x, p, [lambda e: [], lambda e: [], lambda e: [odd], lambda e: [odd], lambda e: [other], lambda e: [e, e], lambda e: [["(", e]], lambda e: e[1:] if isinstance(e, list) else [["("]],
                        lambda e: [e[:-1] + [".", e[-1]]] if isinstance(e, list) and len(e) > 2 else [odd, e]][k])
    return untree(x)


def c25(m):
    r = m.rng
    q = m.quick
    FILES = [["i.txt", "abc\n(1 2)\n"], ["l.lsp", "(f25 1)\n"], ["c.txt", ""]]

    def flush(calls, kind, **kw):
        c = [SETUP25] + [x for x in calls] + [PROBE25]
        m.add_job(dict(calls=c, any=list(range(0, len(c) - 1)), files=FILES, stdin="line\n(a b)\n5 6\n", **kw), kind)

    def small(t):
        return re.sub(r"-?\d{5,}|1.0e300|create-(list|array|string)(?=[) ]).*create-(list|array|string)(?=[) ])", "7", t) if re.search(r"create-(list|array|string)[) ]", t) else t

    def groups(calls, kind, n=30, **kw):
        calls = [small(c) for c in calls]
        if "timeout" not in kw:
            ever = [c for c in calls if "while" in c or "dotimes" in c or "(for" in c]
            groups(ever, kind, n, timeout=400)
            calls = [c for c in calls if c not in set(ever)]
        for i in range(0, len(calls), n):
            flush(calls[i:i + n], kind, **kw)
    # every function with arguments of every kind
    out = []
    for f in BUILTINS:
        out += ["(%s)" % f] + ["(%s %s)" % (f, v) for v in VALUES] + ["(funcall #'%s)" % f, "(apply #'%s %s)" % (f, r.choice(VALUES)), "%s" % f, "#'%s" % f, "(mapcar #'%s '(1 a nil (2)))" % f]
    groups(m.sample(out, 20000) if q else out, "one argument")
    out = []
    for f in BUILTINS:
        pairs = [(a, b) for a in VALUES for b in VALUES]
        out += ["(%s %s %s)" % (f, a, b) for a, b in r.sample(pairs, 60 if q else 1500)]
        for n in (3, 4, 5):
            out += ["(%s %s)" % (f, " ".join(r.choice(VALUES) for _ in range(n))) for _ in range(25 if q else 500)]
    groups(out, "more arguments")
    # calls which are all right but for one argument
    out = []
    near = []
    for t in VALID + TEMPLATES:
        x = tree(t.replace("%I", str(m.uid())))
        ps = [p for p in spots(x) if p]
        for p in ps:
            if re.fullmatch(r"-?\d+", str(at(x, p))):
                near += [untree(edit(x, p, lambda e, v=v: [v])) for v in INTS]
        ps += [p for p in ps if len(p) == 1] * 2 if q else []
        out += [untree(edit(x, p, lambda e, v=v: [v])) for p in ps for v in (VALUES if t in VALID or not q else r.sample(VALUES, 10))]
    groups(m.sample(out, 50000) if q else out, "one argument wrong", 40)
    groups(near, "another integer", 40)
    # after a handler has given something else
    out = []
    for _ in range(2500 if q else 30000):
        t = r.choice(TEMPLATES).replace("%I", str(m.uid()))
        f = "(%s %s)" % (r.choice(BUILTINS), " ".join(r.choice(VALUES) for _ in range(r.randrange(1, 4)))) if r.random() < .7 else malform(r, t)
        out.append("(let ((n25 0)) (with-handler (lambda (c) (setq n25 (+ n25 1)) (if (< n25 4) (continue-condition c %s))) %s))" % (r.choice(VALUES), f))
    groups(out, "continued", timeout=400)
    # malformed
    out = []
    for t in TEMPLATES:
        for k in range(14 if q else 200):
            out.append(malform(r, t.replace("%I", str(m.uid() * 100 + k)), r.choice([1, 1, 1, 2, 3])))
    groups(out, "malformed", timeout=400)
    for i in range(1500 if q else 20000):
        t = malform(r, r.choice(TEMPLATES).replace("%I", "x%d" % i), r.choice([1, 2]))
        out = [fill(CTX[r.choice(NAMES)], t)]
        flush(out, "malformed within", timeout=400) if i % 10 == 0 else groups(out, "malformed within", timeout=400)
    # texts
    AL = ["(", ")", "(", ")", "'", "`", ",", ",@", "#'", "#(", "#2a(", "#\\", "#\\a", "\"", "\"s\"", "|", "#|", "|#", ";", "\n", " ", " ", ".", " . ", "a", "car", "quote", "lambda", "let", "5", "-", "+", "1.5", "1e", "#b", "#b101", "#x", "#xfg", "#o8", ":k", ":", "nil", "t", "&rest", "日", "\x00", "\\", "#", "@", "\t", "~", "#\\space", "#1a", "#9999999a", "1e999", "99999999999999999999"]
    out = ["".join(r.choice(AL) for _ in range(r.randrange(1, 14))) for _ in range(2500 if q else 40000)]
    groups(out, "texts", 20, timeout=400)
    # random programs in which something is malformed
    for i in range(200 if q else 4000):
        p = gen.program("%s-%s" % (m.prop, m.seed), len(m.progs), gen.mix(gen.BASE, gen.EXITS, error=2, handler=2), 4)
        c = []
        for x in p:
            try:
                c.append(malform(r, x, r.choice([1, 2])))
            except IndexError:
                c.append(x)
        c = [x for x in c if "(defun" not in x and "(defmacro" not in x and "labels" not in x]
        groups(c, "programs", timeout=400)

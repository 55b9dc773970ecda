"""Programs of the properties of scope, calls, macros and iteration (C05-C09)."""
from . import ctx, gen
from .ctx import CTX, fill
from .progs import NAMES, PROBE

CHK = "(defun chk (th) (block cb (with-handler (lambda (e) (tr 'err e) (return-from cb 'err)) (funcall th))))"


def chk(x):
    return "(tr 'v (chk (lambda () %s)))" % x


# ---------------------------------------------------------------- C05
BIND_PRE = [
    "(defun g-bind (f) (let ((x 70) (y 71)) (funcall f (+ x 1))))",
    "(defun g-x () (let ((f (lambda () 5))) (funcall f)))",
    "(defgeneric gf-bind (x f)) (defmethod gf-bind ((x <integer>) (f <function>)) (tr 'gfb x) (funcall f (+ x 30)))",
    "(defun mk-counter (x) (list (lambda () x) (lambda (v) (setq x v)) (lambda () (setq x (+ x 1)))))",
]
BINDERS = [
    "(let ((x 10)) %H)",
    "(let ((x (+ x 1)) (y x)) (tr 'y y) %H)",
    "(let* ((x (+ x 1)) (y x)) (tr 'y y) %H)",
    "(let* ((x 3) (x (+ x 1))) %H)",
    "(let (x) (tr 'b x) %H)",
    "(let (x (y x)) (tr 'b x y) (setq x (+ y 1)) %H)",
    "(let* (x (y x)) (tr 'b x y) %H)",
    "(let* ((y x) x (z x)) (tr 'b x y z) (setq x 60) %H)",
    "(let* ((x 3) (f0 (lambda () x)) (x 4)) (tr 'f0 (funcall f0)) %H (tr 'f0 (funcall f0)))",
    "(let ((y x)) (setq x (+ x 100)) (tr 'y y x) %H)",
    "((lambda (x) %H) (+ x 5))",
    "((lambda (y &rest x) %H) 1 2 3)",
    "(flet ((f (x) %H)) (f (+ x 1)) (f (+ x 2)))",
    "(flet ((f () %H)) (let ((x 20)) (f)))",
    "(flet ((f () x)) (let ((x 21)) (tr 'f (f)) %H (tr 'f (f))))",
    "(flet ((f (v) (setq x v))) (let ((x 22)) (f 23) (tr 'x x) %H) (tr 'x x))",
    "(flet ((g () 1)) (flet ((g () (+ 10 (g)))) (tr 'g (g)) %H))",
    "(labels ((g () 1)) (labels ((g (n) (if (= n 0) 0 (g (- n 1))))) (tr 'g (g 2)) %H))",
    "(labels ((f (n) (if (= n 0) %H (let ((x (+ x n))) (f (- n 1)))))) (f 2))",
    "(labels ((f (n) (if (= n 0) %H (progn (g (- n 1)) x))) (g (n) (let ((x n)) (f n)))) (f 1))",
    "(for ((x 1 (+ x 1))) ((> x 2) x) %H)",
    "(for ((x 1 (+ x 1)) (y x x)) ((> x 2) y) (tr 'y y) %H)",
    "(dolist (x '(1 2)) %H)",
    "(dotimes (x 2) %H)",
    "(let ((i 0)) (while (< i 2) (let ((x i)) %H) (setq i (+ i 1))))",
    "(mapcar (lambda (x) %H) '(5 6))",
    "(mapc (lambda (y) (setq x (+ x y)) %H) '(5 6))",
    "(g-bind (lambda (y) %H))",
    "(g-bind (lambda (x) %H))",
    "(gf-bind 3 (lambda (x) %H))",
    "(gf-bind 3 (lambda (y) %H))",
    "(block x %H)",
    "(catch 'x %H)",
    "(tagbody x %H)",
    "(dynamic-let ((x 50)) (tr 'd (dynamic x)) %H)",
    "(with-handler (lambda (x) (tr 'h) nil) %H)",
    "(block hb (with-handler (lambda (x) (tr 'h x) (let ((x 60)) %H) (return-from hb 1)) (car 1)))",
    "(let ((y (lambda () x)) (z (lambda (v) (setq x v)))) (funcall z (+ 1 (funcall y))) %H (tr 'y (funcall y)))",
    "(progn (defun lf%N () (tr 'lf x) %H) (lf%N) (let ((x 77)) (lf%N)))",
    "(let ((f (let ((x 30)) (lambda () (setq x (+ x 1)) x)))) (tr 'p (funcall f)) %H (tr 'p (funcall f)))",
    "(let ((c (mk-counter x)) (d (mk-counter x))) (funcall (third c)) (tr 'c (funcall (first c)) (funcall (first d)) x) %H)",
    "(funcall (let ((x 31)) (lambda (y) %H)) x)",
    "(apply (lambda (x y) %H) (list x 2))",
    "(cond ((let ((x nil)) x) 1) (t %H))",
    "(case x ((1) %H) (t %H))",
    "(unwind-protect (let ((x 32)) %H) (tr 'u x))",
    "(psetq x (+ x 1) y0 x)",
]
BIND_LEAF = [
    "(tr 'x x)",
    "(progn (setq x (list 'new x)) (tr 'x x))",
    "(setq fs (cons (lambda () (tr 'r x) x) fs))",
    "(setq fs (cons (lambda () (setq x (list x)) (tr 'w x) x) (cons (lambda () (tr 'r x)) fs)))",
    "(progn (setq fs (cons (lambda () (tr 'r x) x) fs)) (setq x 'after))",
    "(let ((x (list x))) (setq fs (cons (lambda () (tr 'r x) (setq x 'once)) fs)))",
    "(setq unb%N x)",
    "(tr 'y (ignore-errors y))",
    "(flet ((x () 'fx)) (tr 'x x (x)))",
    "(progn (setq gx%N x) (tr 'g gx%N))",
]


def c05(m):
    prods = [(a, b, l) for a in BINDERS for b in ["%H"] + BINDERS for l in BIND_LEAF]
    trips = [(a, b, l) for a in BINDERS for b in NAMES for l in BIND_LEAF]
    quick = m.quick
    for a, b, l in m.sample(prods, 1100 if quick else 12000) + m.sample(trips, 300 if quick else 4000):
        b = CTX.get(b, b)
        t = fill(a, fill(b, l))
        t = "(let ((fs nil) (x 1) (y0 2)) %s (tr 'end x) (mapcar (lambda (f) (funcall f)) fs) (mapcar (lambda (f) (funcall f)) fs) x)" % t
        t = t.replace("%N", str(m.uid()))
        pre = [p for p in BIND_PRE if p.split()[1] in t.replace("(", " ").split()]
        m.add(ctx.prelude(t) + pre + ["(defglobal gx%d 40)" % m.uid()] * ("gx" in t) + [t, "(ignore-errors (list x y0))", "(list (ignore-errors lf%d) (ignore-errors fs))" % m.uid()])
    # globals, functions and redefinition
    G = [
        ["(defglobal gq%N 1)", "(defun rd () gq%N)", "(tr (rd))", "(let ((gq%N 2)) (tr (rd) gq%N) (setq gq%N 3) (tr gq%N (rd)))", "(setq gq%N 4)", "(rd)", "(flet ((rd () 9)) (tr (rd) (funcall #'rd)))", "(rd)"],
        ["(defun f1 () (f2))", "(tr (ignore-errors (f1)))", "(defun f2 () 5)", "(f1)", "(defun f2 () 6)", "(f1)", "(flet ((f2 () 7)) (f1))", "(labels ((f2 () 8)) (list (f2) (f1)))"],
        ["(let ((n 0)) (defun inc () (setq n (+ n 1))) (defun get () n))", "(inc)", "(inc)", "(let ((n 100)) (list (inc) (get) n))", "n", "(get)"],
        ["(let ((n 0)) (defun inc () (setq n (+ n 1))))", "(defun two () (let ((n 50)) (inc) n))", "(two)", "(inc)"],
        ["(defglobal gq%N 0)", "(defun set-it (v) (setq gq%N v))", "(let ((f (lambda () gq%N))) (set-it 5) (tr (funcall f)) (let ((gq%N 7)) (set-it 6) (tr gq%N (funcall f))))", "gq%N"],
        ["(defun f (x) (flet ((g () (setq x (+ x 1)) x)) (g) (g) x))", "(f 1)", "(f 1)", "(list (f 5) (f 6))"],
        ["(defun f (x) (lambda (y) (setq x (+ x y)) x))", "(let ((a (f 1)) (b (f 10))) (list (funcall a 1) (funcall b 1) (funcall a 1) (funcall b 1)))"],
        ["(defmacro mac%N (v) (let ((x 5)) (list 'list x v 'x)))", "(let ((x 1)) (mac%N (+ x 1)))", "(let ((x 1)) (let ((x 2)) (mac%N x)))"],
        ["(defgeneric gf%N (a)) ", "(let ((k 5)) (defmethod gf%N ((a <integer>)) (setq k (+ k a)) k))", "(let ((k 100)) (list (gf%N 1) (gf%N 1) k))"],
        ["(defclass <cs%N> () ((s :initarg s :initform (+ 1 2) :accessor cs-s%N)))", "(let ((s 9)) (cs-s%N (create <cs%N>)))"],
        ["(let ((v 5)) (defclass <cs%N> () ((s :initform (+ v 1) :accessor cs-s%N))))", "(let ((v 50)) (cs-s%N (create <cs%N>)))"],
        ["(let ((a 1)) (flet ((a () 2)) (list a (a) (let ((a 3)) (list a (a))))))"],
        ["(let ((list (list 1 2))) (list list))"],
        ["(let ((car 5)) (car (list car)))"],
        ["(flet ((f (f) (f0 f))) 1)", "(labels ((f (f) (if (= f 0) 'z (f (- f 1))))) (f 3))"],
        ["(defun sh (x) (let ((x (+ x 1)) (y x)) (list x y (let* ((x y) (y x)) (setq x 9) (list x y)) x)))", "(sh 1)"],
        ["(let ((x 1) (y 2)) (let (x (z 3) y) (tr x y z) (setq x 5) (setq y 6)) (list x y (let* ((x 7) y (z y)) (list x y z))))"],
        ["(defglobal gq%N 1)", "(defun rd () gq%N)", "(let (gq%N) (tr gq%N (rd)) (setq gq%N 3) (rd))", "(let* (gq%N (y gq%N)) (list gq%N y (rd)))"],
        ["(defun bare (x) (let (x) (tr x) (setq x 4) x))", "(bare 1)", "(bare 2)", "(mapcar (lambda (x) (let* (x y) (list x y))) '(1 2))"],
        ["(let ((x 1)) (let ((f (lambda () x))) (setq x 2) (let ((x 3)) (list (funcall f) x))))"],
        ["(let (fs) (dotimes (i 3) (setq fs (cons (lambda () i) fs))) (mapcar (lambda (f) (integerp (funcall f))) fs))"],
        ["(let ((fs nil)) (dotimes (i 3) (let ((j i)) (setq fs (cons (lambda () (setq j (+ j 10))) fs)))) (list (mapcar (lambda (f) (funcall f)) fs) (mapcar (lambda (f) (funcall f)) fs)))"],
        ["(defun adder (n) (let ((k (* n 2))) (lambda (x) (setq k (+ k x)) (list n k))))", "(let ((a (adder 1)) (b (adder 2))) (funcall a 5) (funcall b 6) (list (funcall a 1) (funcall b 1)))"],
        ["(setq nope%N 1)", "(ignore-errors (setq nope%N 1))", "(let ((z 1)) (setq z 2 nope%N 3))", "nope%N"],
        ["(flet ((ev (n) (if (= n 0) t (od (- n 1)))) (od (n) 5)) (tr (chk (lambda () (ev 1)))))"],
        ["(defun od (n) 'global)", "(flet ((ev (n) (od n)) (od (n) 'local)) (list (ev 1) (od 1)))", "(labels ((ev (n) (od n)) (od (n) 'local)) (list (ev 1) (od 1)))"],
        ["(defdynamic *v* 1)", "(defun rdv () (dynamic *v*))", "(let ((*v* 5)) (list *v* (rdv)))", "(ignore-errors *v*)", "(dynamic-let ((*v* 2)) (list (ignore-errors *v*) (rdv)))"],
    ]
    for g in G:
        m.add([CHK] + [x.replace("%N", str(m.uid())) for x in g], "definitions")
    # every kind of variable holding nil, a number, a function, with variables of the same name around it
    BV = ["(with-open-input-file (x \"in.txt\") %B)", "(with-open-output-file (x \"out.txt\") %B)", "(for ((x 1 x) (i 0 (+ i 1))) ((= i 2) x) %B)", "(dotimes (x 2) (let ((x x)) %B))", "(dolist (x '(1 nil)) %B)", "(funcall (lambda (x) %B) nil)",
          "(flet ((x (x) %B)) (x 5) (x nil))", "(labels ((g (:rest x) %B)) (g) (g 1 2))", "(let (x) %B)", "(let* ((x nil) (y x)) %B)", "(chk (lambda () (with-handler (lambda (x) %B (throw 'k 1)) (car 5))))", "(vm%N 5 2)", "(vf%N nil)",
          "(mapcar (lambda (x) %B) '(nil 1))"]
    SB = ["(setq x nil)", "(setq x 5)", "(setq x (list x))", "(tr x)", "(setq x x)", "(setq fs (cons (lambda () x) fs))", "(setq fs (cons (lambda () (setq x 7)) fs))", "(let ((x nil)) (setq x 8) (tr x))", "(setf x nil)", "(psetq x nil)", "(setq x (lambda () x))"]
    for _ in range(260 if quick else 3000):
        r = m.rng
        body = lambda k: " ".join(r.choice(SB) for _ in range(r.randint(1, k))) + " x"
        t = r.choice(BV).replace("%B", body(4))
        if r.random() < .5:
            t = r.choice(BV).replace("%B", r.choice(SB[:3]) + " " + t + " " + body(2))
        u = str(m.uid())
        m.add_job({"calls": [c.replace("%N", u) for c in [CHK, "(defgeneric vm%N (x y))", "(defmethod vm%N ((x <integer>) (y <object>)) " + body(3) + ")", "(defun vf%N (x) " + body(3) + ")",
                   "(let ((x 1) (fs nil)) (tr 'val (catch 'k %s)) (tr 'outer x) (mapcar (lambda (f) (tr 'again (funcall f))) fs) (tr 'end x))" % t]],
                   "files": [["in.txt", "x\n"]]}, "variables")
    prof = gen.mix(gen.BASE, closure=5, flet=4, rec=2, map=2, dolist=1, dotimes=1, block=1, **{"for": 2, "while": 1, "lambda": 4, "let": 6, "setq": 6, "global": 1, "macro": 1})
    m.random(prof, 900 if quick else 9000, 5)


# ---------------------------------------------------------------- C06
TAIL_CTX = ["%T", "(progn (tr 'p n) %T)", "(let ((n n) (z 1)) %T)", "(let* ((z n) (n z)) %T)", "(cond ((= n 1) (tr 'one) %T) (t %T))", "(if (tr t) %T 5)",
            "(cond (nil 1) (t (tr 't) %T))", "(let ((q (lambda () n))) (tr 'q (funcall q)) %T)", "(when (tr t) %T)", "(unless nil %T)", "(and (tr 1) %T)", "(or nil %T)",
            "(case n ((1) %T) (t %T))", "(block bb %T)", "(list %T)", "(+ 1 (let ((v %T)) (if (integerp v) v 0)))", "(unwind-protect %T (tr 'u n))", "(catch 'kk %T)",
            "(dynamic-let ((*d* n)) %T)", "(with-handler (lambda (e) (tr 'h n e)) %T)", "(ignore-errors %T)", "(prog1 %T (tr 'z n))", "(tagbody %T)", "(flet ((w (z) z)) %T)",
            "(let ((a (tr 'a n))) (setq n (- n 0)) %T)", "(return-from bq %T)", "(funcall (lambda () %T))", "((lambda (n) %T) n)", "(m-id %T)", "(m-do %T)", "(while (> n 100) nil) %T",
            "(setq sv (cons (lambda () (list n acc)) sv)) %T", "(if (= n 2) (setq n 2)) %T", "(block bb (return-from bb %T))", "(mapcar (lambda (n) (if (< n 0) 1 0)) '(1)) %T",
            "(progn %T (tr 'more n) n)", "(progn (tr 'p) %T %T)", "(let ((z n)) %T (tr 'more z) (list z acc))", "(let* ((z n) (y z)) %T y)", "(cond ((= n 1) %T (tr 'more) 'one) (t %T (tr 'more n) n))",
            "(cond (%T 'true) (t 'false))", "(if %T (progn %T n) 'no)", "(let ((v %T)) (tr 'v v) %T)", "(when t %T n)", "(cond (nil 0) (%T) (t 1))"]
TAIL_TWICE = ["(progn (tr 'p) %T %T)", "(if %T (progn %T n) 'no)", "(let ((v %T)) (tr 'v v) %T)"]
TAIL_CALL = ["(f (- n 1) (+ acc n))", "(f (- n 1) (cons n acc))", "(f (- n (tr 'a1 1)) (progn (tr 'a2) acc))", "(f (- n 1) (let ((n 50)) (+ n 1)))",
             "(f (- n 1))", "(f (- n 1) acc 7)", "(f (- n 1) (car acc))", "(f (- n 1) (progn (setq n 40) n))", "(f (- n 1) (lambda () (list n acc)))", "(f (- n 1) (f 0 acc))",
             "(f (f 0 (- n 1)) acc)", "(f (- n 1) (return-from bq 'left))", "(f (- n 1) (undef-fx n))", "(funcall #'f (- n 1) acc)", "(apply #'f (list (- n 1) acc))",
             "(f (- n 1) (progn (if (= n 2) (defun f (n acc) (list 'new n acc))) acc))", "(flet ((f (n acc) (list 'local n acc))) (f (- n 1) acc))", "(g (- n 1) acc)",
             "(let ((f 5)) (f (- n 1) f))", "(f (- n 1) n)", "(psw acc n)"]
TAIL_DEF = [
    "(defun f (n acc) (block bq (if (<= n 0) acc %C)))",
    "(defun f (n acc) (tr 'it n) (if (<= n 0) acc %C))",
    "(defun f (n acc) (if (> n 0) %C (progn (tr 'base) acc)))",
    "(defun f (n acc) (cond ((<= n 0) (list 'end acc)) (t (block bq %C))))",
    "(defun f (n acc) (if (> n 0) %C) (tr 'end n) (list n acc))",
    "(defun f (n acc) (cond ((> n 0) %C)) acc)",
    "(labels ((f (n acc) (block bq (if (<= n 0) acc %C)))) (setq top (lambda (n acc) (f n acc))))",
]


def c06(m):
    prods = [(d, c, t) for d in TAIL_DEF for c in TAIL_CTX for t in TAIL_CALL]
    prods = [x for x in prods if not (x[1] in TAIL_TWICE and "setq n 40" in x[2])]
    for d, c, t in m.sample(prods, 1500 if m.quick else 5000):
        u = str(m.uid())
        body = c.replace("%T", t)
        lab = d.startswith("(labels")
        df = d.replace("%C", "(progn %s)" % body if " %T" in c and not c.startswith("(") or c.count("(") and c.endswith(" %T") else body).replace("sv", "sv" + u).replace("top", "top" + u)
        call = ("(funcall top%s 3 %%A)" % u) if lab else "(f 3 %A)"
        pre = [CHK, "(defdynamic *d* 0)", "(defun g (n acc) (list 'g n acc))"] + ctx.prelude(df)
        if "sv" + u in df:
            pre.append("(defglobal sv%s nil)" % u)
        if lab:
            pre.append("(defglobal top%s nil)" % u)
        calls = pre + [df, chk(call.replace("%A", "1")), chk(call.replace("%A", "'(u)"))]
        if "sv" + u in df:
            calls.append("(mapcar (lambda (q) (funcall q)) sv%s)" % u)
        m.add(calls + ["(dynamic *d*)"])
    R = [
        ["(defun f (n &rest r) (tr n r) (if (= n 0) r (f (- n 1) n r)))", "(f 3)", "(f 3 'a 'b)"],
        ["(defun f (n &rest r) (if (= n 0) r (progn (setq sv%N (cons r sv%N)) (f (- n 1) n 'x))))", "(defglobal sv%N nil)", "(f 3 1 2 3)", "sv%N", "(set-car 'changed (car sv%N))", "(f 1)", "sv%N"],
        ["(defun f (n &rest r) (if (= n 0) r (f (- n 1))))", "(f 3 1 2)"],
        ["(defun f (n k &rest r) (if (= n 0) (list k r) (if (= n 2) (f (- n 1)) (f (- n 1) k r))))", "(tr (chk (lambda () (f 3 1))))", "(f 1 1)"],
        ["(defun ev (n) (if (= n 0) t (od (- n 1)))) (defun od (n) (if (= n 0) nil (ev (- n 1))))", "(list (ev 7) (ev 8))"],
        ["(defun f (n a b) (if (= n 0) (list a b) (f (- n 1) b a)))", "(f 3 1 2)", "(f 4 1 2)"],
        ["(defun f (n a b) (if (= n 0) (list a b) (f (- n 1) (+ a b) a)))", "(f 10 1 0)"],
        ["(let ((k 10)) (defun f (n) (if (= n 0) k (progn (setq k (+ k n)) (f (- n 1))))))", "(f 3)", "(f 3)"],
        ["(defun f (n) (if (= n 0) 'done (progn (if (= n 2) (defun f (x) (list 'new x))) (f (- n 1)))))", "(f 4)", "(f 1)"],
        ["(defun f (n) (let ((g #'f)) (if (= n 0) 'done (progn (if (= n 2) (defun f (x) (list 'new x))) (funcall g (- n 1))))))", "(f 4)"],
        ["(defun f (n l) (if (= n 0) l (let ((n (- n 1)) (l (cons (lambda () n) l))) (f n l))))", "(mapcar (lambda (g) (funcall g)) (f 3 nil))"],
        ["(defun f (n l) (if (= n 0) l (f (- n 1) (cons (lambda (v) (if v (setq n v)) n) l))))", "(let ((l (f 3 nil))) (funcall (car l) 50) (mapcar (lambda (g) (funcall g nil)) l))"],
        ["(defun f (n) (if (= n 0) (block nil 1) (f (- n 1))))", "(f 3)"],
        ["(defun f (n) (catch 'a (if (= n 0) (throw 'a 'z) (f (- n 1)))))", "(f 3)"],
        ["(defun f (n) (block b (if (= n 0) (return-from b 'z) (f (- n 1))) (tr n) 'after))", "(f 3)"],
        ["(defun f (n k) (block b (if (= n 0) (funcall k 'esc) (list n (f (- n 1) (if (= n 2) (lambda (v) (return-from b v)) k))))))", "(f 4 (lambda (v) v))"],
        ["(defun f (n) (unwind-protect (if (= n 0) (car 5) (f (- n 1))) (tr 'c n)))", "(ignore-errors (f 3))"],
        ["(defdynamic *q* 0)", "(defun f (n) (if (= n 0) (dynamic *q*) (dynamic-let ((*q* (+ n (dynamic *q*)))) (f (- n 1)))))", "(f 3)", "(dynamic *q*)"],
        ["(defun f (n) (with-handler (lambda (e) (tr 'h n)) (if (= n 0) (car 5) (f (- n 1)))))", "(ignore-errors (f 2))", "(f 2)"],
        ["(defgeneric gf (n a)) (defmethod gf ((n <integer>) (a <integer>)) (if (= n 0) a (gf (- n 1) (+ a n)))) (defmethod gf ((n <integer>) (a <object>)) (if (= n 0) (list a) (gf (- n 1) n)))", "(gf 4 'a)", "(gf 4 1)"],
        ["(defmethod gg ((n <integer>)) 1)", "(defgeneric gg (n &rest r)) (defmethod gg ((n <integer>) &rest (r <object>)) (if (= n 0) r (gg (- n 1) n r)))", "(gg 3)"],
        ["(flet ((f (n) (if (= n 0) 'inner (f (- n 1))))) (tr (chk (lambda () (f 2)))))"],
        ["(defun f (n) (if (= n 0) 'global (list n (f (- n 1)))))", "(flet ((f (n) (if (= n 0) 'inner (list 'i (f (- n 1)))))) (f 2))", "(labels ((f (n) (if (= n 0) 'inner (f (- n 1))))) (f 2))"],
        ["(defun f (f) (if (= f 0) 'zero (f (- f 1))))", "(f 3)"],
        ["(defun f (n) (if (= n 0) 0 (if (f 0) (f (- n 1)) 1)))", "(f 3)"],
        ["(defun f (n) (and (> n 0) (or (f (- n 1)) n)))", "(f 3)"],
        ["(defun f (n) (if (= n 0) nil (let ((f (lambda (x) x))) (f (- n 1)))))", "(f 3)"],
        ["(defun f (n) (tr n) (if (< n 3) (f (let ((v (f 5))) (+ n 1)))))", "(f 1)"],
        ["(defun f (n) (while (> n 0) (setq n (- n 1)) (if (= n 2) (f 1)) (tr 'w n)) n)", "(f 4)"],
        ["(defun f (n) (dolist (i '(1 2)) (tr n i) (if (> n 0) (f (- n 1)))))", "(f 1)"],
    ]
    for g in R:
        m.add([CHK] + [x.replace("%N", str(m.uid())) for x in g], "definitions")
    prof = gen.mix(gen.BASE, gen.EXITS, rec=8, flet=2, closure=2, defun=1)
    m.random(prof, 500 if m.quick else 8000, 4)


# large runs: (definitions, call with %n, closed form of the value in n, texts of small n checked by TLC too)
BIGTAIL = [
    ("(defun f (n acc) (if (= n 0) acc (f (- n 1) (+ acc 1))))", "(f %n 0)", lambda n: ["i", n]),
    ("(defun f (n acc) (cond ((= n 0) acc) (t (f (- n 1) (+ acc 2)))))", "(f %n 0)", lambda n: ["i", 2 * n]),
    ("(defun f (n acc) (let ((m (- n 1))) (if (= n 0) acc (f m (+ acc 1)))))", "(f %n 0)", lambda n: ["i", n]),
    ("(defun f (n acc) (let* ((m (- n 1)) (q acc)) (if (= n 0) q (f m (+ q 1)))))", "(f %n 0)", lambda n: ["i", n]),
    ("(defun f (n acc) (progn (setq acc (+ acc 1)) (if (= n 0) acc (f (- n 1) acc))))", "(f %n 0)", lambda n: ["i", n + 1]),
    ("(defun f (n &rest r) (if (= n 0) r (f (- n 1) n)))", "(f %n 1 2)", lambda n: ["l", [["i", 1]], ["s", "nil"]]),
    ("(defun f (n a b) (if (= n 0) (- a b) (f (- n 1) b a)))", "(f %n 1 0)", lambda n: ["i", 1 if n % 2 == 0 else -1]),
    ("(defun f (n acc) (if (= n 0) acc (cond ((= (mod n 2) 0) (f (- n 1) acc)) (t (let ((x 1)) (progn (f (- n 1) (+ acc x))))))))", "(f %n 0)", lambda n: ["i", (n + 1) // 2]),
    ("(labels ((f (n acc) (if (= n 0) acc (f (- n 1) (+ acc 1))))) (f %n 0))", None, lambda n: ["i", n]),
    ("(defun f (n) (if (> n 0) (f (- n 1)) 'end))", "(f %n)", lambda n: ["s", "end"]),
    ("(defun f (n) (cond ((> n 0) (let () (f (- n 1)))) (t n)))", "(f %n)", lambda n: ["i", 0]),
    ("(defun f (n acc) (if (= n 0) acc (f (- n 1) (if (= 0 (f 0 0)) (+ acc 1) 0))))", "(f %n 0)", lambda n: ["i", n]),
]


# ---------------------------------------------------------------- C07
CALLEE = [
    ("(list %A)", 0, 6), ("(+ %A)", 0, 6), ("(vector %A)", 0, 5), ("(append %A)", 0, 4), ("(string-append %A)", 0, 4), ("(cons %A)", 2, 2), ("(g2 %A)", 2, 2), ("(g3 %A)", 3, 3),
    ("(gr %A)", 0, 5), ("(g1r %A)", 1, 5), ("(funcall (lambda (p q) (tr 'call p q) (list p q)) %A)", 2, 2), ("((lambda (p q) (tr 'call p q) (list p q)) %A)", 2, 2),
    ("(funcall #'g2 %A)", 2, 2), ("(funcall #'list %A)", 0, 5), ("(funcall (progn (tr 'fn) #'list) %A)", 0, 5), ("(gf2 %A)", 2, 2), ("(gfr %A)", 1, 4),
    ("(flet ((l2 (p q) (tr 'call p q) q)) (l2 %A))", 2, 2), ("(labels ((l3 (p q r) (tr 'call p q) r)) (l3 %A))", 3, 3), ("(let ((v (lambda (&rest r) (tr 'call r) r))) (funcall v %A))", 0, 5),
    ("(apply #'list %A '(8 9))", 0, 4), ("(apply #'g3 %A (list (tr 'last 4)))", 2, 2), ("(apply (progn (tr 'fn) #'gr) %A nil)", 0, 4), ("(max %A)", 1, 4), ("(- %A)", 1, 4), ("(= %A)", 1, 4), ("(< %A)", 2, 4),
    ("(elt (list 1 2 3 4 5 6 7 8 9) %A)", 1, 1), ("(equal %A)", 2, 3), ("(eq %A)", 2, 2), ("(subseq \"abcdefghij\" %A)", 2, 2), ("(format nil \"~a~a\" %A)", 2, 2), ("(mapcar #'list (list %A))", 0, 4),
    ("(create <co%N> 'a %A 'b %B)", 1, 1), ("(set-car %A (list 1))", 1, 1), ("(nth %A '(a b c))", 1, 1), ("(error \"x~a\" %A)", 1, 2), ("(cerror \"c\" \"x\" %A)", 1, 1),
    ("(throw %A %B)", 1, 1), ("(funcall (car (list #'list)) %A)", 0, 3), ("(undef-fun %A)", 0, 2), ("(funcall 'list2 %A)", 1, 2), ("(apply #'+ %A)", 1, 1), ("(aref (vector 5 6 7 8 9 10 11) %A)", 1, 1),
    ("(list (list %A) (list %B))", 1, 3), ("(g2 (g2 %A %B) (g2 3 %A))", 1, 1), ("(atom %A)", 1, 1), ("(1+ %A)", 1, 1), ("(second (list %A))", 1, 4), ("(identity2 %A)", 1, 1), ("(eval %A)", 1, 1),
    ("(gethash %A (make-hash-table))", 1, 1), ("(char= #\\a %A)", 1, 1), ("(quit2 %A)", 1, 1), ("(make1 %A)", 2, 2),
    ("(funcall %A %B)", 1, 1), ("(apply %A (list %B))", 1, 1), ("(funcall (progn %A #'list) %B)", 1, 2), ("(apply (progn %A #'gr) %B nil)", 1, 1),
] + [("(%s %%A (list 1 2))" % f, 1, 1) for f in ("mapcar", "mapc", "mapcan", "maplist", "mapl", "mapcon")] + [
    ("(%s (progn %%A #'list) (list %%B))" % f, 1, 1) for f in ("mapcar", "mapc", "mapcan", "maplist", "mapl", "mapcon")]
ARGS = ["(tr 'a%i %i)", "(progn (tr 'a%i) (setq st (+ st 1)) st)", "(car 'bad%i)", "(return-from b 'left%i)", "(throw 'k 'thrown%i)", "unbound-v%i", "st", "(setq st %i)", "(let ((st %i)) (tr 'l st))",
        "(tr 'a%i nil)", "(undef-g %i)", "(go out)", "(g2 (tr 'n%i 1) st)", "(progn (tr 'a%i) \"s%i\")", "(error \"e%i\")"]


def c07(m):
    quick = m.quick
    pre = [CHK, "(defun g2 (p q) (tr 'call p q) (list p q)) (defun g3 (p q r) (tr 'call p q r) (list p q r)) (defun gr (&rest r) (tr 'call r) r) (defun g1r (p &rest r) (tr 'call p r) (list p r))",
           "(defgeneric gf2 (p q)) (defmethod gf2 ((p <object>) (q <object>)) (tr 'call p q) q) (defgeneric gfr (p &rest r)) (defmethod gfr ((p <object>) &rest (r <object>)) (tr 'call p r) r)"]
    r = m.rng

    def arg(i):
        x = ARGS[0] if r.random() < .45 else r.choice(ARGS)
        return x.replace("%i", str(i))
    for _ in range(1700 if quick else 14000):
        c, lo, hi = r.choice(CALLEE)
        n = r.randint(lo, min(hi, lo + 4))
        a = " ".join(arg(i) for i in range(1, n + 1))
        c = c.replace("%A", a).replace("%B", arg(9)).replace("%N", str(m.uid()))
        if r.random() < .3:
            c = fill(CTX[r.choice(NAMES)], c)
        t = "(let ((st 0)) (tr 'val (block b (catch 'k (let ((r nil)) (tagbody (setq r %s) (tr 'stay) out) r)))) (tr 'st st))" % c
        p = ctx.prelude(t) + pre
        if "<co" in t:
            p = p + ["(defclass <co%d> () ((a :initarg a) (b :initarg b)))" % m.uid()]
        m.add(p + [t], "arguments")
    # what is passed is the object itself, also when it looks like code
    code = ["'a", "''a", "'(quote a b)", "'(car x)", "'(lambda (x) x)", "':key", "\"s\"", "'#'car", "nil", "5", "'(tr 'no)", "'(quote . z)", "'(quote)", "'`x", "',x", "(vector ''q)", "(list 'quote 'y)", "(list ''p)", "2.5", "#\\c", "t", "'(tr)"]
    for _ in range(260 if quick else 2500):
        k = r.randint(1, 4)
        e = [r.choice(code) for _ in range(k)]
        e2 = [r.choice(code) for _ in range(k)]
        l, l2 = "(list %s)" % " ".join(e), "(list %s)" % " ".join(e2)
        x = r.choice(["(mapcar (lambda (x) x) %l)", "(mapcar #'list %l %m)", "(mapc (lambda (x) (tr 'm x)) %l)", "(maplist (lambda (x) x) %l)", "(maplist #'list %l %m)", "(mapl (lambda (x y) (tr 'm x y)) %l %m)", "(mapcan (lambda (x) (list x)) %l)", "(mapcan #'list %l %m)",
                      "(mapcon (lambda (x) (list x)) %l)", "(apply #'list %l)", "(apply #'gr 1 %l)", "(apply #'list %e %m)", "(funcall #'list %e)", "(gr %e)", "(apply #'gfr 0 %l)", "(gfr 'a %e)", "(apply #'vector %l)", "(apply (lambda (&rest r) r) %l)",
                      "(labels ((lp (x y) (if (null x) y (lp (cdr x) (cons (car x) y))))) (lp %l nil))", "(let ((x %f)) (funcall (lambda (y) (list x y)) x))", "(flet ((h (x &rest r) (list r x))) (apply #'h %l))",
                      "(reduce #'list %l)", "(mapcar #'mapcar (list #'list) (list %l))", "(apply #'mapcar #'list (list %l %m))"]).replace("%l", l).replace("%m", l2).replace("%e", " ".join(e)).replace("%f", e[0])
        if "reduce" in x:
            continue
        m.add(pre + ["(tr 'r (chk (lambda () %s)))" % x], "objects")
    # argument counts: builtins
    import re
    import os
    lib = open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "LispLib.tla")).read()
    lib = lib[lib.index("Arity =="):lib.index("Builtins ==")]
    table = []
    for names, lo, hi in re.findall(r"\[f \\in \{(.*?)\} \|-> <<(-?\d+), (-?\d+)>>\]", lib, re.S):
        for f in re.findall(r'"([^"]+)"', names):
            table.append((f, int(lo), int(hi)))
    calls = []
    for f, lo, hi in table:
        if f in ("tr", "host-fail"):
            continue
        for n in range(0, 6):
            if n < lo or (hi >= 0 and n > hi):
                calls.append("(%s %s)" % (f, " ".join(["1"] * n)))
                calls.append("(funcall #'%s %s)" % (f, " ".join(["1"] * n)))
                calls.append("(apply #'%s '(%s))" % (f, " ".join(["1"] * n)))
                calls.append("(mapcar #'%s %s)" % (f, " ".join(["'(1)"] * n)) if n else "(funcall #'%s)" % f)
    r.shuffle(calls)
    for i in range(0, len(calls), 12):
        m.add([CHK] + [chk(c) for c in calls[i:i + 12]], "arity")
    # argument counts: user functions
    kinds = [("(defun u (%P) (tr 'in) %B)", "(u %A)", 0), ("(flet ((u (%P) (tr 'in) %B)) %C)", None, 0), ("(labels ((u (%P) (tr 'in) %B)) %C)", None, 0),
             ("", "((lambda (%P) (tr 'in) %B) %A)", 0), ("", "(funcall (lambda (%P) (tr 'in) %B) %A)", 0), ("", "(apply (lambda (%P) (tr 'in) %B) (list %A))", 0),
             ("(defgeneric u (%P)) (defmethod u (%G) (tr 'in) %B)", "(u %A)", 0), ("(defun u (%P) (tr 'in) %B)", "(mapcar #'u %L)", 1), ("(defun u (%P) (tr 'in) %B)", "(apply #'u %A nil)", 0)]
    for d, c, need in kinds:
        for np in range(0, 4):
            for rest in ("", "&rest", ":rest"):
                for n in range(need, 6):
                    ps = ["p%d" % i for i in range(np)]
                    P = " ".join(ps + ([rest, "r"] if rest else []))
                    G = " ".join(["(%s <object>)" % q for q in ps] + ([rest, "(r <object>)"] if rest else []))
                    B = "(list %s)" % " ".join(ps + (["r"] if rest else []))
                    A = " ".join("'v%d" % i for i in range(n))
                    L = " ".join("'(v%d w%d)" % (i, i) for i in range(n))
                    if np == 0 and "defgeneric" in d and not rest:
                        continue
                    call = (c or "(u %A)").replace("%A", A).replace("%L", L).replace("%P", P).replace("%B", B)
                    if c is None:
                        m.add([CHK, "(tr 'v (chk (lambda () %s)))" % d.replace("%P", P).replace("%B", B).replace("%C", call)], "user-arity")
                    else:
                        m.add([CHK] + ([d.replace("%P", P).replace("%G", G).replace("%B", B)] if d else []) + [chk(call)], "user-arity")
    # a rest list is fresh
    for d in ["(defun u (&rest r) r)", "(defgeneric u (a &rest r)) (defmethod u ((a <object>) &rest (r <object>)) r)", "(labels ((u0 (&rest r) r)) (defun u (&rest r) (apply #'u0 r)))"]:
        m.add([d, "(let* ((l (list 1 2 3)) (x (apply #'u l)) (y (apply #'u l))) (set-car 'c x) (if (consp (cdr y)) (set-cdr 'e (cdr y))) (list l x y))"])
        m.add([d, "(let ((x (u 1 2 3)) (y (u 1 2 3))) (set-car 'c x) (list x y (eq x y) (u 1) (u 1 2 3)))"])
    prof = gen.mix(gen.BASE, call=6, funcall=5, flet=2, map=2, error=2, ignore=2, closure=2, block=1, defun=1)
    prof["lambda"] = 5
    m.random(prof, 300 if quick else 6000, 4)


# ---------------------------------------------------------------- C08
MACS = {
    "m1": "(defmacro m1 (x) `(list ,x ,x))",
    "m2": "(defmacro m2 (x y) (list 'list y x))",
    "m3": "(defmacro m3 (x &rest r) `(progn (tr 'm3 ,x) ,@r))",
    "m4": "(defmacro m4 (&rest r) `(list ,@r 'end))",
    "m5": "(defmacro m5 (x) (list 'quote x))",
    "m6": "(defmacro m6 (x) `(let ((tmp 5)) (+ tmp ,x)))",
    "m7": "(defmacro m7 (x) (if (consp x) `(list 'cons ',x) `(list 'atom ,x)))",
    "m8": "(defmacro m8 (x) `(m1 (m2 ,x 2)))",
    "m9": "(defmacro m9 (v e) `(setq ,v ,e))",
    "m10": "(defmacro m10 (a b) `(let ((,a ,b)) (tr ',a ,a) ,a))",
    "m11": "(defmacro m11 (n x) (if (= n 0) x `(m11 ,(- n 1) (1+ ,x))))",
    "m12": "(defmacro m12 () (list '+ 1 2))",
    "m13": "(defmacro m13 (f &rest args) `(,f ,@args))",
    "m14": "(defmacro m14 (x &rest r) `(cond (,x (tr 'yes) ,@r) (t (tr 'no))))",
    "m15": "(defmacro m15 (&rest r) (length r))",
    "m16": "(defmacro m16 (x) `(block mb (tr 'b) ,x (tr 'after)))",
    "m17": "(defmacro m17 (x y) `(,x . ,y))",
    "m18": "(defmacro m18 (x) `(quote (,x b (c ,x) . ,x)))",
    "m19": "(defmacro m19 (x &rest r) `(lambda (,x) ,@r))",
    "m20": "(defmacro m20 (x) `(flet ((q (v) (list v ,x))) (q 1)))",
    "m21": "(defmacro m21 (x) (let ((g (gensym))) `(let ((,g ,x)) (list ,g ,g))))",
    "m22": "(defmacro m22 (name &rest body) `(defun ,name (x) ,@body))",
    "m23": "(defmacro m23 (x) (car (cdr x)))",
    "m24": "(defmacro m24 (p) `(incf (car ,p)))",
    "m25": "(defmacro m25 (x) `\"str\")",
    "m26": "(defmacro m26 (x) nil)",
}
MAC_USE = [
    "(m1 %A)", "(m2 %A %B)", "(m3 %A %B %C)", "(m3 %A)", "(m4)", "(m4 %A)", "(m4 %A %B %C)", "(m5 (a %A b))", "(m5 sym)", "(m6 %A)", "(m7 sym7)", "(m7 (sym7 %A))", "(m8 %A)",
    "(let ((v 1)) (m9 v %A) (list v))", "(m10 z %A)", "(m11 3 %A)", "(m12)", "(m13 list %A %B)", "(m13 m1 %A)", "(m14 %A %B)", "(m14 nil %B)", "(m15 %A %B %C)", "(m16 %A)",
    "(m16 (return-from mb %A))", "(m17 list (1 2 %A))", "(m18 q)", "(funcall (m19 x (tr 'x x) %A) 5)", "(m20 %A)", "(m21 %A)", "(progn (m22 mf%N %A (list x)) (mf%N 7))", "(m23 (1 %A 3))",
    "(let ((l (list 1 2))) (m24 l) l)", "(m25 zz)", "(m26 (car 5))", "(m1 (m1 %A))", "(m2 (m2 %A 1) (m4 %B))", "(m8 (m8 %A))", "(m3 (m7 %A) (m7 foo))", "(list (m1 %A) (m2 %B 0))",
    "(mapcar (lambda (x) (m1 x)) '(1 2))", "(let ((tmp 9)) (m20 tmp))", "(flet ((m1x (x) x)) (m1 (m1x %A)))", "(let ((x 1)) (m1 (setq x (+ x 1))))",
    "(labels ((f (n) (if (= n 0) %A (m3 n (f (- n 1)))))) (f 2))", "(dotimes (i 2) (m3 i %A))", "(let ((k 0)) (while (and (< k 2) (m14 t (setq k (+ k 1)))) %A))", "(cond ((m26 1) 2) ((m12) (m1 %A)))", "(and (m12) (m1 %A))",
    "(catch 'k (m3 1 (throw 'k %A)))", "(unwind-protect (m1 %A) (m3 'c %B))", "(case (m12) ((3) (m1 %A)))", "(let ((a (m1 %A)) (b (m12))) (list a b))", "(let* ((a (m12)) (b (m1 a))) (list a b))",
    "(funcall (lambda (&rest r) (m4 r)) 1 %A)", "(tr 'q '(m1 2) `(m1 ,%A))", "`(1 ,(m1 %A) (2 ,(m12)))", "(for ((i (m12) (+ i 1))) ((> i 4) (m1 i)) (m3 i %A))",
    "(block b (m14 (return-from b %A) 1))", "(with-handler (lambda (e) (m3 'h) (continue-condition e (m12))) (m1 (cerror \"\" \"\")))", "(setq gm%N (m1 %A))",
    "(let ((l (list 1 2))) (setf (car l) (m12)) (incf (car l) (m12)) l)", "(progn (defmethod mgf ((x <integer>)) (m1 x)) (mgf 5))", "(flet ((f (x) (m1 x))) (f %A))",
    "(psetq gm%N (m12))", "(dynamic-let ((*m* (m12))) (m1 (dynamic *m*)))", "(prog1 (m12) (m3 1 %A))", "(when (m12) (m1 %A))", "(dolist (q (m1 %A)) (m3 q))", "(tagbody (m3 'x (go e)) (tr 'not) e (m3 'y))",
    "(ignore-errors (m1 (car %A)))", "((lambda (x) (m1 x)) %A)", "(apply (lambda (x) (m1 x)) (m4 %A) )", "(or nil (m26 0) (m12))", "(if (m26 0) 1 (m12))", "(return-from nowhere (m12))", "(throw 'nowhere (m12))",
    "(macroexpand '(m1 %A))", "(macroexpand '(m2 %A b))", "(macroexpand '(m8 %A))", "(macroexpand '(m11 2 x))", "(macroexpand '(m4 a b))", "(macroexpand '(m14 a))", "(macroexpand '(m18 q))",
    "(eval (macroexpand '(m12)))", "(let ((f '(m2 a b))) (tr (macroexpand f)) f)", "(eval '(m1 %A))", "(eval (list 'm1 5))", "(macroexpand '(m5 x))",
]
MAC_ARG = ["(tr 'a%i %i)", "%i", "'q", "(list 'l (tr 'a%i))", "(m12)", "(m1 %i)", "(progn (setq gm%N (+ 1 gm%N)) gm%N)", "(car 'u%i)", "(return-from rb %i)", "gm%N", "\"s\"", "(m3 'in%i %i)"]
MAC_WRAP = ["%U", "(progn (defun um%N () %U) (um%N))", "(flet ((um () %U)) (um) (um))", "(let ((f (lambda () %U))) (funcall f))", "(eval '%U)", "(labels ((um (k) (if (= k 0) 0 (progn %U (um (- k 1)))))) (um 2))",
            "(progn (defun um%N (y) (let ((w y)) %U)) (um%N 1) (um%N 2))", "(progn (defgeneric ug%N (y)) (defmethod ug%N ((y <integer>)) %U) (ug%N 1) (ug%N 2))", "(progn %U %U)", "(m-do %U)", "(m-id %U)"]


def mac_pre(t):
    need, todo = [], [t]
    import re
    while todo:
        x = todo.pop()
        for n in re.findall(r"\(((?:m)\d+)[ )]", x) + re.findall(r"'?\b(m\d+)\b", x):
            if n in MACS and n not in need:
                need.append(n)
                todo.append(MACS[n])
    return [MACS[n] for n in MACS if n in need]


QUASI = [
    "`a", "`5", "`(1 2)", "`(a ,(tr 'q 1))", "`(a (b ,(tr 1) ,(tr 2)) ,(tr 3))", "`(,(tr 1) . ,(tr 2))", "`(a . ,(tr 2))", "`(,@nil)", "`,(tr 5)", "`(x ,`(y ,(tr 1)))", "`((,(tr 'a)) (,(tr 'b)))",
    "`(a ,(list 1 2) b)", "`(a ,'b c)", "`(quote ,(tr 1))", "`(a \"s\" #\\c 1.5 :k nil t)", "`(list ,gq)", "(let ((x 5)) `(x ,x))", "(let ((x '(1 2))) `(,x ,(car x) ,(cdr x)))",
    "`((a . ,(tr 1)) . (b . ,(tr 2)))", "`(1 ,(block b (return-from b (tr 2))) 3)", "`(a ,(car 5) ,(tr 'no))", "`(,(tr 1) ,(return-from qb 7) ,(tr 3))", "`()", "`(nil)", "`(a ,nil)", "`(a b . c)",
    "`#(1 2)", "(mapcar (lambda (x) `(v ,x)) '(1 2))", "`(,(setq gq (list 'n gq)) ,gq)", "`(f ,#'car)", "(eval `(+ 1 ,(tr 2)))", "(eval `(list ',gq))", "(let ((l (list 1 2))) (let ((q `(a ,l))) (eq (second q) l)))",
]


def c08(m):
    quick = m.quick
    r = m.rng

    def arg(i, u):
        return r.choice(MAC_ARG).replace("%i", str(i)).replace("%N", u)
    uses = [(w, u) for w in MAC_WRAP for u in MAC_USE]
    for k in range(1 if quick else 6):
        for w, u in uses:
            n = str(m.uid())
            t = u.replace("%A", arg(1, n)).replace("%B", arg(2, n)).replace("%C", arg(3, n))
            t = w.replace("%U", t).replace("%N", n)
            if r.random() < .25:
                t = fill(CTX[r.choice(NAMES)], t)
            if "(eval" in t:  # what eval sees of the caller's scope is not specified
                t = t.replace("return-from rb", "tr 'rb").replace("return-from b", "tr 'rb")
            pre = ctx.prelude(t) + ["(defglobal gm%s 1)" % n] + mac_pre(t)
            if "mgf" in t:
                pre.append("(defgeneric mgf (x))")
            m.add([CHK] + pre + ["(tr 'val (block rb %s))" % t, "(ignore-errors gm%s)" % n])
    for q in QUASI:
        for w in MAC_WRAP + ["(list %U %U)", "(block z %U)", "(catch 'k %U)"]:
            n = str(m.uid())
            t = w.replace("%U", "(block qb %s)" % q.replace("gq", "gq" + n)).replace("%N", n)
            m.add([CHK] + ctx.prelude(t) + ["(defglobal gq%s 'g)" % n, t])
    G = [
        ["(defmacro r%N (x) `(list 'old ,x))", "(defun ur%N () (r%N (tr 'e 1)))", "(ur%N)", "(defmacro r%N (x) `(list 'new ,x ,x))", "(r%N (tr 2))", "(defun ur2%N () (r%N (tr 3)))", "(ur2%N)"],
        ["(defmacro r%N (x) `(list ,x))", "(flet ((r%N (x) (list 'fn x))) (r%N (tr 1)))", "(r%N (tr 2))"],
        ["(defmacro r%N (x) `(list ,x))", "(labels ((r%N (x) (list 'fn x)) (u () (r%N 5))) (list (u) (r%N 6)))"],
        ["(defun u%N () (flet ((m1 (x) (list 'fn x))) (m1 (tr 1))))", MACS["m1"], "(u%N)", "(m1 (tr 2))"],
        [MACS["m1"], "(defun u%N () (flet ((m1 (x) (list 'fn x))) (m1 (tr 1))))", "(u%N)", "(m1 (tr 2))"],
        [MACS["m1"], "(defun u%N (m1) (list m1 (m1 m1)))", "(u%N 4)"],
        ["(defmacro w%N (&rest b) `(let ((i 0)) (while (< i 2) (setq i (+ i 1)) ,@b)))", "(w%N (tr 'x i))", "(w%N)"],
        ["(defmacro my-or%N (a b) (let ((g (gensym))) `(let ((,g ,a)) (if ,g ,g ,b))))", "(my-or%N (tr 1 nil) (tr 2 5))", "(my-or%N (tr 1 3) (tr 2 5))", "(let ((g 7)) (my-or%N nil g))"],
        ["(list (eq (gensym) (gensym)) (symbolp (gensym)) (let ((g (gensym))) (eq g g)) (eql (gensym) 'g))"],
        ["(let ((a (gensym)) (b (gensym))) (list (eq a b) (equal a b) (eql a b) (equalp a b) (eq a a) (eq a (let ((c a)) c)) (member b (list a b)) (assoc b (list (cons a 1) (cons b 2)))))"],
        ["(let ((h (make-hash-table)) (a (gensym)) (b (gensym))) (set-gethash 1 a h) (set-gethash 2 b h) (list (gethash a h) (gethash b h) (hash-table-count h)))"],
        ["(let ((a (gensym)) (b (gensym))) (eval `(let ((,a 1) (,b 2)) (list ,a ,b))))"],
        ["(let ((a (gensym)) (b (gensym))) (eval `(let ((,a 1)) (let ((,b 2)) (setq ,a 10) (list ,a ,b)))))"],
        ["(defmacro two%N (a b) `(list ,a ,b ,b ,a))", "(let ((n 0)) (two%N (setq n (+ n 1)) (tr 'b n)))"],
        ["(defmacro with%N (v &rest body) `(let ((,v 10)) ,@body))", "(with%N q (tr q) (setq q (+ q 1)) (list q))"],
        ["(defmacro c%N (x) (tr 'form x) `(list ',x))"],
        ["(defmacro nest%N (n) (if (= n 0) ''end `(list ,n (nest%N ,(- n 1)))))", "(nest%N 3)", "(defun un%N () (nest%N 2))", "(un%N)"],
        ["(defmacro dm%N (name v) `(defmacro ,name () ,v))", "(dm%N dmx%N 5)", "(dmx%N)"],
        ["(defmacro df%N (name v) `(defun ,name () (list ,v)))", "(df%N dfx%N (tr 'e 5))", "(dfx%N)", "(dfx%N)"],
        ["(defmacro lp%N (v l &rest b) `(mapc (lambda (,v) ,@b) ,l))", "(lp%N x '(1 2) (tr x))", "(lp%N y (list 3) (lp%N x '(1) (tr x y)))"],
        ["(defmacro k%N (x) `(return-from kb ,x))", "(block kb (list (k%N (tr 5)) (tr 'no)))", "(defun uk%N () (block kb (k%N 7) (tr 'no)))", "(uk%N)"],
        ["(defmacro bad%N (x) (car x))", "(ignore-errors (bad%N 5))", "(tr (ignore-errors (bad%N (list 1))))", "(bad%N (list))"],
        ["(defmacro e%N () (error \"expansion\"))", "(ignore-errors (e%N))", "(defun ue%N () 1)", "(ue%N)"],
        ["(macroexpand 'sym)", "(macroexpand 5)", "(macroexpand '(list 1))", "(macroexpand '(if 1 2))", "(macroexpand nil)"],
        [MACS["m1"], "(macroexpand '(m1 (tr 1)))", "(equal (macroexpand '(m1 q)) '(list q q))", "(let ((f '(m1 z))) (macroexpand f) f)"],
    ]
    for g in G:
        m.add([CHK] + [x.replace("%N", str(m.uid())) for x in g], "definitions")
        m.add([CHK] + [" ".join(x.replace("%N", str(m.uid())) for x in g)], "definitions")
    prof = gen.mix(gen.BASE, macro=8, quasi=5, flet=2, closure=2, map=1, block=1, retfrom=1)
    m.random(prof, 400 if quick else 8000, 4)


# ---------------------------------------------------------------- C09
TESTS = ["nil", "t", "5", "(tr 'x nil)", "(tr 'y 7)", "(tr 'z '())", "(null (tr 'n 1))", "(< i 2)", "(car (tr 'bad 5))", "(return-from ob 'out)", "\"\"", "0", "'sym", "(tr 's '(nil))"]
BODY = ["(tr 'b1 10)", "(tr 'b2 'u)", "nil", "(progn (tr 'p) 3)", "(setq i (+ i 1))", "i", "(return nil)", "(return (tr 'r 8))", "(return-from ob i)", "(car 'err)", "(tr 'l (list i))", "(let ((i 50)) (tr 'i i))"]
COND_T = [
    "(if %T %B)", "(if %T %B %B)", "(cond)", "(cond (%T))", "(cond (%T) (%T))", "(cond (%T %B) (%T %B %B) (t %B))", "(cond (%T %B) (%T) (%T %B))", "(cond (nil %B) (%T %B))",
    "(case %K (%L %B) (%L %B %B) (t %B))", "(case %K (%L %B) (%L %B))", "(case %K (t %B))", "(case %K)", "(case %K (%L) (t %B))", "(case-using #'equal %K (%L %B) (%L %B) (t %B))", "(case-using #'eql %K (%L %B))",
    "(case-using (lambda (p q) (tr 'cmp p q) (eql p q)) %K (%L %B) (%L %B) (t %B))",
    "(and %T)", "(and %T %T)", "(and %T %T %B)", "(or %T)", "(or %T %T)", "(or %T %T %B)", "(when %T)", "(when %T %B)", "(when %T %B %B)", "(unless %T %B)", "(unless %T %B %B)", "(unless %T)",
    "(progn)", "(progn %B)", "(progn %B %B %B)", "(prog1 %B)", "(prog1 %B %B)", "(prog1 %B %B %B)", "(prog2 %B %B)", "(prog2 %B %B %B)", "(setq i %B)", "(setq i %B j %B)", "(setq i 5 j i)",
    "(psetq i %B)", "(psetq i %B j %B)", "(psetq i j j i)", "(progn (psetq i (+ i 1) j i) (list i j))", "(not %T)", "(let () )", "(let ((q %B)))", "(if %T (cond (%T %B)) (case %K (%L %B)))", "(and (or %T %T) (cond (%T) (t %B)))",
    "(while (< (setq w (+ w 1)) 4) %B (tr 'w w))", "(while (and (< (setq w (+ w 1)) 4) %T) %B)", "(while nil %B)", "(while (< (setq w (+ w 1)) 3))", "(block nil (while (< (setq w (+ w 1)) 4) (if (= w 2) %B) (tr 'w w)))",
    "(for ((x 0 (+ x 1))) ((>= x 3)) %B)", "(for ((x 0 (+ x 1))) ((>= x 3) %B) (tr 'x x))", "(for ((x 0 (+ x 1)) (y 10 (- y x))) ((>= x 3) (list x y)) (tr x y) %B)", "(for ((x 0 (+ x 1)) (y 10)) ((>= x 2) %B %B) (setq y (+ y 1)) (tr y))",
    "(for ((x 0 y) (y 1 (+ x y))) ((> x 8) x) (tr x y))", "(for () ((> (setq w (+ w 1)) 2) 'e) %B)", "(for ((x (tr 'i1 1) (tr 's1 (+ x 1))) (y (tr 'i2 2) (tr 's2 (+ x y)))) ((tr 'test (> x 2)) (tr 'r y)) (tr 'body))",
    "(block nil (for ((x 0 (+ x 1))) ((>= x 3) 'end) (tr 'x x) %B))", "(for ((x 5 (+ x 1))) (%T 'r) (if (> x 6) (return-from ob x)) (tr x))", "(for ((x 0 (+ x 1))) (t) %B)",
    "(dolist (x '(1 2 3)) %B)", "(dolist (x '(1 2 3) %B) (tr 'x x))", "(dolist (x nil %B) (tr 'x x))", "(dolist (x nil) (tr 'no))", "(dolist (x (tr 'l '(1 2))) (tr 'x x) %B)", "(dolist (x '(1 (2) nil) x) (tr 'x x))", "(dolist (x '(1 2)) (setq x (list x)) (tr x) %B)",
    "(dolist (x '(1 2 3)) (if (= x 2) %B) (tr 'x x))", "(dotimes (x 3) %B)", "(dotimes (x 3) (tr 'x x) %B)", "(dotimes (x (tr 'n 2)) (tr 'x x))", "(dotimes (x 0) (tr 'no))", "(block nil (dotimes (x 3) (tr 'x x) (if (= x 1) %B)))", "(dotimes (x 3 %B) (tr 'x x))",
    "(dotimes (x -2) (tr 'no))", "(dolist (x '(a b)) (dotimes (y 2) (tr x y)))", "(dolist (x '(a b)) (dolist (y '(1 2)) (if (eql y 2) (return 'inner)) (tr x y)) (tr x))",
    "(let ((l (list 1 2 3))) (dolist (x l) (tr x) (set-car 'c l)))", "(for ((l '(1 2) (cdr l))) ((null l)) (tr (car l)))",
]
KEYS = ["1", "(tr 'k 2)", "'a", "nil", "t", "#\\a", "\"s\"", "2.0", "'(1)", ":k", "(progn (setq i (+ i 1)) i)", "(car 'bad)"]
LISTS = ["(1 2)", "(a b)", "()", "(nil)", "(t)", "(#\\a \"s\")", "((1))", "(2.0 :k)", "(3)", "(2)", "(0 1 2 3)", "(\"s\")"]


def c09(m):
    r = m.rng
    n = 1500 if m.quick else 15000

    def sub(t):
        while "%" in t:
            k = t.index("%")
            c = t[k + 1]
            if c == "T":
                x = r.choice(TESTS)
            elif c == "B":
                x = r.choice(BODY) if r.random() < .8 else r.choice(COND_T)
            elif c == "K":
                x = r.choice(KEYS)
            elif c == "L":
                x = r.choice(LISTS)
            t = t[:k] + x + t[k + 2:]
            if len(t) > 900:
                return None
        return t
    for i in range(n):
        t = None
        while t is None:
            t = sub(COND_T[i % len(COND_T)])
        if "(return" in t and "(return-from" not in t.replace("(return ", ""):
            t = "(block nil %s)" % t if r.random() < .7 else t
        if r.random() < .2:
            t = fill(CTX[r.choice(NAMES)], t)
        w = r.choice(["(let ((i 0) (j 20) (w 0)) (tr 'val (block ob %s)) (list i j w))", "(let ((i 0) (j 20) (w 0)) (tr 'val (ignore-errors (block ob %s))) (list i j w))",
                      "(progn (defun cf (i j w) (block ob %s)) (tr 'val (ignore-errors (cf 0 20 0))) (cf 1 2 0))"])
        x = w % t
        m.add(ctx.prelude(x) + [x])
    prof = gen.mix(gen.BASE, dolist=3, dotimes=2, case=5, cond=5, andor=4, when=4, prog=4, block=1, retfrom=1, setq=4, **{"if": 5, "while": 3, "for": 4})
    m.random(prof, 700 if m.quick else 9000, 4)

"""Contexts: program texts with one hole (%H). The specification decides what they do with what is put in the hole."""

PRELUDE = {
    "m-id": "(defmacro m-id (x) x)",
    "m-do": "(defmacro m-do (&rest body) `(progn (tr 'm) ,@body))",
    "g-call": "(defun g-call (f) (funcall f))",
    "g-two": "(defun g-two (x y) (tr 'g x y) y)",
    "gf-call": "(defgeneric gf-call (f)) (defmethod gf-call ((f <function>)) (funcall f)) (defmethod gf-call ((f <integer>)) (tr 'int f))",
    "rec-call": "(defun rec-call (n f) (if (= n 0) (funcall f) (rec-call (- n 1) f)))",
    "rec-deep": "(defun rec-deep (n f) (if (= n 0) (funcall f) (let ((r (rec-deep (- n 1) f))) (tr 'r n) r)))",
}

CTX = {
    "plain": "%H",
    "progn": "(progn (tr 'a) %H)",
    "progn1": "(progn %H (tr 'z))",
    "let": "(let ((x 5) (b 6)) %H)",
    "let-init": "(let ((x 5) (y %H)) (tr 'y y) y)",
    "let*-init": "(let* ((x %H) (y x)) (tr 'y y) y)",
    "if-test": "(if %H 1 2)",
    "if-then": "(if (tr t) %H 2)",
    "if-else": "(if (tr nil) 1 %H)",
    "cond-test": "(cond (%H (tr 'yes)) (t (tr 'no)))",
    "cond-only": "(cond (nil 1) (%H))",
    "cond-body": "(cond (nil 1) ((tr 2) %H (tr 'z)) (t 3))",
    "case-key": "(case %H ((1) 'one) ((nil) 'null) (t 'other))",
    "case-body": "(case 2 ((1) 'one) ((2) %H) (t 'other))",
    "case-using": "(case-using #'eql %H ((1) 'one) (t 'other))",
    "and": "(and (tr 1) %H (tr 'z))",
    "or": "(or (tr nil) %H (tr 'z))",
    "when": "(when %H (tr 'z))",
    "unless": "(unless (tr nil) %H)",
    "prog1": "(prog1 (tr 1) %H)",
    "prog1v": "(prog1 %H (tr 'z))",
    "prog2": "(prog2 (tr 1) %H (tr 3))",
    "while-body": "(let ((i 0)) (while (< i 2) (setq i (+ i 1)) %H (tr 'i i)))",
    "while-test": "(let ((i 0)) (while (and (< i 2) (progn %H t)) (setq i (+ i 1)) (tr 'i i)))",
    "for-body": "(for ((i 0 (+ i 1))) ((>= i 2) 'end) %H (tr 'i i))",
    "for-init": "(for ((i 0 (+ i 1)) (j %H)) ((>= i 2) j) (tr 'i i))",
    "for-step": "(for ((i 0 (+ i 1)) (j 0 %H)) ((>= i 2) j) (tr 'i i))",
    "for-test": "(for ((i 0 (+ i 1))) ((or (>= i 2) (progn %H nil)) 'end) (tr 'i i))",
    "for-result": "(for ((i 0 (+ i 1))) ((>= i 1) (tr 'r) %H) (tr 'i i))",
    "dolist": "(dolist (q '(1 2)) (tr 'q q) %H)",
    "dolist-list": "(dolist (q (list %H 2)) (tr 'q q))",
    "dotimes": "(progn (dotimes (q 2) (tr 'q q) %H) 0)",
    "lambda": "((lambda (x) (tr 'x x) %H) 1)",
    "lambda-arg": "((lambda (x y) (tr 'x x) y) 1 %H)",
    "funcall": "(funcall (lambda () %H))",
    "funcall-arg": "(funcall #'g-two (tr 1) %H)",
    "apply": "(apply (lambda (&rest r) %H) '(1 2))",
    "apply-arg": "(apply #'list (tr 1) (list 2 %H))",
    "flet": "(flet ((f (x) %H)) (tr 'f) (f 1))",
    "flet-arg": "(flet ((f (x y) (tr 'f x y) y)) (f (tr 1) %H))",
    "labels": "(labels ((f (n) (if (= n 0) %H (f (- n 1))))) (f 2))",
    "labels-deep": "(labels ((f (n) (if (= n 0) %H (progn (f (- n 1)) (tr 'n n))))) (f 2))",
    "mapcar": "(mapcar (lambda (q) (tr 'q q) %H) '(1 2))",
    "mapc": "(mapc (lambda (q) %H) '(1 2))",
    "mapcan": "(mapcan (lambda (q) (list %H)) '(1 2))",
    "maplist": "(maplist (lambda (q) %H) '(1 2))",
    "mapl": "(mapl (lambda (q) %H) '(1 2))",
    "arg": "(list (tr 1) %H (tr 3))",
    "arith": "(+ 1 %H)",
    "g-two": "(g-two %H (tr 2))",
    "g-call": "(g-call (lambda () %H))",
    "gf-call": "(gf-call (lambda () %H))",
    "rec-call": "(rec-call 2 (lambda () %H))",
    "rec-deep": "(rec-deep 2 (lambda () %H))",
    "m-id": "(m-id %H)",
    "m-do": "(m-do %H)",
    "setq": "(let ((v 1)) (setq v %H) (tr 'v v) v)",
    "setq2": "(let ((v 1) (w 2)) (setq v 3 w %H) (list v w))",
    "psetq": "(let ((v 1) (w 2)) (psetq v w w %H) (list v w))",
    "setf": "(let ((c (list 1 2))) (setf (car c) %H) c)",
    "quasi": "`(a ,%H b)",
    "block-other": "(block other %H (tr 'z))",
    "block-same": "(block b (tr 'in) %H (tr 'z))",
    "block-nil": "(block nil %H (tr 'z))",
    "catch-other": "(catch 'other (tr 'c) %H)",
    "catch-same": "(catch 'k (tr 'c) %H)",
    "catch-num": "(catch 7 (tr 'c) %H)",
    "tagbody-other": "(tagbody (tr 't0) (progn %H) (tr 't1) other (tr 't2))",
    "tagbody-same": "(let ((n 0)) (tagbody tg (setq n (+ n 1)) (tr 'n n) (if (< n 3) %H) t9 (tr 'end)))",
    "unwind": "(unwind-protect %H (tr 'clean))",
    "unwind-b": "(unwind-protect (progn (tr 'b) %H) (tr 'c1) (tr 'c2))",
    "cleanup": "(unwind-protect (tr 'body) (tr 'c1) %H (tr 'c2))",
    "cleanup-err": "(unwind-protect (car (tr 0)) (tr 'c1) %H (tr 'c2))",
    "cleanup-exit": "(block q (unwind-protect (return-from q 1) (tr 'c1) %H (tr 'c2)))",
    "dynlet": "(dynamic-let ((*d* 1)) (tr 'd (dynamic *d*)) %H)",
    "dynlet-init": "(dynamic-let ((*d* 1) (*e* %H)) (tr 'e (dynamic *e*)) (dynamic *d*))",
    "handler": "(with-handler (lambda (c) (tr 'h) 0) (tr 'w) %H)",
    "handler-exit": "(block hx (with-handler (lambda (c) (tr 'h) (return-from hx 'left)) (tr 'w) %H))",
    "handler-cont": "(with-handler (lambda (c) (tr 'h) (continue-condition c 4)) (tr 'w) %H)",
    "in-handler": "(block ih (with-handler (lambda (c) (tr 'h) %H (return-from ih 'ret)) (car 5)))",
    "in-handler-cont": "(with-handler (lambda (c) (tr 'h) (continue-condition c (progn %H 9))) (signal-condition (create <simple-error> 'format-string \"s\" 'format-arguments nil) t))",
    "ignore": "(ignore-errors (tr 'i) %H)",
    "tmpfn": "(let ((f (lambda () %H))) (tr 'made) (funcall f))",
    "map2": "(mapcar (lambda (p q) (tr p q) %H) '(1 2) '(3))",
}


def fill(c, h):
    return c.replace("%H", h)


def prelude(text):
    return [PRELUDE[k] for k in PRELUDE if "(" + k in text or "#'" + k in text]

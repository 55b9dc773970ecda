"""Programs of the functions of pkg/ (C28)."""
from . import ctx
from .ctx import CTX, fill
from .progs import PROBE
from .progs2 import CHK

ATOMS = ["a", "b", "ab", "c", ".", "[ab]", "[^a]", "[a-c]", "\\\\d", "\\\\w", "\\\\s", "\\\\D", "\\\\.", "é", "日", "x", "1", "[0-9]", "[^\\\\d]", "[\\\\w.]", "-", " ", "\\\\\\\\", "[]a]", "[a-]", "\\n", "\\\\n", "_"]
SUBJ = ["", "a", "b", "ab", "aab", "abab", "abcabc", "aaa", "bbb", "a1b22", "éaé", "日本a日", "a b c", "x.y.z", "a\\nb", "\\n", "xyz", "-a-", "[a]", "a\\\\b", "1 23 456", "aabbab", "𝄞a", "A_b", "]a"]


def rx(r, d, groups=True):
    o = r.random()
    if d == 0 or o < .3:
        return r.choice(ATOMS)
    if o < .5:
        return "".join(rx(r, d - 1) for _ in range(r.choice([1, 2, 2, 3])))
    if o < .62:
        return "(%s)" % rx(r, d - 1)
    if o < .68:
        return "(?:%s)" % rx(r, d - 1)
    if o < .8:
        x = r.choice(ATOMS) if r.random() < .6 else "(%s)" % rx(r, d - 1)
        return x + r.choice(["*", "+", "?", "*", "+", "*?", "+?", "??"])
    if o < .92:
        return "(%s|%s)" % (rx(r, d - 1), rx(r, d - 1)) if r.random() < .7 else "(%s|%s|%s)" % (rx(r, d - 1), rx(r, d - 1), rx(r, d - 1))
    if o < .96:
        return r.choice(["^%s", "%s$", "^%s$"]) % rx(r, d - 1)
    return "%s|%s" % (rx(r, d - 1), rx(r, d - 1))


BAD = ["(", ")", "a)", "(a", "[a", "*", "+a", "a**", "a+*", "[b-a]", "a|*", "(*)", "\\\\", "a(b", "(?:a", "[", "x\\\\", "((a)", "a???"]


def subject(r):
    if r.random() < .5:
        return r.choice(SUBJ)
    return "".join(r.choice(["a", "b", "ab", "c", "1", "é", " ", ".", "x"]) for _ in range(r.randrange(9)))


def tree(r, d):
    o = r.random()
    if d == 0 or o < .35:
        return r.choice(["a", "b", "c", "1", "2", "1.0", "2.5", "nil", "t", "\"a\"", "#\\a", ":k", "a", "b", "1"])
    if o < .85:
        return "(%s)" % " ".join(tree(r, d - 1) for _ in range(r.choice([1, 2, 2, 3, 4])))
    if o < .95:
        return "(%s . %s)" % (tree(r, d - 1), tree(r, d - 1))
    return "#(%s)" % " ".join(tree(r, d - 1) for _ in range(r.choice([1, 2])))


NAMES = ["a", "b", "ab", "abc", "a.txt", "b.txt", "c.lsp", "x1", "x2", "x10", "A", "B.TXT", "a b", "a-b", "z", ".h", "aa", "a.b.c"]
GLOBS = ["*", "a*", "*.txt", "?", "??", "x?", "x*", "*.lsp", "*b*", "a", "nosuch", "*.*", "a.?xt", "?*", "**", ".*", "*1", "A*", "a b", "*a*b*"]


def c28(m):
    r = m.rng

    def q(x):
        return "(tr (chk (lambda () %s)))" % x
    for p in BAD + [x + "b" for x in BAD]:
        m.add([CHK, q('(=~ "%s" "ab")' % p), q('(=~i "%s" "ab")' % p), q('(=~ "%s" 1)' % p), q('(=~ "%s" "ab")' % p), q('(=~ "a" "%s")' % p)], "patterns which are wrong")
    for f in ["=~", "=~i"]:
        for a in ["1 \"a\"", "\"a\" 1", "'a 'b", "nil \"a\"", "\"a\" nil", "\"a\"", "\"a\" \"b\" \"c\"", "#\\a \"a\"", "\"a\" #\\a", "'(\"a\") \"a\""]:
            m.add([CHK, "(block b (with-handler (lambda (c) (tr c (ignore-errors (domain-error-object c)) (ignore-errors (domain-error-expected-class c))) (return-from b 'x)) (tr (%s %s))))" % (f, a),
                   "(with-handler (lambda (c) (tr c) (continue-condition c \"a\")) (tr (%s %s)))" % (f, a)], "arguments")
    for p in ATOMS + [x + y for x in ATOMS for y in ("*", "?", "+")] + ["(%s)*" % x for x in ATOMS[:8]] + ["", "^", "$", "^$", "()", "(a)|b", "a|ab", "ab|a", "(a|ab)(c|bcd)", "(a*)(a*)", "(a*?)(a*)", "(a)|(b)", "((a)|b)*", "(a(b)?)+", "a*|b", "|a", "a|", "(|a)b"]:
        ss = r.sample(SUBJ, 6) if m.quick else SUBJ
        m.add([CHK] + [q('(=~ "%s" "%s")' % (p, s)) for s in ss] + [q('(=~i "%s" "%s")' % (p, s)) for s in ss[:4]], "patterns")
    for _ in range(450 if m.quick else 15000):
        p = rx(r, r.choice([1, 2, 3, 3]))
        ps = [p, p, rx(r, 2)]
        m.add([CHK] + [q('(%s "%s" "%s")' % (r.choice(["=~", "=~i"]), r.choice(ps), subject(r))) for _ in range(7)], "random patterns")
    # the lists are fresh
    for _ in range(30 if m.quick else 300):
        p, s = rx(r, 2), subject(r)
        m.add([CHK, q('(let ((u (=~ "%s" "%s"))) (tr u) (if u (set-car 0 (car u))) (tr u (=~ "%s" "%s") (eq u (=~ "%s" "%s"))))' % (p, s, p, s, p, s))], "fresh lists")
    for _ in range(350 if m.quick else 10000):
        t = tree(r, r.choice([1, 2, 3, 3]))
        new, old = tree(r, r.choice([0, 0, 1])), tree(r, 0)
        if r.random() < .12:
            old = tree(r, 1)
        m.add([CHK, q("(let* ((u '%s) (n '%s) (v (subst n '%s u))) (tr u v n) (tr (equal u v) (eq u v) (subst 'z n v) (subst 'z '() u) (subst (list 1) 1 v)))" % (t, new, old)),
               q("(let* ((c (list 1 2)) (u (list c (list c 'a) 'a c)) (v (subst '%s c u))) (set-car 9 c) (tr u v) (subst u 9 v))" % new),
               q("(subst %s)" % r.choice(["1 2", "1", "1 2 3 4", "1 2 2", "'a 'b 'b", "nil nil '(nil)", "1 \"a\" '(\"a\")", "1 1.0 '(1 1.0)", "'x #\\a '(#\\a)", "2 1 #(1)"]))], "subst")
    # lists from every maker of lists
    made = ["(convert (vector 1 2 'a) <list>)", "(convert (vector) <list>)", "(array-dimensions (create-array '(2 1)))", "(array-dimensions (create-array '()))", "(mapcar #'list '(1 2) '(a b))", "(reverse '(1 2 a))", "(nreverse (list 1 2 a))", "(append '(1) '(2) 'a)",
            "(=~ \"(a)(b)?\" \"ab\")", "(subseq '(1 2 a) 0 2)", "((lambda (&rest x) x) 1 2)", "((lambda (&rest x) x))", "(apply #'list '(1 2))", "(convert \"ab\" <list>)", "(mapcon #'list '(1 2))", "(create-list 2 1)", "(cdr (member 1 '(1 2 1)))", "(subst 2 3 '(3 (3)))", "(list)", "'()", "(cons nil (convert (vector) <list>))"]
    for x in made:
        for new, old in (("9", "1"), ("9", "'()"), ("'(q)", "'a"), ("'()", "1"), ("(convert (vector) <list>)", "1"), ("9", "(convert (vector) <list>)")):
            m.add([CHK, q("(let* ((a 'b) (u %s) (v (subst %s %s (list u (cons 1 u) (vector u))))) (tr u v (length v)) (tr (subst %s %s u)))" % (x, new, old, new, old))], "subst of made lists")
    for _ in range(200 if m.quick else 3000):
        fs = [[n, "x"] for n in r.sample(NAMES, r.randrange(8))]
        gs = r.sample(GLOBS, 4)
        calls = [CHK] + [q('(wildcard "%s")' % g) for g in gs]
        o = r.random()
        if o < .3:
            calls.insert(3, '(with-open-output-file (o "new.txt") (format o "n") (tr (wildcard "*.txt")))')
        elif o < .5:
            calls.insert(2, q(r.choice(["(wildcard 'a)", "(wildcard)", "(wildcard nil)", "(wildcard \"a\" \"b\")", "(wildcard 1)", "(wildcard #\\*)"])))
        elif o < .6:
            calls.append("(mapcar (lambda (n) (tr n (probe-file n) (with-open-input-file (i n) (read-line i nil nil)))) (wildcard \"*\"))")
        m.add_job({"calls": calls, "files": fs}, "wildcard")
    for _ in range(40 if m.quick else 400):
        a = " ".join(r.choice(["\"a\"", "\"x y\"", "1", "-3", "'abc", "\"\"", "\"é\"", "\"a\\nb\"", "'|a b|"]) for _ in range(r.randrange(4)))
        m.add([CHK, "(format t \"%s\")" % r.choice(["", "p", "p~%"]), q('(command "echo" %s)' % a), "(format t \"~&%s\")" % r.choice(["", "z"]), q("(progn (format t \"1\") (command \"echo\" \"2\") (format t \"3~%\") (tr 4) (command \"echo\"))")], "command")


# ---------------------------------------------------------------- C29
# forms which are certainly none of the language, without effects
ILL = """(quote)
(quote a b)
(quote . a)
(if)
(if t)
(if t 1 2 3)
(let)
(let 5)
(let ((a)) a)
(let ((a 1 2)) a)
(let ((5 1)) 1)
(let ((a 1) . 5) a)
(let 5 6)
(let* ((a 1 2)) a)
(let* ((a)) a)
(let*)
(lambda)
(lambda 5)
(lambda ("a") 1)
(lambda (a &rest) 1)
(lambda (a &rest b c) 1)
(lambda (a a) 1)
(lambda (a &rest a) 1)
(lambda (&rest 5) 1)
(defun)
(defun f)
(defun 5 () 1)
(defun f 5)
(defun f (a a) 1)
(defun f (&rest) 1)
(defmacro)
(defmacro m)
(defmacro m 5)
(defmacro 5 () 1)
(setq a)
(setq 5 1)
(setq "a" 1)
(psetq a)
(psetq 5 1)
(block)
(block 5)
(block "a" 1)
(return-from)
(return-from 5 1)
(block b (return-from b))
(block b (return-from b 1 2))
(catch)
(tagbody (go))
(tagbody 5 (go 5))
(go)
(go 5)
(unwind-protect)
(dynamic)
(dynamic 5)
(dynamic a b)
(dynamic-let)
(dynamic-let 5)
(dynamic-let ((a)) 1)
(dynamic-let ((a 1 2)) 1)
(dynamic-let ((5 1)) 1)
(defdynamic)
(defdynamic a)
(defdynamic 5 1)
(defdynamic a 1 2)
(defglobal)
(defglobal a)
(defglobal 5 1)
(defglobal a 1 2)
(function)
(function 5)
(function car cdr)
(function (a b))
(flet)
(flet 5)
(flet ((f)) 1)
(flet ((5 () 1)) 1)
(flet (f) 1)
(flet ((f 5)) 1)
(labels)
(labels 5)
(labels ((f)) 1)
(labels ((5 () 1)) 1)
(labels (f) 1)
(labels ((f 5)) 1)
(cond 5)
(cond ())
(case)
(case 1 5)
(case 1 ())
(case-using)
(case-using #'eql)
(while)
(for)
(for ())
(for 5 (t))
(dolist)
(dolist x)
(dolist (5 '(1)) 1)
(dolist (x 5) 1)
(dotimes)
(dotimes (5 3) 1)
(when)
(unless)
(with-handler)
(with-handler 5 1)
(continue-condition)
(continue-condition 1)
(continue-condition 1 2 3)
(defgeneric)
(defgeneric g)
(defgeneric 5 (a))
(defgeneric g 5)
(defgeneric g (a &rest))
(defgeneric g (a &rest b c))
(defgeneric g (a) 5)
(class)
(class 5)
(class <no-such>)
(class <object> 5)
(incf)
(incf 5)
(decf)
(with-open-input-file)
(with-open-input-file (s))
(with-open-input-file (5 "a"))
(with-open-output-file)
(with-standard-input)
(quasiquote)
(car . 5)
(car '(1) . 5)
(list 1 . 2)
(progn . 5)
(progn 1 . 5)
(let () . 5)
(prog1)
(prog2)
(prog2 1)
(lambda (a &rest b &rest c) 1)
(lambda (&rest) 1)
(lambda (a . b) 1)
(lambda (a . 5) 1)
(lambda ((a)) 1)
(lambda (a (b 1)) 1)
(lambda (a b c b) 1)
(lambda (a &rest b c d) a)
(defun f (a &rest b c) a)
(defun f (a . b) a)
(defmacro m (a a) 1)
(defmacro m (a 5) 1)
(flet ((f (a a) 1)) 1)
(flet ((f () 1) 5) 1)
(flet ((f () 1) (g)) 1)
(labels ((f () 1) (g (x &rest))) 1)
(labels ((f (x x) 1)) 1)
(flet . 5)
(let ((a 1) 5) 1)
(let ((a 1) (b)) 1)
(let ((a 1) (b 1 2)) 1)
(let* ((a 1) (b)) 1)
(let* ((a 1) (b a 2)) 1)
(let* 5)
(let* ((a 1) 5) 1)
(let* ((5 1)) 1)
(let* . 5)
(dynamic-let ((a 1) (b)) 1)
(dynamic-let ((a 1) 5) 1)
(dynamic-let (("a" 1)) 1)
(setq a 1 b)
(psetq a 1 b)
(setq . 5)
(if . 5)
(if t . 5)
(if t 1 . 5)
(if nil 1 2 3)
(if t 1 2 3 4)
(let ((x 1)) . 5)
(block b . 5)
(block b 1 . 5)
(catch 'a . 5)
(unwind-protect . 5)
(return-from . 5)
(block b (return-from b . 5))
(block b (return-from b 1 . 5))
(block b (return-from b 1 2 3))
(block nil (return-from 5 1))
(block nil (return))
(block nil (return 1 2))
(while . 5)
(when . 5)
(unless . 5)
(lambda . 5)
(function . 5)
(function)
(quote)
(quote 1 2 3)
(dynamic . 5)
(defglobal a . 5)
(defdynamic a 1 . 5)
(list . 5)
(list 1 2 . 3)
(+ 1 . 2)
(car)
(car 1 2 . 3)
(funcall)
(funcall . 5)
(funcall #'list 1 . 5)
(apply)
(apply #'list)
(continue-condition 1 . 5)
(prog1 . 5)
(prog2 . 5)
(class <object> <object>)
(defgeneric g . 5)
(case . 5)
(cond 5 (t 1))
(cond "a")
(case 1 "a")
(case 1 a)
(for ((i 0 (+ i 1))))
(case-using #'eql)
(dolist)
(dolist 5 1)
(dolist "a" 1)
(dolist ("a" '(1)) 1)
(dotimes)
(dotimes x 1)
(incf)
(decf)
(setf)
(setf a)
(with-open-input-file)
(with-open-input-file s)
(with-open-output-file (s))
(with-open-output-file ("s" "a") 1)
(with-standard-input)""".split("\n")
# forms which look like those but are all right
WELL = """(if t 1)
(if nil 1)
(let () 1)
(let (a) a)
(let ((a 1) b) (list a b))
(let ())
(let* ())
(let* (a (b a)) (list a b))
(progn)
(block b)
(block nil)
(catch 'a)
(unwind-protect 1)
(tagbody)
(tagbody a b)
(setq)
(psetq)
(cond)
(cond (nil))
(cond (nil) (t))
(cond (1))
(case 1)
(case 1 (t))
(case 1 ((1)))
(case 1 (() 1) ((1) 2))
(while nil)
(when nil)
(when t)
(unless t)
(unless nil)
((lambda ()))
((lambda (&rest a) a))
((lambda (a &rest b) (list a b)) 1)
((lambda (a :rest b) (list a b)) 1 2 3)
(flet () 1)
(flet ())
(labels () 1)
(flet ((f ())) (f))
(flet ((f (x &rest y))) (f 1 2))
(dynamic-let () 1)
(dynamic-let ())
(ignore-errors)
(quote nil)
(list)
(for () (t))
(for () (t 1 2))
(for ((i 0)) ((= i 0) i))
(dolist (x nil))
(dolist (x '(1 2)))
(prog1 1)
(prog2 1 2)
(defglobal q%N nil)
(defdynamic q%N nil)
(defun q%N ())
(defun q%N (&rest r) r)
(defmacro q%N ())
(defgeneric q%N ())
(defgeneric q%N (&rest r))
(return-from none)
(block b (return-from b nil))""".split("\n")
AROUND = ["%H", "(list 1 %H 2)", "(ignore-errors %H)", "(list (ignore-errors %H) 'after)", "(progn (tr 'before) %H (tr 'after))", "(tr 'v (ignore-errors %H))", "(unwind-protect %H (tr 'cleanup))",
          "(let ((x (ignore-errors %H))) (list x))", "(block b (with-handler (lambda (c) (tr 'h) (return-from b 'handled)) %H))", "(catch 'k (with-handler (lambda (c) (throw 'k 'thrown)) (list %H)))",
          "(with-handler (lambda (c) (tr 'seen)) %H)", "(tr (chk (lambda () %H)))", "(if %H (tr 1) (tr 2))", "(funcall (lambda (x) (tr 'called x)) %H)", "(mapcar (lambda (x) (ignore-errors %H)) '(1 2))",
          "(lambda () %H)", "(progn (defun q%N () %H) (tr 'defined) (tr (chk #'q%N)))", "(if t 'fine %H)", "(if nil %H 'fine)", "(cond (nil %H) (t 'fine))", "(quote %H)", "(and nil %H)", "(or 1 %H)",
          "(flet ((q () %H)) (list (chk #'q) (chk #'q)))", "(while nil %H)", "(case 1 ((2) %H) (t 'fine))", "(block b (return-from b 'left) %H)", "(tagbody (go out) %H out)", "(catch 'k (throw 'k 1) %H)",
          "(dynamic-let ((*d* 1)) %H)", "(let ((r nil)) (dolist (e '(1 2)) (ignore-errors %H) (setq r (cons e r))) r)", "(progn (defmacro q%N () '%H) (tr 'defined) (tr (chk (lambda () (q%N)))))",
          "(tr (block b (with-handler (lambda (c) (return-from b (list 'outer (instancep c <error>)))) (with-handler (lambda (c) nil) %H))))"]


def c29(m):
    r = m.rng
    ill = list(dict.fromkeys(x for x in ILL if x))

    def one(x, a):
        u = str(m.uid())
        t = fill(a.replace("%N", "a" + u), x.replace("%N", u))
        m.add([CHK, "(defdynamic *d* 10)"] + ctx.prelude(t) + [t, PROBE], "ill-formed" if x in ill else "well-formed")
    for x in ill + WELL:
        one(x, "%H")
        one(x, "(tr 'v (chk (lambda () %H)))")
    prods = [(x, a) for x in ill + WELL for a in AROUND]
    for x, a in m.sample(prods, 1500 if m.quick else 8000):
        one(x, a)
    prods = [(x, fill(a, c)) for x in ill for a in AROUND for c in CTX.values() if "continue-condition" not in c]
    for x, a in m.sample(prods, 1000 if m.quick else 20000):
        one(x, a)

"""The programs of the checks: for each property a list of programs (lists of calls of Interpret)."""
import itertools
import random

from . import ctx, gen
from .ctx import CTX, fill

RND = {}


class Maker:
    """programs of one run; thorough ones are many more"""

    def __init__(self, prop, seed, tier):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.rng = random.Random("%s-%s" % (prop, seed))
        self.progs = []
        self.kinds = {}

    @property
    def quick(self):
        return self.tier != "thorough"

    def add(self, calls, kind="systematic"):
        self.progs.append(list(calls))
        self.kinds[kind] = self.kinds.get(kind, 0) + 1

    def add_job(self, job, kind="systematic"):
        self.progs.append(job)
        self.kinds[kind] = self.kinds.get(kind, 0) + 1

    def random(self, prof, n, depth=4):
        for i in range(n):
            pid = len(self.progs)
            self.add(gen.program("%s-%s" % (self.prop, self.seed), pid, prof, depth), "random")

    def sample(self, items, n):
        items = list(items)
        if len(items) <= n:
            return items
        return self.rng.sample(items, n)

    def uid(self):
        return len(self.progs)

    def pick(self, xs):
        return xs[self.rng.randrange(len(xs))]


def with_prelude(main, *rest):
    text = " ".join((main,) + rest)
    return ctx.prelude(text) + [main] + list(rest)


NAMES = list(CTX)
# a probe of the state of control after a program
PROBE = "(list (block b 1) (catch 'k 2) (ignore-errors (car 3)) (ignore-errors (dynamic *d*)))"

EXIT_OUTER = [
    # (outer, leaves)
    ("(tr 'val (block b (tr 'in) %H))", ["(return-from b (tr 'v 9))", "(return-from b nil)", "(if (tr nil) (return-from b 1) 2)"]),
    ("(tr 'val (block b %H (tr 'not)))", ["(return-from b 5)"]),
    ("(tr 'val (let ((f nil)) (block b (setq f (lambda (x) (return-from b x))) %H)))", ["(funcall f 3)", "(progn (mapc f '(1 2)) 4)"]),
    ("(tr 'val (block b (block c (tr 'c %H)) (tr 'afterc) 8))", ["(return-from b 1)", "(return-from c 2)"]),
    ("(tr 'val (catch 'k (tr 'in) %H))", ["(throw 'k (tr 'v 9))", "(throw 'k nil)", "(catch 'k (throw 'k 1))"]),
    ("(tr 'val (catch 7 (catch 'k %H) (tr 'after) 'x))", ["(throw 7 1)", "(throw 'k 2)", "(throw #\\q 3)"]),
    ("(tr 'val (let ((n 0)) (tagbody (tr 's) tg (setq n (+ n 1)) (tr 'n n) (if (< n 3) %H) t9 (tr 'end)) n))", ["(go tg)", "(go t9)", "(if (= n 1) (go tg) (go t9))"]),
    ("(tr 'val (let ((n 0) (f nil)) (tagbody (setq f (lambda () (go t9))) tg (setq n (+ n 1)) (if (< n 3) %H) (tr 'x n) t9 (tr 'end)) n))", ["(funcall f)", "(go tg)"]),
]
LOOPS = [  # loops around the way out
    "(while t %H (tr 'again))", "(for ((i 0 (+ i 1))) ((>= i 3) 'done) (tr 'i i) %H)", "(dotimes (i 3) (tr 'i i) %H)", "(dolist (e '(1 2 3)) (tr 'e e) %H)",
    "(tagbody top (tr 'top) %H (go top))", "(mapc (lambda (e) (tr 'e e) %H) '(1 2))", "(mapcar (lambda (e) %H) '(1 2))", "(let ((n 0)) (while (< n 3) (setq n (+ n 1)) (if (= n 2) %H) (tr 'n n)))",
    "(while (progn %H t) (tr 'body))", "(for ((i 0 (progn %H (+ i 1)))) ((>= i 3) 'done) (tr 'i i))", "(for ((i 0 (+ i 1))) ((progn %H (>= i 2)) 'done) (tr 'i i))", "(for ((i 0 (+ i 1))) ((>= i 1) %H) (tr 'i i))",
]
EXIT_DEAD = [
    "(let ((f (block b (lambda (x) (return-from b x))))) %H)",
    "(let ((f nil)) (block b (setq f (lambda (x) (return-from b x))) 1) (block b %H (tr 'z)))",
    "(let ((f nil)) (tagbody (setq f (lambda (x) (go tg))) tg (tr 'tg)) %H)",
    "(let ((f (catch 'k (lambda (x) (throw 'k x))))) %H)",
    "(flet ((f (x) (return-from b x))) (block b %H))",
    "(flet ((f (x) (go tg))) (tagbody (progn %H) tg (tr 'tg)))",
]


def c01(m):
    prods = []
    for o, leaves in EXIT_OUTER:
        for l in leaves:
            for a in NAMES:
                prods.append((o, a, "plain", l))
                for b in NAMES:
                    if a != "plain" and b != "plain":
                        prods.append((o, a, b, l))
    for o in EXIT_DEAD:
        for a in NAMES:
            prods.append((o, a, "plain", "(funcall f 3)"))
            prods.append((o, "handler", a, "(funcall f 3)"))
    loops = []
    for w in LOOPS:
        for v in LOOPS + ["%H"]:
            for o, l in [("(block nil %H (tr 'after) 2)", "(return (tr 'v 1))"), ("(block nil %H (tr 'after) 2)", "(return-from nil 1)"), ("(block b %H (tr 'after) 2)", "(return-from b 1)"), ("(catch 'k %H (tr 'after) 2)", "(throw 'k 1)"),
                         ("(dolist (o '(a b)) (tr 'o o) %H (tr 'after o))", "(return o)"), ("(block nil (block b %H (tr 'inner) 2) (tr 'after) 3)", "(return 1)"), ("(block nil (let ((f (lambda (x) (return x)))) (block nil %H (tr 'inner)) (tr 'after) 2))", "(funcall f 1)"),
                         ("(tagbody %H (tr 'after) t9 (tr 'end))", "(go t9)"), ("(tagbody t1 (if (tr (> (setq gn%N (+ gn%N 1)) 2)) (go t9)) %H (tr 'after) t9 (tr 'end))", "(go t1)")]:
                loops.append((o, w, v, l))
    for o, w, v, l in m.sample(loops, 320 if m.quick else len(loops)):
        t = fill("(tr 'val %s)" % o, fill(w, fill(v, l))).replace("%N", str(m.uid()))
        m.add(["(defglobal gn%d 0)" % m.uid()] * ("gn" in t) + with_prelude(t, PROBE))
    # tags of every kind: throw reaches the innermost catch with the very same object
    tags = ["a", "b", "v", "w", "f", "'k", "'K", "nil", "t", "1", "1.0", "#\\k", "#\\K", "\"k\"", "s", ":k", "0", "(car a)", "(class <list>)", "4611686018427387904", "'(1)"]
    alike = [["a", "b", "'(1)"], ["v", "w"], ["'k", "'K", ":k"], ["1", "1.0", "(car a)"], ["\"k\"", "s"], ["#\\k", "#\\K", "\"k\""], ["nil", "'nil", "0"]]
    for x, y, z in [(x, y, z) for g in alike for x in g for y in g for z in (x, y)] + m.sample([(x, y, z) for x in tags for y in tags for z in (x, y, None)], 160 if m.quick else 900):
        z = z or m.rng.choice(tags)
        m.add(with_prelude("(let ((a (list 1)) (b (list 1)) (v (vector 1)) (w (vector 1)) (f (lambda () 1)) (s \"k\")) (tr 'val (ignore-errors (catch %s (tr 'in (catch %s (throw %s (tr 5)))) 'after)) (ignore-errors (throw %s 1))))" % (x, y, z, x), PROBE))
    ones = [p for p in prods if p[2] == "plain"]
    twos = [p for p in prods if p[2] != "plain"]
    for o, a, b, l in m.sample(ones, 900 if m.quick else len(ones)) + m.sample(twos, 700 if m.quick else 12000):
        t = fill(o, fill(CTX[a], fill(CTX[b], l)))
        m.add(with_prelude(t, PROBE))
    prof = gen.mix(gen.BASE, gen.EXITS, ignore=1, error=1, flet=1, map=1, dolist=1)
    prof["while"] = 1
    m.random(prof, 700 if m.quick else 8000, 4)


LEAVE = [  # ways to leave
    "(tr 'normal 5)", "(return-from b 6)", "(throw 'k 7)", "(go out)", "(car 5)", "(error \"e\")", "undef-v", "(undef-f 1)", "(host-fail \"h\")",
    "(quit)", "(abort)", "(cerror \"c\" \"e\")", "(signal-condition (create <simple-error> 'format-string \"s\" 'format-arguments nil) nil)",
    "(return-from dead 1)", "(throw 'nobody 1)", "(/ 1 0)", "(g-two 1)",
]
LEAVE_OUT = "(tr 'val (block b (catch 'k (let ((r nil)) (tagbody (setq r %H) (tr 'stay) out (tr 'out)) (tr 'r r) r))))"
UNWINDS = [
    "(unwind-protect %H (tr 'c1))",
    "(unwind-protect (progn (tr 'in) %H) (tr 'c1) (tr 'c2))",
    "(unwind-protect (unwind-protect %H (tr 'inner)) (tr 'outer))",
    "(unwind-protect (list %H (tr 'arg)) (tr 'c1 (block q (return-from q 3))))",
    "(unwind-protect %H (tr 'c1 (catch 'k (throw 'k 1))))",
    "(unwind-protect %H (tr 'c1) (ignore-errors (car 7)) (tr 'c2))",
    "(unwind-protect %H (unwind-protect (tr 'c1) (tr 'c1c)) (tr 'c2))",
    "(unwind-protect %H (let ((n 0)) (tagbody l (setq n (+ n 1)) (if (< n 2) (go l))) (tr 'c n)))",
    "(unwind-protect %H (tr 'c1) (return-from b 'cleanup) (tr 'c2))",
    "(unwind-protect %H (tr 'c1) (throw 'k 'cleanup))",
    "(unwind-protect %H (tr 'c1) (go out))",
    "(unwind-protect %H (tr 'c1) (car 'cleanup))",
    "(unwind-protect (dynamic-let ((*d* 3)) %H) (tr 'd (ignore-errors (dynamic *d*))))",
    "(unwind-protect %H)",
    "(with-handler (lambda (c) (tr 'h) (return-from b 'handled)) (unwind-protect %H (tr 'c1)))",
    "(unwind-protect (with-handler (lambda (c) (tr 'h) (throw 'k 'handled)) %H) (tr 'c1))",
    "(ignore-errors (unwind-protect %H (tr 'c1)))",
    "(let ((x 0)) (unwind-protect (progn (setq x 1) %H) (setq x (+ x 10)) (tr 'x x)))",
    "(mapcar (lambda (e) (unwind-protect %H (tr 'c e))) '(1 2))",
    "(dolist (e '(1 2)) (unwind-protect %H (tr 'c e)))",
]


def c02(m):
    prods = [(u, a, l) for u in UNWINDS for l in LEAVE for a in ["plain"]]
    more = [(u, a, l) for u in UNWINDS for l in LEAVE for a in NAMES if a != "plain"]
    two = [(u, fill(v, "%H"), l) for u in UNWINDS for v in UNWINDS for l in LEAVE]
    for u, a, l in prods + m.sample(more, 900 if m.quick else 6000):
        m.add(with_prelude(fill(LEAVE_OUT, fill(u, fill(CTX[a], l))), PROBE))
    for u, v, l in m.sample(two, 500 if m.quick else 6000):
        m.add(with_prelude(fill(LEAVE_OUT, fill(u, fill(v, l))), PROBE))
    prof = gen.mix(gen.BASE, gen.EXITS, ignore=1, error=2, handler=1, flet=1, dolist=1, unwind=8)
    m.random(prof, 600 if m.quick else 8000, 4)


DYN_OUTER = [
    "(defdynamic *d* 10) (defdynamic *e* 20)",
]
DYN_FORMS = [
    "(dynamic-let ((*d* 1)) (tr 'd (dynamic *d*)) %H)",
    "(dynamic-let ((*d* 1) (*e* (dynamic *d*))) (tr (dynamic *d*) (dynamic *e*)) %H)",
    "(dynamic-let ((*d* (dynamic *e*)) (*e* (dynamic *d*))) (tr (dynamic *d*) (dynamic *e*)) %H)",
    "(dynamic-let ((*u* 3)) (tr 'u (dynamic *u*)) %H)",
    "(dynamic-let ((*d* 1)) (setf (dynamic *d*) 2) (tr 'd (dynamic *d*)) %H)",
    "(dynamic-let ((*d* 1)) (set-dynamic 5 *d*) %H)",
    "(progn (setf (dynamic *d*) 30) (dynamic-let ((*d* 31)) (setf (dynamic *e*) 32) %H))",
    "(let ((*d* 99) (x 98)) (dynamic-let ((*d* 1) (x 2)) (tr *d* x (dynamic *d*) (dynamic x)) (setq *d* 97 x 96) (tr *d* x (dynamic *d*) (dynamic x)) %H))",
    "(dynamic-let ((*d* 1) (*d* 2)) (tr 'dup (dynamic *d*)) %H)",
    "(dynamic-let ((*d* (progn (setf (dynamic *e*) 21) 1)) (*e* (tr 'init (dynamic *e*)))) (tr (dynamic *e*)) %H)",
    "(dynamic-let ((*d* 1)) (dynamic-let ((*d* 2)) (tr (dynamic *d*)) (setf (dynamic *d*) 3)) (tr (dynamic *d*)) %H)",
    "(flet ((get () (dynamic *d*)) (put (v) (setf (dynamic *d*) v))) (tr (get)) (dynamic-let ((*d* 1)) (tr (get)) (put 4) (tr (get)) %H))",
    "(let ((f (dynamic-let ((*d* 1)) (lambda () (dynamic *d*))))) (tr (funcall f)) (dynamic-let ((*d* 2)) (tr (funcall f)) %H))",
    "(dynamic-let () %H)",
    "(dynamic-let ((*d* 1)) (defdynamic *d* 5) (tr (dynamic *d*)) %H)",
    "(dynamic-let ((*d* 1) (*u* %H)) (tr (dynamic *d*) (dynamic *u*)))",
    "(progn (defglobal g%N 70) (dynamic-let ((g%N 71)) (tr g%N (dynamic g%N)) %H))",
    "(dynamic-let ((*d* nil)) (tr (dynamic *d*)) %H)",
    "(incf (dynamic *d*) (dynamic-let ((*d* 1)) %H 2))",
    "(setf (dynamic *d*) (dynamic-let ((*d* 1)) %H 2))",
    "(progn (setf (dynamic *d*) nil) (dynamic-let ((*d* 1)) (tr (dynamic *d*)) %H))",
    "(progn (setf (dynamic *d*) nil) (tr (dynamic-let ((*d* (list 1 2)) (*e* nil)) %H)) (tr (dynamic *d*) (dynamic *e*)))",
    "(dynamic-let ((*d* nil)) (dynamic-let ((*d* 1) (*u* nil)) (tr (dynamic *u*)) (setf (dynamic *u*) 6) %H))",
]
DYN_LEAF = ["(tr 'ok (dynamic *d*) (dynamic *e*))", "(return-from b (dynamic *d*))", "(throw 'k (dynamic *d*))", "(go out)", "(car 5)", "(dynamic *none*)", "(error \"e\")",
            "(setf (dynamic *d*) 55)", "(set-dynamic (+ 1 (dynamic *d*)) *d*)", "(host-fail \"h\")", "(quit)", "(abort)", "(return-from dead 1)", "(setf (dynamic *new*) 8)",
            "(defdynamic *new* 9)"]
DYN_PROBE = "(list (dynamic *d*) (dynamic *e*) (ignore-errors (dynamic *u*)) (ignore-errors (dynamic *new*)) (ignore-errors (dynamic x)) (ignore-errors *d*))"


def c03(m):
    prods = [(u, "plain", l) for u in DYN_FORMS for l in DYN_LEAF]
    more = [(u, CTX[a], l) for u in DYN_FORMS for l in DYN_LEAF for a in NAMES if a != "plain"]
    two = [(u, v, l) for u in DYN_FORMS for v in DYN_FORMS for l in DYN_LEAF]
    for u, a, l in prods + m.sample(more, 800 if m.quick else 6000) + m.sample(two, 600 if m.quick else 4500):
        a = a if a != "plain" else "%H"
        t = fill(LEAVE_OUT, fill(u, fill(a, l))).replace("%N", str(m.uid()))
        d, e = m.rng.choice([("10", "20"), ("nil", "20"), ("10", "nil"), ("nil", "nil"), ("(list 1)", "\"s\""), ("t", "0"), ("0", "nil")])
        m.add(ctx.prelude(t) + ["(defdynamic *d* %s) (defdynamic *e* %s)" % (d, e), t, DYN_PROBE])
    prof = gen.mix(gen.BASE, gen.EXITS, dynlet=6, dynset=5, dynref=6, error=1, ignore=2, flet=2, handler=1)
    m.random(prof, 700 if m.quick else 8000, 4)


SIGNALS = [
    "(error \"m~a\" 1)", "(cerror \"go ~a\" \"m~a\" 1)", "(car (tr 5))", "(+ 1 (car 5))", "(+ 1 'u)", "(/ 6 0)", "(mod 5 0)", "(length 5)", "(undef-f (tr 1))", "undef-v",
    "(setq undef-v 3)", "(funcall 5)", "(g-two 1)", "(elt (vector 1) 5)", "(throw 'nobody 1)", "(return-from dead 1)", "(host-fail \"h\")",
    "(signal-condition (create <simple-error> 'format-string \"s\" 'format-arguments nil) t)",
    "(signal-condition (create <simple-error> 'format-string \"s\" 'format-arguments nil) nil)",
    "(signal-condition (create <ue%N>) t)", "(signal-condition (create <ue%N>) nil)",
    "(string-append \"a\" 5)", "(create-string 2 5)", "(char< #\\a 5)", "(read-char (create-string-input-stream \"\"))", "(gethash 1 2)", "(get-output-stream-string 5)",
    "(aref (vector 1 2) 'u)", "(dynamic *none*)", "(list (car 5) (tr 'next))", "(tr 'fine)", "(assure <integer> 'u)", "(the <string> 5)", "(convert \"x\" <integer>)",
    "(cdr \"s\")", "(- 5 \"s\")", "(< 1 'u)", "(apply 5 nil)", "(string< \"a\" 5)", "(set-car 1 2)",
]
HANDLERS = [
    "(lambda (c) (tr 'h1 c))",
    "(lambda (c) (tr 'h1 c) (return-from b 'left))",
    "(lambda (c) (tr 'h1 c) (throw 'k 'thrown))",
    "(lambda (c) (tr 'h1 c) (go out))",
    "(lambda (c) (tr 'h1 c) (continue-condition c 40))",
    "(lambda (c) (tr 'h1 c) (continue-condition c 'sym))",
    "(lambda (c) (tr 'h1 c) (continue-condition c '(1 2)))",
    "(lambda (c) (tr 'h1 c) (continue-condition c \"str\"))",
    "(lambda (c) (tr 'h1 c) (car 9))",
    "(lambda (c) (tr 'h1 c) (error \"second\"))",
    "(lambda (c) (tr 'h1 c) (signal-condition c nil))",
    "(lambda (c) (tr 'h1 (ignore-errors (car 3))) (continue-condition c 1.5))",
    "(lambda (c) (tr 'h1) (with-handler (lambda (d) (tr 'hh d) (continue-condition d 2)) (signal-condition (create <simple-error> 'format-string \"s\" 'format-arguments nil) t)) (continue-condition c 41))",
    "(lambda (c) (tr 'h1 (instancep c <error>) (instancep c <simple-error>) (instancep c <domain-error>) (instancep c <arithmetic-error>)) 3)",
    "(lambda (c) (unwind-protect (continue-condition c 42) (tr 'hc)))",
    "(lambda (c) (tr 'h1) (block z (return-from z 1)) 2)",
    "#'list",
]
HAND_FORMS = [
    "(with-handler %1 (tr 'in) %H)",
    "(with-handler (lambda (c) (tr 'o c) (return-from b 'outer)) (with-handler %1 (tr 'in) %H))",
    "(with-handler (lambda (c) (tr 'o c) (continue-condition c 50)) (with-handler %1 (tr 'in) %H))",
    "(with-handler (lambda (c) (tr 'o c)) (with-handler %1 %H))",
    "(with-handler %1 (with-handler (lambda (c) (tr 'i c)) %H))",
    "(ignore-errors (with-handler %1 %H))",
    "(with-handler %1 (ignore-errors %H))",
    "(with-handler %1 (unwind-protect %H (tr 'cl)))",
    "(progn (with-handler %1 (tr 'nothing)) %H)",
    "(progn (ignore-errors (with-handler %1 (car 1))) (with-handler (lambda (c) (tr 'o c) (return-from b 'outer)) %H))",
    "(with-handler (lambda (c) (tr 'o c) (return-from b 'outer)) (catch 'k (with-handler %1 %H)) (tr 'then) (car 8))",
    "(with-handler (lambda (c) (tr 'o c) (return-from b 'outer)) (block b (with-handler %1 %H)) (tr 'then) (car 8))",
    "(with-handler %1 (list (tr 1) %H (tr 3)))",
    "(with-handler %1 %H %H)",
    "(flet ((f () %H)) (with-handler %1 (f)))",
    "(let ((f nil)) (with-handler %1 (setq f (lambda () %H)) 1) (funcall f))",
]


def c04(m):
    sig = [s for s in SIGNALS]
    prods = [(w, h, "%H", s) for w in HAND_FORMS[:1] for h in HANDLERS for s in sig]
    more = [(w, h, "%H", s) for w in HAND_FORMS[1:] for h in HANDLERS for s in sig]
    ctxs = [(w, h, CTX[a], s) for w in HAND_FORMS for h in HANDLERS for s in sig for a in NAMES if a != "plain"]
    for w, h, a, s in prods + m.sample(more, 900 if m.quick else 8000) + m.sample(ctxs, 500 if m.quick else 6000):
        n = str(m.uid())
        t = fill(LEAVE_OUT, fill(w.replace("%1", h), fill(a, s))).replace("%N", n)
        pre = ["(defclass <ue%s> (<error>) ())" % n] if "<ue" in t else []
        m.add(ctx.prelude(t) + pre + [t, PROBE])
    prof = gen.mix(gen.BASE, gen.EXITS, handler=5, error=6, ignore=2, block=2, catch=2, flet=1)
    m.random(prof, 500 if m.quick else 8000, 4)

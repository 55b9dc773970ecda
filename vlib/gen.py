"""Random programs. A profile is a dict of weights of the constructs; the specification decides what a program means."""
import random

KW = ["x", "y", "z", "w"]
BLK = ["a", "b", "c"]
TAGS = ["t1", "t2", "t3"]
CATS = ["'k1", "'k2", "7", "#\\q"]


class Scope:
    __slots__ = ("v", "f", "b", "t", "c", "d", "h", "m")

    def __init__(self):
        self.v = {}   # variable -> type
        self.f = {}   # local or global function -> (number of parameters, rest)
        self.b = ()   # visible blocks (newest last)
        self.t = ()   # visible tags: (tag, guard variable)
        self.c = ()   # catch tags which may be active
        self.d = ()   # dynamic variables
        self.h = None  # the condition variable of the handler
        self.m = {}   # macros -> number of parameters

    def copy(self, **kw):
        s = Scope()
        for k in Scope.__slots__:
            setattr(s, k, getattr(self, k))
        for k, x in kw.items():
            setattr(s, k, x)
        return s

    def var(self, name, ty):
        v = dict(self.v)
        v[name] = ty
        return self.copy(v=v)

    def vars(self, ty):
        return [n for n, t in self.v.items() if t == ty]


class Gen:
    """expr(ty, d, sc): ty is 'i' (integer), 'l' (list), 'f' (function of no argument), 'g' (function of one argument), 'a' (any value)"""

    def __init__(self, rng, pid, prof, depth=4):
        self.r = rng
        self.pid = pid
        self.p = prof
        self.depth = depth
        self.ev = 0
        self.uid = 0
        self.loops = 0

    def fresh(self, s="v"):
        self.uid += 1
        return "%s%d" % (s, self.uid)

    def pick(self, xs):
        return xs[self.r.randrange(len(xs))]

    def chance(self, p):
        return self.r.random() < p

    def tr(self, x):
        self.ev += 1
        return "(tr %d %s)" % (self.ev, x)

    def mark(self):
        self.ev += 1
        return "(tr %d)" % self.ev

    # ---- leaves
    def leaf(self, ty, sc):
        vs = sc.vars(ty)
        r = self.r.random()
        if ty in ("f", "g"):
            if vs and r < .7:
                return self.pick(vs)
            fs = [n for n, (k, rest) in sc.f.items() if k == (0 if ty == "f" else 1) and not rest]
            if fs and r < .8:
                return "#'" + self.pick(fs)
            return "(lambda () %s)" % self.tr(self.leaf("i", sc)) if ty == "f" else "(lambda (x) %s)" % self.tr("x")
        if ty == "a":
            allv = list(sc.v)
            if allv and r < .4:
                v = self.pick(allv)
                if sc.v[v] != "w":
                    return v
            if r < .6:
                return self.leaf("i", sc)
            return self.pick(["'u", "'v", '"s"', "nil", "t", "#\\a", "'(1 2)", "'(u (v) 3)", ":k", "2.5", "1.0"])
        if ty == "l":
            if vs and r < .6:
                return self.pick(vs)
            return self.pick(["'(1 2 3)", "nil", "(list 4 5)", "(list %s)" % self.leaf("i", sc)])
        if vs and r < .55:
            return self.pick(vs)
        if sc.d and r < .6 and self.p.get("dynlet"):
            return "(dynamic %s)" % self.pick(sc.d)
        return str(self.r.randrange(-3, 10))

    def expr(self, ty, d, sc):
        if d <= 0 or self.chance(.12):
            x = self.leaf(ty, sc)
            return self.tr(x) if self.chance(.3) else x
        kinds = [(k, w) for k, w in self.p.items() if w > 0 and hasattr(self, "k_" + k)]
        for _ in range(6):
            k = self.r.choices([x[0] for x in kinds], [x[1] for x in kinds])[0]
            x = getattr(self, "k_" + k)(ty, d - 1, sc)
            if x is not None:
                if self.chance(.25):
                    x = self.tr(x)
                return x
        x = self.leaf(ty, sc)
        return self.tr(x) if self.chance(.3) else x

    def stmt(self, d, sc):
        return self.expr("a", d, sc)

    def body(self, ty, d, sc, n=None):
        n = n if n is not None else self.r.choice([0, 0, 1, 1, 2])
        return " ".join([self.stmt(d, sc) for _ in range(n)] + [self.expr(ty, d, sc)])

    # ---- calls and arithmetic
    def k_arith(self, ty, d, sc):
        if ty not in ("i", "a"):
            return None
        op = self.pick(["+", "-", "*", "+", "max", "min"])
        n = self.pick([2, 2, 3])
        return "(%s %s)" % (op, " ".join(self.expr("i", d, sc) for _ in range(n)))

    def k_progn(self, ty, d, sc):
        return "(progn %s)" % self.body(ty, d, sc)

    def k_listy(self, ty, d, sc):
        if ty == "l":
            o = self.r.randrange(5)
            if o == 0:
                return "(cons %s %s)" % (self.expr("a", d, sc), self.expr("l", d, sc))
            if o == 1:
                return "(append %s %s)" % (self.expr("l", d, sc), self.expr("l", d, sc))
            if o == 2:
                return "(reverse %s)" % self.expr("l", d, sc)
            if o == 3:
                return "(mapcar %s %s)" % (self.expr("g", d, sc), self.expr("l", d, sc))
            return "(list %s)" % " ".join(self.expr("a", d, sc) for _ in range(self.r.randrange(1, 4)))
        if ty == "i":
            return "(length %s)" % self.expr("l", d, sc)
        if ty == "a":
            return "(%s %s %s)" % (self.pick(["list", "cons", "eq", "equal"]), self.expr("a", d, sc), self.expr("a", d, sc))
        return None

    def k_call(self, ty, d, sc):
        if ty not in ("i", "a"):
            return None
        fs = [(n, k, rest) for n, (k, rest) in sc.f.items()]
        if not fs:
            return None
        n, k, rest = self.pick(fs)
        if n.startswith("rec-"):
            args = [str(self.r.randrange(0, 4))] + [self.expr("i", d, sc) for _ in range(k - 1)]
        else:
            args = [self.expr("i", d, sc) for _ in range(k)]
        if rest:
            args += [self.expr("i", d, sc) for _ in range(self.r.randrange(0, 3))]
        elif self.p.get("arity", 0) and self.chance(.04):
            args = [str(self.r.randrange(5)) for _ in range(k + self.pick([-1, 1, 2]) if k else 1)]
        r = self.r.random()
        if r < .6:
            return "(%s)" % " ".join([n] + args)
        if r < .8:
            return "(funcall #'%s)" % " ".join([n] + args)
        q = self.r.randrange(0, len(args) + 1)
        return "(apply #'%s (list %s))" % (" ".join([n] + args[:q]), " ".join(args[q:])) if args[q:] else "(apply #'%s nil)" % " ".join([n] + args[:q])

    def k_funcall(self, ty, d, sc):
        if ty not in ("i", "a"):
            return None
        if self.chance(.5):
            return "(funcall %s)" % self.expr("f", d, sc)
        if self.chance(.3):
            return "(apply %s (list %s))" % (self.expr("g", d, sc), self.expr("i", d, sc))
        return "(funcall %s %s)" % (self.expr("g", d, sc), self.expr("i", d, sc))

    def k_map(self, ty, d, sc):
        if ty != "l" and ty != "a":
            return None
        f = self.pick(["mapcar", "mapc", "mapcan", "maplist", "mapl", "mapcon"])
        v = self.pick(KW)
        if f in ("mapcar", "mapc"):
            fn = "(lambda (%s) %s)" % (v, self.body("a", d, sc.var(v, "a"), 0))
        elif f in ("mapcan", "mapcon"):
            fn = "(lambda (%s) (list %s))" % (v, self.body("a", d, sc.var(v, "a"), 0))
        else:
            fn = "(lambda (%s) %s)" % (v, self.body("a", d, sc.var(v, "l"), 0))
        if self.chance(.2):
            v2 = self.pick([q for q in KW if q != v])
            fn = fn.replace("(lambda (%s)" % v, "(lambda (%s %s)" % (v, v2), 1)
            return "(%s %s %s %s)" % (f, fn, self.expr("l", d - 1, sc), self.expr("l", d - 1, sc))
        return "(%s %s %s)" % (f, fn, self.expr("l", d - 1, sc))

    def k_lambda(self, ty, d, sc):
        if ty == "f":
            return "(lambda () %s)" % self.body("i", d, sc.copy(h=sc.h))
        if ty == "g":
            v = self.pick(KW)
            return "(lambda (%s) %s)" % (v, self.body("i", d, sc.var(v, "i")))
        v = self.pick(KW)
        if ty in ("i", "a"):
            return "((lambda (%s) %s) %s)" % (v, self.body(ty, d, sc.var(v, "i")), self.expr("i", d, sc))
        return None

    # ---- binding
    def binds(self, d, sc, star):
        n = self.pick([1, 1, 2, 2, 3])
        names = self.r.sample(KW, n)
        out, cur = [], sc
        new = sc
        for v in names:
            ty = self.pick(["i", "i", "i", "a", "l"] + (["f", "g"] if self.p.get("closure") else []))
            out.append("(%s %s)" % (v, self.expr(ty, d, cur if star else sc)))
            new = new.var(v, ty)
            cur = new
        return " ".join(out), new

    def k_let(self, ty, d, sc):
        star = self.chance(.35)
        b, new = self.binds(d, sc, star)
        return "(%s (%s) %s)" % ("let*" if star else "let", b, self.body(ty, d, new))

    def k_setq(self, ty, d, sc):
        vs = [v for v, t in sc.v.items() if t in ("i", "a", "l") and (t == ty or ty == "a")]
        if not vs:
            return None
        v = self.pick(vs)
        t = sc.v[v]
        r = self.r.random()
        if t == "i" and r < .25:
            return "(%s %s%s)" % (self.pick(["incf", "decf"]), v, self.pick(["", " 2"]))
        if r < .35:
            return "(setf %s %s)" % (v, self.expr(t, d, sc))
        if r < .45 and len(vs) > 1 and ty == "a":
            a, b = self.r.sample(vs, 2)
            ta, tb = sc.v[a], sc.v[b]
            return "(psetq %s %s %s %s)" % (a, b if ta == tb else self.expr(ta, d, sc), b, a if ta == tb else self.expr(tb, d, sc))
        return "(setq %s %s)" % (v, self.expr(t, d, sc))

    def k_closure(self, ty, d, sc):
        """a counter closure shared by two functions"""
        if ty not in ("i", "a"):
            return None
        v, f, g = self.pick(KW), self.fresh("f"), self.fresh("f")
        s1 = sc.var(v, "i")
        s2 = s1.var(f, "f").var(g, "f")
        if self.chance(.5):
            return "(let ((%s %s)) (let ((%s (lambda () (setq %s (+ %s 1)))) (%s (lambda () %s))) %s))" % (
                v, self.expr("i", d, sc), f, v, v, g, self.expr("i", d - 1, s1), self.body(ty, d, s2))
        return "(let ((%s nil) (%s nil)) (let ((%s %s)) (setq %s (lambda () (incf %s 3))) (setq %s (lambda () %s)) (tr (funcall %s) (funcall %s))) %s)" % (
            f, g, v, self.expr("i", d, sc), f, v, g, v, f, g, self.body(ty, d, sc.var(f, "f").var(g, "f")))

    def k_flet(self, ty, d, sc):
        if ty not in ("i", "a"):
            return None
        lab = self.chance(.5)
        n = self.pick([1, 1, 2])
        names = self.r.sample(["p", "q", "r"], n)
        new = dict(sc.f)
        ks = {}
        for f in names:
            ks[f] = (self.pick([0, 1, 1, 2]), self.chance(.15))
        for f in names:
            new[f] = ks[f]
        inner = sc.copy(f=new)
        defs = []
        for f in names:
            k, rest = ks[f]
            ps = self.r.sample(KW, k + (1 if rest else 0))
            s1 = sc
            if lab:  # calls of other local functions only from later to earlier ones (no endless recursion)
                ok = {q: sc.f[q] for q in sc.f if q not in names}
                ok.update({q: ks[q] for q in names[:names.index(f)]})
                s1 = sc.copy(f=ok)
            for q in ps[:k]:
                s1 = s1.var(q, "i")
            if rest:
                s1 = s1.var(ps[k], "l")
            defs.append("(%s (%s%s) %s)" % (f, " ".join(ps[:k]), (" &rest " + ps[k]) if rest else "", self.body("i", d, s1)))
        return "(%s (%s) %s)" % ("labels" if lab else "flet", " ".join(defs), self.body(ty, d, inner))

    def k_rec(self, ty, d, sc):
        """bounded recursion through labels, tail calls included"""
        if ty not in ("i", "a"):
            return None
        f = self.pick(["p", "q"])
        v, acc = self.r.sample(KW, 2)
        s1 = sc.copy(f={k: x for k, x in sc.f.items() if k != f}).var(v, "i").var(acc, "i")
        s1.v[v] = "n"  # not assigned
        o = self.r.randrange(4)
        if o == 0:
            b = "(if (<= %s 0) %s (%s (- %s 1) %s))" % (v, self.expr("i", d, s1), f, v, self.expr("i", d - 1, s1))
        elif o == 1:
            b = "(cond ((<= %s 0) %s) (t %s (%s (- %s 1) (+ %s %s))))" % (v, acc, self.stmt(d - 1, s1), f, v, acc, v)
        elif o == 2:
            b = "(if (<= %s 0) %s (+ 1 (%s (- %s 1) %s)))" % (v, self.expr("i", d - 1, s1), f, v, self.expr("i", d - 1, s1))
        else:
            b = "(let ((f (lambda () %s))) (if (<= %s 0) (funcall f) (progn (tr (funcall f)) (%s (- %s 1) (funcall f)))))" % (acc, v, f, v)
        return "(labels ((%s (%s %s) %s)) (%s %d %s))" % (f, v, acc, b, f, self.r.randrange(0, 4), self.expr("i", d, sc))

    # ---- conditionals
    def test(self, d, sc):
        r = self.r.random()
        if r < .4:
            return "(%s %s %s)" % (self.pick(["<", ">", "=", "<=", ">=", "eql"]), self.expr("i", d, sc), self.expr("i", d, sc))
        if r < .5:
            return self.pick(["t", "nil"])
        if r < .65:
            return "(not %s)" % self.expr("a", d, sc)
        if r < .8:
            return self.tr(self.pick(["nil", "t", "3", "nil"]))
        return self.expr("a", d, sc)

    def k_if(self, ty, d, sc):
        if ty == "a" and self.chance(.15):
            return "(if %s %s)" % (self.test(d, sc), self.expr(ty, d, sc))
        return "(if %s %s %s)" % (self.test(d, sc), self.expr(ty, d, sc), self.expr(ty, d, sc))

    def k_cond(self, ty, d, sc):
        n = self.pick([1, 2, 2, 3])
        cl = ["(%s %s)" % (self.test(d - 1, sc), self.body(ty, d - 1, sc)) for _ in range(n)]
        if ty == "a" and self.chance(.2):
            cl.insert(self.r.randrange(len(cl) + 1), "(%s)" % self.test(d - 1, sc))
        if ty != "a" or self.chance(.4):
            cl.append("(t %s)" % self.body(ty, d - 1, sc))
        return "(cond %s)" % " ".join(cl)

    def k_case(self, ty, d, sc):
        keys = [["1", "2"], ["0", "u"], ["nil", "#\\a"], ["3"], ["t", "v"], ["2.5", ":k"], ["-1", "5", "7"]]
        cl = ["((%s) %s)" % (" ".join(self.pick(keys)), self.body(ty, d - 1, sc, self.pick([0, 0, 1]))) for _ in range(self.pick([1, 2, 3]))]
        if ty != "a" or self.chance(.5):
            cl.append("(t %s)" % self.body(ty, d - 1, sc, 0))
        if self.chance(.3):
            cl2 = [c.replace("((nil #\\a)", "((9)").replace("(t v)", "(6)") for c in cl]
            ks = [c for c in cl2 if not any(q in c.split(")")[0] for q in ("u", "v", "k", "t"))] + cl2[-1:]
            if not ks[-1].startswith("(t "):
                ks = [c for c in ks if not any(q in c.split(")")[0] for q in ("u", "v", "k", "t"))]
            if ks:
                ks = list(dict.fromkeys(ks))
                if not (ty != "a" and not ks[-1].startswith("(t ")):
                    return "(case-using %s %s %s)" % (self.pick(["#'eql", "#'equal", "(lambda (p q) (tr p q) (eql p q))"]), self.expr("a", d, sc), " ".join(ks))
        return "(case %s %s)" % (self.expr("a", d, sc), " ".join(cl))

    def k_andor(self, ty, d, sc):
        op = self.pick(["and", "or"])
        if ty in ("f", "g"):
            return None
        if ty in ("i", "l"):
            if op == "or":
                return "(or %s %s)" % (self.pick(["nil", self.tr("nil")]), self.expr(ty, d, sc))
            return "(and %s %s)" % (self.pick(["t", self.tr("3"), "'u"]), self.expr(ty, d, sc))
        return "(%s %s)" % (op, " ".join(self.test(d - 1, sc) for _ in range(self.pick([1, 2, 3]))))

    def k_when(self, ty, d, sc):
        if ty != "a":
            return None
        return "(%s %s %s)" % (self.pick(["when", "unless"]), self.test(d, sc), self.body(ty, d, sc))

    def k_prog(self, ty, d, sc):
        if self.chance(.5):
            return "(prog1 %s %s)" % (self.expr(ty, d, sc), " ".join(self.stmt(d, sc) for _ in range(self.pick([0, 1, 2]))))
        return "(prog2 %s %s %s)" % (self.stmt(d, sc), self.expr(ty, d, sc), " ".join(self.stmt(d, sc) for _ in range(self.pick([0, 1]))))

    # ---- loops
    def loop_ok(self):
        self.loops += 1
        return self.loops <= 4

    def k_while(self, ty, d, sc):
        if ty != "a" or not self.loop_ok():
            return None
        v = self.fresh("n")
        s1 = sc.var(v, "n")
        return "(let ((%s %d)) (while (%s %s) (setq %s (- %s 1)) %s))" % (v, self.r.randrange(0, 4), "> 0" if False else "<", "0 " + v, v, v, self.body("a", d, s1))

    def k_for(self, ty, d, sc):
        if ty not in ("a", "i") or not self.loop_ok():
            return None
        v, w = self.r.sample(KW, 2)
        s1 = sc.var(v, "n").var(w, "i")
        o = self.r.randrange(3)
        if o == 0:
            it = "(%s 0 (+ %s 1)) (%s %s %s)" % (v, v, w, self.expr("i", d - 1, sc), self.expr("i", d - 1, s1))
        elif o == 1:
            it = "(%s 0 (+ %s 1)) (%s %s)" % (v, v, w, self.expr("i", d - 1, sc))
        else:
            it = "(%s %s %s) (%s 0 (+ 1 %s))" % (w, self.expr("i", d - 1, sc), v, v, v)
        return "(for (%s) ((>= %s %d) %s) %s)" % (it, v, self.r.randrange(0, 4), self.body(ty, d - 1, s1, 0), self.body("a", d - 1, s1))

    def k_dolist(self, ty, d, sc):
        if ty != "a" or not self.loop_ok():
            return None
        v = self.pick(KW)
        s1 = sc.var(v, "a")
        b = self.body("a", d, s1)
        if self.chance(.25):
            b += " (if (eql %s 2) (return %s))" % (v, self.expr("a", d - 1, s1))
        x = "(dolist (%s %s) %s)" % (v, self.expr("l", d, sc), b)
        return x

    def k_dotimes(self, ty, d, sc):
        if ty != "a" or not self.loop_ok():
            return None
        v = self.pick(KW)
        s1 = sc.var(v, "n")
        return "(progn (dotimes (%s %d) %s) nil)" % (v, self.r.randrange(0, 4), self.body("a", d, s1))

    # ---- non-local exits
    def k_block(self, ty, d, sc):
        b = self.pick(BLK + ["nil"])
        s1 = sc.copy(b=tuple(x for x in sc.b if x[0] != b) + ((b, ty),))
        return "(block %s %s)" % (b, self.body(ty, d, s1))

    def k_retfrom(self, ty, d, sc):
        bs = [x for x in sc.b]
        if not bs:
            if self.chance(.04) and ty != "f" and ty != "g":
                return "(return-from nowhere 1)"
            return None
        b, t = self.pick(bs)
        if b == "nil" and self.chance(.5):
            return "(return %s)" % self.expr(t, d, sc)
        if self.chance(.3):  # conditional
            return "(if %s (return-from %s %s) %s)" % (self.test(d - 1, sc), b, self.expr(t, d, sc), self.expr(ty, d, sc))
        return "(return-from %s %s)" % (b, self.expr(t, d, sc))

    def k_exitfn(self, ty, d, sc):
        """a function which leaves a block or tagbody, called from deeper or after the block"""
        if ty not in ("i", "a"):
            return None
        f = self.fresh("f")
        b = self.pick(BLK)
        s1 = sc.copy(b=tuple(x for x in sc.b if x[0] != b) + ((b, "i"),))
        if self.chance(.6):
            return "(block %s (let ((%s (lambda () (return-from %s %s)))) %s))" % (
                b, f, b, self.expr("i", d, s1), self.body("i", d, s1.var(f, "f")))
        return "(let ((%s nil)) (block %s (setq %s (lambda () (return-from %s %s))) %s) %s)" % (
            f, b, f, b, self.expr("i", d - 1, s1), self.expr("i", d, s1.var(f, "f")), self.body(ty, d, sc.var(f, "f")))

    def k_catch(self, ty, d, sc):
        c = self.pick(CATS)
        if ty in ("f", "g"):
            return None
        # a throw to this tag passes a value of this type
        s1 = sc.copy(c=tuple(x for x in sc.c if x[0] != c) + ((c, "i" if ty == "i" else ty),))
        if ty != "i" and ty != "a":
            return None
        return "(catch %s %s)" % (c, self.body(ty, d, s1))

    def k_throw(self, ty, d, sc):
        if not sc.c:
            if self.chance(.05) and ty not in ("f", "g"):
                return "(throw 'nobody 1)"
            return None
        c, t = self.pick(sc.c)
        if self.chance(.3):
            return "(if %s (throw %s %s) %s)" % (self.test(d - 1, sc), c, self.expr("i", d, sc), self.expr(ty, d, sc))
        return "(throw %s %s)" % (c, self.expr("i", d, sc))

    def k_tagbody(self, ty, d, sc):
        if not self.loop_ok():
            return None
        n = self.pick([1, 2, 3])
        tags = self.r.sample(TAGS, n)
        g = self.fresh("n")
        s1 = sc.var(g, "n")
        s1 = s1.copy(t=tuple(x for x in sc.t if x[0] not in tags) + tuple((x, g) for x in tags))
        items = []
        for t in tags:
            if self.chance(.6):
                items.append(self.st(d, s1))
            items.append(t)
            items.append(self.st(d, s1))
            if self.chance(.4):
                items.append("(if (< %s 3) (progn (setq %s (+ %s 1)) (go %s)))" % (g, g, g, self.pick(tags)))
        if self.chance(.5):
            items.append(self.st(d, s1))
        x = "(let ((%s 0)) (tagbody %s))" % (g, " ".join(items))
        return x if ty == "a" else "(progn %s %s)" % (x, self.expr(ty, d, sc)) if ty in ("i", "l") else None

    def st(self, d, sc):
        """a statement of a tagbody must be a cons"""
        x = self.stmt(d, sc)
        return x if x.startswith("(") else self.tr(x)

    def k_go(self, ty, d, sc):
        if not sc.t or ty in ("f", "g"):
            return None
        t, g = self.pick(sc.t)
        return "(if (< %s 4) (progn (setq %s (+ %s 1)) (go %s)) %s)" % (g, g, g, t, self.expr(ty, d, sc))

    def k_unwind(self, ty, d, sc):
        clean = [self.mark()]
        if self.chance(.4):
            clean.append(self.stmt(d - 1, sc))
        if self.chance(.3):
            clean.append(self.mark())
        return "(unwind-protect %s %s)" % (self.expr(ty, d, sc) if self.chance(.5) else "(progn %s)" % self.body(ty, d, sc), " ".join(clean))

    # ---- dynamic variables
    def k_dynlet(self, ty, d, sc):
        ds = self.r.sample(["*d1*", "*d2*", "x"], self.pick([1, 1, 2]))
        b = " ".join("(%s %s)" % (q, self.expr("i", d, sc)) for q in ds)
        return "(dynamic-let (%s) %s)" % (b, self.body(ty, d, sc.copy(d=tuple(set(sc.d) | set(ds)))))

    def k_dynset(self, ty, d, sc):
        if not sc.d or ty not in ("i", "a"):
            return None
        q = self.pick(sc.d)
        o = self.r.randrange(3)
        if o == 0:
            return "(setf (dynamic %s) %s)" % (q, self.expr("i", d, sc))
        if o == 1:
            return "(set-dynamic %s %s)" % (self.expr("i", d, sc), q)
        return "(incf (dynamic %s) %d)" % (q, self.r.randrange(5))

    def k_dynref(self, ty, d, sc):
        if ty not in ("i", "a"):
            return None
        if sc.d and not self.chance(.03):
            return "(dynamic %s)" % self.pick(sorted(sc.d))
        return "(dynamic *none*)" if self.chance(.1) else None

    # ---- conditions
    def k_handler(self, ty, d, sc):
        v = self.fresh("e")
        hs = sc.var(v, "c").copy(h=v)
        o = self.r.randrange(8)
        first = self.tr("(class-of %s)" % v) if self.chance(.6) else self.mark()
        if o <= 1:
            h = "(lambda (%s) %s %s)" % (v, first, self.expr("a", d - 1, hs))
        elif o == 2 and sc.b:
            b, t = self.pick(sc.b)
            h = "(lambda (%s) %s (return-from %s %s))" % (v, first, b, self.expr(t, d - 1, hs))
        elif o == 3:
            h = "(lambda (%s) %s (continue-condition %s %s))" % (v, first, v, self.expr("i", d - 1, hs))
        elif o == 4 and sc.c:
            c, t = self.pick(sc.c)
            h = "(lambda (%s) %s (throw %s %s))" % (v, first, c, self.expr("i", d - 1, hs))
        elif o == 5:
            h = "(lambda (%s) %s (unwind-protect (continue-condition %s %s) %s))" % (v, first, v, self.expr("i", d - 1, hs), self.mark())
        elif o == 6 and ty in ("i", "a"):
            b = self.pick(BLK)
            return "(block %s (with-handler (lambda (%s) %s (return-from %s %s)) %s))" % (
                b, v, first, b, self.expr(ty, d - 1, hs), self.body(ty, d, sc.copy(b=tuple(x for x in sc.b if x[0] != b) + ((b, ty),))))
        elif o == 7 and ty in ("i", "a"):
            return "(catch 'k9 (with-handler (lambda (%s) %s (throw 'k9 %s)) %s))" % (v, first, self.expr(ty, d - 1, hs), self.body(ty, d, sc))
        else:
            h = "(lambda (%s) %s (continue-condition %s 5))" % (v, first, v)
        return "(with-handler %s %s)" % (h, self.body(ty, d, sc))

    def k_error(self, ty, d, sc):
        if ty in ("f", "g"):
            return None
        o = self.r.randrange(14)
        e = lambda: self.expr("i", d - 1, sc)
        if o == 0:
            return '(error "e~a" %s)' % e()
        if o == 1:
            return '(cerror "go ~a" "e~a" %s)' % e()
        if o == 2:
            return "(+ 1 (car %s))" % e()
        if o == 3:
            return "(/ %s 0)" % e()
        if o == 4:
            return "undef-var"
        if o == 5:
            return "(undef-fn %d)" % self.r.randrange(5)
        if o == 6:
            return '(host-fail "h%d")' % self.r.randrange(3)
        if o == 7:
            return "(signal-condition (create <simple-error> 'format-string \"s\" 'format-arguments nil) %s)" % self.pick(["t", "nil", e()])
        if o == 8:
            return "(+ %s (car '(u)))" % e()
        if o == 9:
            return "(elt \"abc\" %s)" % e()
        if o == 10:
            return "(setq unbound-v %s)" % e()
        if o == 11:
            return "(cdr (tr %s))" % self.pick(["3", "nil", "\"s\""])
        if o == 12:
            return "(length %s)" % e()
        return "(funcall %s)" % self.pick(["5", "'u", "nil"])

    def k_ignore(self, ty, d, sc):
        if ty != "a":
            return None
        return "(ignore-errors %s)" % self.body("a", d, sc)

    # ---- macros
    def k_macro(self, ty, d, sc):
        ms = list(sc.m.items())
        if not ms:
            return None
        n, (k, rest, t) = self.pick(ms)
        if t != ty and ty != "a":
            return None
        args = [self.expr("i" if q == "i" else "a", d, sc) for q in k]
        if rest:
            args += [self.expr("a", d, sc) for _ in range(self.pick([1, 2, 3]))]
        return "(%s)" % " ".join([n] + args)

    def k_quasi(self, ty, d, sc):
        if ty not in ("a", "l"):
            return None
        return "`" + self.tmpl(2, d, sc)

    def tmpl(self, n, d, sc):
        items = []
        for _ in range(self.pick([1, 2, 3])):
            r = self.r.random()
            if r < .45:
                items.append("," + self.expr("a", d - 1, sc))
            elif r < .65 and n:
                items.append(self.tmpl(n - 1, d, sc))
            else:
                items.append(self.pick(["u", "1", "\"s\"", "nil", "(v 2)", ":k"]))
        if self.chance(.15):
            return "(%s . %s)" % (" ".join(items), self.pick(["v", "9"]))
        return "(%s)" % " ".join(items)

    # ---- definitions
    def defuns(self, sc, n):
        """global functions; each calls earlier ones only, rec- functions count down"""
        out = []
        for i in range(n):
            o = self.r.randrange(5)
            if o == 0:
                f = "rec-%d" % i
                v, w = self.r.sample(KW, 2)
                s1 = sc.copy(v={v: "n", w: "i"}, b=(), t=(), c=())
                call = "(%s (- %s 1) %s)" % (f, v, self.expr("i", 1, s1))
                b = self.pick(["(if (<= %s 0) %s %s)" % (v, self.expr("i", 2, s1), call),
                               "(if (<= %s 0) %s (+ 1 %s))" % (v, self.expr("i", 2, s1), call),
                               "(progn %s (cond ((<= %s 0) %s) (t %s)))" % (self.stmt(1, s1), v, w, call),
                               "(let ((z %s)) (if (<= %s 0) z %s))" % (w, v, call) if "z" not in (v, w) else "(if (<= %s 0) %s %s)" % (v, w, call)])
                out.append("(defun %s (%s %s) %s)" % (f, v, w, b))
                sc = sc.copy(f=dict(sc.f, **{f: (2, False)}))
                continue
            f = "fn-%d" % i
            k, rest = self.pick([0, 1, 1, 2]), self.chance(.2)
            ps = self.r.sample(KW, k + (1 if rest else 0))
            s1 = sc.copy(v={}, b=(), t=())
            for q in ps[:k]:
                s1 = s1.var(q, "i")
            if rest:
                s1 = s1.var(ps[k], "l")
            out.append("(defun %s (%s%s) %s)" % (f, " ".join(ps[:k]), (" &rest " + ps[k]) if rest else "", self.body("i", 3, s1)))
            sc = sc.copy(f=dict(sc.f, **{f: (k, rest)}))
        return out, sc

    MACROS = [
        ("m-inc", "(defmacro m-inc (x) `(+ 1 ,x))", (("i",), False, "i")),
        ("m-when", "(defmacro m-when (c &rest body) `(if ,c (progn ,@body) nil))", (("a",), True, "a")),
        ("m-swap", "(defmacro m-two (a b) (list 'progn (list 'tr b) a))", None),
        ("m-rev", "(defmacro m-rev (x y) (list 'list y x))", (("a", "a"), False, "a")),
        ("m-let", "(defmacro m-let (x y) `(let ((mv ,x)) (+ mv ,y)))", (("i", "i"), False, "i")),
        ("m-q", "(defmacro m-q (x) `(quote ,x))", (("a",), False, "a")),
        ("m-blk", "(defmacro m-blk (&rest body) `(block mb (tr 'mb) ,@body))", ((), True, "a")),
        ("m-lst", "(defmacro m-lst (x &rest r) `(list ,x 'k ,@r (list ,@r)))", (("a",), True, "a")),
        ("m-nest", "(defmacro m-nest (x) `(m-inc (m-inc ,x)))", (("i",), False, "i")),
        ("m-if", "(defmacro m-if (x y) (if (consp x) `(list 'c ,y) `(list 'a ,x ,y)))", (("a", "a"), False, "a")),
    ]

    def macros(self, sc, n):
        out, m = [], dict(sc.m)
        for name, text, sig in self.r.sample([q for q in self.MACROS if q[2]], n):
            out.append(text)
            m[name] = sig
        if "m-nest" in m and "m-inc" not in m:
            out.append(self.MACROS[0][1])
            m["m-inc"] = self.MACROS[0][2]
        return out, sc.copy(m=m)

    def program(self):
        """the texts of the calls of Interpret"""
        sc = Scope()
        calls = []
        g = "g%d" % self.pid
        if self.p.get("dynlet") and self.chance(.7):
            calls.append("(defdynamic *d1* %d)" % self.r.randrange(100, 110))
            sc = sc.copy(d=("*d1*",))
        if self.p.get("macro"):
            m, sc = self.macros(sc, self.pick([1, 2, 3]))
            calls += m
        if self.p.get("global"):
            calls.append("(defglobal %s %d)" % (g, self.r.randrange(50, 60)))
            sc = sc.var(g, "i")
        dfs, sc = self.defuns(sc, self.p.get("defun", 1) and self.pick([0, 1, 2, 3]))
        calls += dfs
        for _ in range(self.pick([1, 1, 2, 3])):
            self.loops = 0
            calls.append(self.expr("a", self.depth, sc))
        if self.chance(.3):
            calls[-1] = calls[-1] + " " + self.expr("a", self.depth - 1, sc)
        if self.p.get("dynlet"):
            calls.append("(list %s)" % " ".join("(ignore-errors (dynamic %s))" % q for q in ("*d1*", "*d2*", "x")))
        return calls


BASE = {"arith": 3, "progn": 1, "listy": 2, "call": 3, "funcall": 2, "lambda": 2, "let": 4, "setq": 3, "if": 3, "cond": 1, "andor": 1,
        "when": 1, "prog": 1}
EXITS = {"block": 4, "retfrom": 4, "exitfn": 3, "catch": 3, "throw": 3, "tagbody": 2, "go": 2, "unwind": 3}


def mix(*ds, **kw):
    r = {}
    for d in ds:
        for k, v in d.items():
            r[k] = max(v, r.get(k, 0))
    r.update(kw)
    return r


def program(seed, pid, prof, depth=4, maxlen=2500):
    rng = random.Random("%s-%s" % (seed, pid))
    while True:
        g = Gen(rng, pid, prof, depth)
        calls = g.program()
        if sum(map(len, calls)) <= maxlen:
            return calls

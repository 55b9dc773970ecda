"""Programs of the data properties (C10-C16, C20, C26, C27)."""
import itertools

from . import gen
from .progs2 import CHK


def C(x):
    return "(chk (lambda () %s))" % x


# ---------------------------------------------------------------- C10
def c10(m):
    r = m.rng
    quick = m.quick
    lists = ["nil", "(list 1)", "(list 1 2)", "(list 'a \"s\" 3)", "(list 1 (list 2 3) nil 4)", "(list nil)", "(list #\\a 1.5 1 'q 7)", "(cons 1 2)", "(cons 1 (cons 2 3))", "'(p q r)", "'((a . 1) (b . 2) (a . 3))"]
    atoms = ["5", "'sym", "\"str\"", "(vector 1 2 3)", "#\\x"]
    one = ["car", "cdr", "rest", "first", "second", "third", "caar", "cadr", "cddr", "caddr", "cdddr", "cadddr", "length", "reverse", "nreverse", "last", "null", "consp", "listp", "atom", "not"]
    ex = []
    for f in one:
        for l in lists + atoms:
            if f == "nreverse" and "'(" in l:
                continue
            ex.append("(%s %s)" % (f, l))
    for l in lists + atoms:
        for i in range(-1, 6):
            ex += ["(nth %d %s)" % (i, l), "(elt %s %d)" % (l, i)]
            if i >= 0:
                ex.append("(nthcdr %d %s)" % (i, l))
            for j in range(-1, 6):
                if l not in ("5", "'sym", "#\\x") or (i, j) == (0, 1):
                    ex.append("(subseq %s %d %d)" % (l, i, j))
        for k in ["1", "2", "'a", "\"s\"", "nil", "1.5", "#\\a", "'q", "7", "'(2 3)", "1.0"]:
            ex.append("(member %s %s)" % (k, l))
            ex.append("(assoc %s %s)" % (k, l))
            ex.append("(assoc %s (list (cons 1 'x) (list 'a 2) (cons %s 'found) (cons %s 'again)))" % (k, k, k))
        for l2 in lists + atoms:
            ex += ["(append %s %s)" % (l, l2), "(cons %s %s)" % (l, l2), "(mapcar #'list %s %s)" % (l, l2), "(mapcar #'cons %s %s)" % (l, l2)]
            ex += ["(%s (lambda (x y) (tr 'm x y) (list x y)) %s %s)" % (f, l, l2) for f in ("mapc", "maplist", "mapl", "mapcan", "mapcon")]
        ex += ["(append)", "(append %s)" % l, "(append %s nil)" % l, "(append nil %s)" % l, "(append (list 1) %s (list 2))" % l, "(append (list 1) nil %s)" % l]
        ex += ["(%s (lambda (x) (tr 'm x) %s) %s)" % (f, b, l) for f in ("mapcar", "mapc", "maplist", "mapl", "mapcan", "mapcon") for b in ("x", "(list x 0)", "nil")]
        ex += ["(mapcar (lambda (x y z) (list x y z)) %s '(1 2 3) '(4 5))" % l, "(create-list 3 %s)" % l, "(list %s %s)" % (l, l)]
        ex += ["(let* ((l %s) (k (append (list 0) l))) (list (eq l (cdr k)) (equal l (cdr k))))" % l, "(let* ((l %s) (k (append l (list 9)))) (list l k (eq l k)))" % l,
               "(let* ((l %s) (k (reverse l))) (list l k))" % l, "(let* ((l %s) (k (mapcar (lambda (x) x) l))) (list (eq l k) (equal l k) l k))" % l,
               "(let* ((l %s) (k (subseq l 0 (length l)))) (list (eq l k) (equal l k) l k))" % l, "(let* ((l %s)) (eq l (mapc #'list l)))" % l,
               "(let* ((l %s) (k (list l l))) (eq (first k) (second k)))" % l, "(let* ((l (list 5 6 7)) (k (nthcdr 1 l))) (set-car %s k) (list l k))" % l,
               "(let* ((l (list 5 6 7)) (k (member 6 l))) (set-cdr %s k) (list l k))" % l, "(let* ((l (list 5 6 7)) (k (append %s l))) (set-car 'c l) (list l k))" % l,
               "(let* ((l (list 5 6 7)) (k (append l %s))) (set-car 'c l) (list l k))" % l]
    for i in ["0", "1", "5", "-1", "'a", "2.0"]:
        ex += ["(create-list %s 'z)" % i]
    ex = sorted(set(ex))
    # mapping over something else than proper lists, elements of other things: nothing is promised
    ex = [x for x in ex if not (("(map" in x or "(subseq" in x or "(elt" in x) and any(b in x for b in ["(cons 1 2)", "(cons 1 (cons 2 3))", " 5", "'sym", "\"str\"", "(vector", "#\\x"]) and not x.startswith("(subseq (vec") and not x.startswith("(elt (vec"))
          and not (x.startswith(("(cadr", "(cddr", "(caddr", "(cdddr", "(cadddr", "(first", "(second", "(third", "(nth")) and any(b in x for b in ["(cons 1 2)", "(cons 1 (cons 2 3))", " 5", "'sym", "\"str\"", "(vector", "#\\x"]))]
    r.shuffle(ex)
    n = 6
    for i in range(0, len(ex) if not quick else min(len(ex), 6 * 1200), n):
        m.add([CHK] + [" ".join("(tr %d %s)" % (k, C(x)) for k, x in enumerate(ex[i:i + n]))], "operations")
    V = ["a", "b", "c", "d"]

    def atom():
        return r.choice(["1", "2", "'x", "'y", "nil", "\"s\"", "3.5", "#\\k", "7"])

    def lst():
        o = r.randrange(22)
        v, w = r.choice(V), r.choice(V)
        k = r.choice(["0", "1", "2", "3"])
        return ["(cons %s %s)" % (atom(), v), "(list %s %s)" % (atom(), v), "(append %s %s)" % (v, w), "(reverse %s)" % v, "(cdr %s)" % v, "(nthcdr %s %s)" % (k, v), "(member %s %s)" % (atom(), v),
                "(mapcar (lambda (e) (tr 'e e) e) %s)" % v, "(maplist (lambda (e) e) %s)" % v, "(mapcan (lambda (e) (list e e)) %s)" % v, "(mapcon (lambda (e) (list (car e))) %s)" % v,
                "(subseq %s %s %s)" % (v, k, r.choice(["1", "2", "3", "4"])), "(create-list %s %s)" % (k, atom()), "(nreverse %s)" % v, "(append %s %s %s)" % (v, w, r.choice(V)), "(cddr %s)" % v,
                "(list %s %s %s)" % (atom(), atom(), atom()), "(mapcar #'cons %s %s)" % (v, w), "(cons %s %s)" % (v, w), "(append %s nil)" % v, "(elt %s %s)" % (v, k), v][o]
    for _ in range(600 if quick else 12000):
        steps = []
        for i in range(r.randint(4, 10)):
            o = r.random()
            v, w = r.choice(V), r.choice(V)
            if o < .45:
                x = "(setq %s %s)" % (v, lst())
                if "elt" in x or "nreverse" in x and r.random() < .5:
                    x = "(setq %s (let ((q %s)) (if (consp q) q (list q))))" % (v, lst())
            elif o < .6:
                x = "(set-car %s %s)" % (r.choice([atom(), "(list %s)" % atom()]), r.choice([v, "(cdr %s)" % v, "(nthcdr 2 %s)" % v]))
            elif o < .72:
                x = "(set-cdr %s %s)" % (r.choice(["nil", "(list %s)" % atom(), "(list %s %s)" % (atom(), atom()), "(mapcar #'flat (reverse %s))" % w, "(mapcar #'flat %s)" % w]), r.choice([v, "(cdr %s)" % v, "(nthcdr 2 %s)" % v]))
            elif o < .8:
                x = "(setf (%s %s) %s)" % (r.choice(["car", "cdr", "cadr", "cddr"]), v, r.choice([atom(), "(list %s)" % atom()]))
            elif o < .86:
                x = "(setf (elt %s %s) %s)" % (v, r.choice(["0", "1", "2"]), atom())
            else:
                x = r.choice(["(list (eq %s %s) (equal %s %s))" % (v, w, v, w), "(length %s)" % v, "(last %s)" % v, "(nth 1 %s)" % v, "(mapc (lambda (e) (tr 'mc e)) %s)" % v, "(eq %s (cdr %s))" % (v, w), "(assoc 1 %s)" % v, "(null %s)" % v])
            steps.append("(tr %d %s) (tr a b c d)" % (i, C(x)))
        # (lists in the operand of set-cdr could contain the place: no circular structures)
        m.add([CHK, "(defun flat (e) (if (consp e) 'l e))", "(let* ((a (list 1 2 3)) (b (cons 'x a)) (c (cdr a)) (d (list 'p (list 'q)))) %s)" % " ".join(steps)], "histories")
    prof = gen.mix(gen.BASE, listy=12, map=6, dolist=2)
    m.random(prof, 100 if quick else 3000, 4)


# ---------------------------------------------------------------- C11
def c11(m):
    r = m.rng
    quick = m.quick
    arrs = {"v": ([4], "(vector 10 11 12 13)"), "m": ([2, 3], "(create-array '(2 3) 0)"), "t3": ([2, 2, 2], "(create-array '(2 2 2))"), "e": ([1], "(create-array '(1) 'z)"),
            "q": ([2, 2], "#2a((1 2) (3 4))"), "cv": ([3], "#(7 8 9)"), "t4": ([2, 1, 2, 2], "(create-array '(2 1 2 2) 5)")}
    s1 = "s"

    def idx(d):
        o = r.random()
        if o < .75:
            return str(r.randrange(d))
        return r.choice([str(d), "-1", str(d + 1), "'a", "1.0", "\"0\"", "nil", str(d - 1), "0"])

    def val():
        return r.choice(["1", "'x", "\"st\"", "#\\c", "2.5", "nil", "(list 1)", "99", "(tr 'val 3)"])

    def op(names):
        n = r.choice(names)
        d = arrs[n][0]
        k = len(d) if r.random() < .75 else r.choice([0, max(0, len(d) - 1), len(d) + 1, 1])
        ix = " ".join(idx(d[i] if i < len(d) else 2) for i in range(k))
        o = r.random()
        if o < .2:
            return "(aref %s %s)" % (n, ix)
        if o < .4:
            return "(set-aref %s %s %s)" % (val(), n, ix)
        if o < .55:
            return "(setf (aref %s %s) %s)" % (n, ix, val())
        if o < .62:
            return "(incf (aref %s %s))" % (n, ix) if r.random() < .5 else "(aref %s %s)" % (n, ix)
        if o < .7:
            n = r.choice(["v", "e", "cv"])
            return r.choice(["(elt %s %s)", "(elt %s %s)"]) % (n, idx(arrs[n][0][0]))
        if o < .76:
            n = r.choice(["v", "e"])
            return "(setf (elt %s %s) %s)" % (n, idx(arrs[n][0][0]), val())
        if o < .8:
            return "(array-dimensions %s)" % n
        if o < .84:
            return "(length %s)" % r.choice(["v", "e", "cv", "s"])
        if o < .89:
            return "(subseq %s %s %s)" % (r.choice(["v", "cv", "s", "e"]), r.choice(["0", "1", "2"]), r.choice(["1", "2", "3", "9"]))
        if o < .92:
            return "(elt s %s)" % idx(5)
        if o < .94:
            n = r.choice(["m", "t3", "t4"])
            d = arrs[n][0]
            k = r.randint(1, len(d) - 1)
            rest = [idx(x) if r.random() < .3 else str(r.randrange(x)) for x in d[k:]]
            return "(let ((w (elt %s %s))) (%s) (tr w) (array-dimensions w))" % (n, " ".join(str(r.randrange(x)) for x in d[:k]), r.choice(["set-aref %s w %s" % (val(), " ".join(rest)), "setf (aref w %s) %s" % (" ".join(rest), val())]))
        if o < .95:
            return "(let ((w (aref m %s))) (set-aref %s w %s) (tr w) (array-dimensions w))" % (r.choice(["0", "1"]), val(), idx(3))
        if o < .97:
            return "(set-aref (vector 'r1 'r2 'r3) m %s)" % idx(2)
        return "(let ((w (aref t3 %s))) (setf (aref w %s %s) %s) w)" % (r.choice(["0", "1"]), idx(2), idx(2), val())
    for _ in range(900 if quick else 15000):
        names = [n for n in arrs if n not in ("q", "cv")] if r.random() < .9 else list(arrs)
        steps = []
        for i in range(r.randint(4, 9)):
            x = op(names)
            if (" q " in x or " cv " in x) and ("set" in x or "incf" in x):
                x = "(aref q 0 1)"
            steps.append("(tr %d %s)" % (i, C(x)))
            if r.random() < .5 or "set" in x or "incf" in x:
                steps.append("(tr v m t3 e al s q cv t4)")
        m.add([CHK, "(let* (%s (s \"abcde\") (al %s)) %s)" % (" ".join("(%s %s)" % (n, arrs[n][1]) for n in arrs), r.choice(["v", "m", "t3"]), " ".join(steps))], "histories")
    ex = []
    for d in ["'(3)", "'(2 2)", "'(1 1 1)", "'()", "'(0)", "'(-1)", "'(2 0)", "'(a)", "'(2 b)", "5", "'(2 . 3)", "(list 2 (list 1))", "\"a\"", "'(1.0)"]:
        for i in ["", "'i", "0"]:
            ex += ["(create-array %s %s)" % (d, i), "(array-dimensions (create-array %s %s))" % (d, i)]
    for x in ["(vector)", "(vector 1 2)", "(create-array '(2 2) 1)", "\"abc\"", "\"\"", "(list 1 2)", "nil", "5", "'a", "#(1 2)", "#2a((1) (2))"]:
        ex += ["(%s %s)" % (f, x) for f in ("length", "array-dimensions", "basic-array-p", "basic-array*-p", "general-array*-p", "stringp", "reverse")]
        for i in ["0", "1", "2", "3", "-1", "'a", "1.5"]:
            ex += ["(elt %s %s)" % (x, i), "(aref %s %s)" % (x, i), "(aref %s %s 0)" % (x, i), "(set-aref 'n %s %s)" % (x if "#" not in x else "(vector 5)", i), "(subseq %s %s 2)" % (x, i), "(subseq %s 0 %s)" % (x, i),
                   "(let ((q %s)) (setf (elt q %s) #\\z) q)" % (x if "#" not in x else "(vector 1 2)", i)]
    for a, b in itertools.product(["\"\"", "\"a\"", "\"ab\"", "\"abc\"", "\"b\"", "\"bab\"", "\"あい\"", "\"A\"", "5"], repeat=2):
        ex += ["(%s %s %s)" % (f, a, b) for f in ("string=", "string/=", "string<", "string<=", "string>", "string>=", "string-append", "string-index", "equal", "eq")]
        ex += ["(string-index %s %s %s)" % (a, b, i) for i in ("0", "1")]
    # texts with characters of one to four bytes
    for _ in range(250 if quick else 4000):
        al = r.choice(["ab", "aあ", "aあé", "é\U0001F600b", "あ\U0001F600"])
        t = "".join(r.choice(al) for _ in range(r.randint(0, 7)))
        i = r.randint(0, len(t))
        j = r.randint(i, len(t))
        sub = t[i:j] if r.random() < .7 else "".join(r.choice(al) for _ in range(r.randint(0, 2)))
        ch = r.choice(al)
        ex.append(r.choice(['(string-index "%s" "%s")' % (sub, t), '(string-index "%s" "%s" %d)' % (sub, t, r.randint(0, len(t))), '(string-index "%s" "%s" %d)' % (sub, t, r.randint(0, max(0, i))),
                            '(char-index #\\%s "%s")' % (ch, t), '(char-index #\\%s "%s" %d)' % (ch, t, r.randint(0, len(t))), '(subseq "%s" %d %d)' % (t, i, j), '(elt "%s" %d)' % (t, i),
                            '(list (length "%s") (convert "%s" <list>))' % (t, t), '(%s "%s" "%s")' % (r.choice(["string<", "string>=", "string=", "string-append", "equalp"]), t, t[:i] + ch + t[j:])]))
    for a in ["#\\a", "#\\b", "#\\A", "#\\space", "#\\あ", "\"a\""]:
        ex += ["(%s %s %s)" % (f, a, b) for f in ("char=", "char/=", "char<", "char<=", "char>", "char>=") for b in ["#\\a", "#\\b", "5"]]
        ex += ["(char-index %s \"abcabc\" %s)" % (a, i) for i in ("", "0", "1", "4", "6", "9", "'x")] + ["(create-string 3 %s)" % a, "(convert %s <integer>)" % a]
    for x in ["\"abc\"", "\"\"", "(vector 1 #\\b)", "'(1 #\\b)", "nil", "5", "\"12\"", "\"-7\"", "\"1x\"", "97", "2.5", "-2.5", "#\\a", "'sym"]:
        ex += ["(convert %s %s)" % (x, c) for c in ("<list>", "<general-vector>", "<string>", "<integer>", "<character>", "<float>")]
    ex += ["(create-string %s)" % x for x in ("0", "2", "-1", "'a", "2 #\\z", "2 5")]
    ex = sorted(set(ex))
    r.shuffle(ex)
    for i in range(0, len(ex), 6):
        m.add([CHK, " ".join("(tr %d %s)" % (k, C(x)) for k, x in enumerate(ex[i:i + 6]))], "operations")


# ---------------------------------------------------------------- C12
HK = ["1", "2", "1.0", "-1", "\"a\"", "\"b\"", "(string-append \"a\" \"\")", "\"\"", "#\\a", "#\\b", "'a", "'b", "':a", "nil", "t", "'|a b|", "1.5", "100", "\"1\"", "#\\1", "'|1|", "(car '(a))", "(+ 0 1)", "(* 1.0 1)", "&rest"]
BADK = ["'(1)", "(vector 1)", "(lambda () 1)", "h1"]


def c12(m):
    r = m.rng

    def key():
        return r.choice(HK) if r.random() < .95 else r.choice(BADK)

    def val():
        return r.choice(["1", "'v", "\"s\"", "nil", "(list 1)", "(tr 'v 5)", "2.5"])

    def hops(hs):
        h, k = r.choice(hs), key()
        o = r.random()
        if o < .3:
            return r.choice(["(set-gethash %s %s %s)" % (val(), k, h), "(setf (gethash %s %s) %s)" % (k, h, val())])
        if o < .55:
            return "(gethash %s %s)" % (k, h)
        if o < .72:
            return "(remhash %s %s)" % (k, h)
        if o < .77:
            return "(clrhash %s)" % h
        if o < .92:
            return "(hash-table-count %s)" % h
        if o < .95:
            return "(incf (gethash %s %s))" % (k, h)
        return r.choice(["(gethash %s 5)" % k, "(remhash %s nil)" % k, "(hash-table-count \"h\")", "(clrhash 'a)", "(set-gethash 1 2 3)"])
    dump = "(tr (hash-table-count h1) (hash-table-count h2) %s)" % " ".join("(gethash %s h%d)" % (k, i) for i in (1, 2) for k in ("1", "1.0", "\"a\"", "#\\a", "'a", "\"\"", "nil", "'|1|", "\"1\""))
    for _ in range(900 if m.quick else 15000):
        ks = r.sample(HK, 4)
        n = r.randint(6, 24)
        steps = []
        for i in range(n):
            x = hops(["h1", "h1", "h2", "h3"])
            if r.random() < .6:  # few keys, so that they meet again
                x2 = hops(["h1", "h1", "h2"])
                for k in HK:
                    if " %s " % k in x2:
                        x2 = x2.replace(" %s " % k, " %s " % r.choice(ks), 1)
                        break
                x = x2
            steps.append("(tr %d %s)" % (i, C(x)))
            if r.random() < .12:
                steps.append(dump)
        m.add([CHK, "(let* ((h1 (make-hash-table)) (h2 (make-hash-table)) (h3 h1)) %s %s)" % (" ".join(steps), dump)], "hash")
    for _ in range(300 if m.quick else 5000):
        u = m.uid()
        syms = ["'ps%d" % u, "'pt%d" % u, "'|p s%d|" % u]
        names = ["'n1", "'n2", "'color", "'ps%d" % u]
        steps = []
        for i in range(r.randint(5, 16)):
            s, n = r.choice(syms), r.choice(names)
            x = r.choice(["(set-property %s %s %s)" % (val(), s, n), "(property %s %s)" % (s, n), "(remove-property %s %s)" % (s, n), "(setf (property %s %s) %s)" % (s, n, val()), "(property %s %s)" % (s, n)])
            if x.startswith("(set-prop") or x.startswith("(remove") or x.startswith("(setf"):
                steps.append(C(x))
            else:
                steps.append("(tr %d %s)" % (i, C(x)))
        steps += ["(tr 'end %s)" % C("(property %s %s)" % (s, n)) for s in syms for n in names]
        k = r.randrange(len(steps))
        m.add([CHK, " ".join(steps[:k]) or "1", " ".join(steps[k:])], "property")


# ---------------------------------------------------------------- C13-C15
class Hier:
    """a random class hierarchy"""

    def __init__(self, r, u, n, multi=True, slots=True, common=False):
        self.r, self.u = r, u
        self.names, self.sup, self.slots, self.defs, self.accs = [], {}, {}, [], {}
        for i in range(n):
            c = "<k%d-%d>" % (u, i)
            k = 0 if i == 0 or r.random() < .2 else (2 if multi and i > 1 and r.random() < .35 else 1)
            sup = r.sample(self.names, min(k, len(self.names)))
            # a superclass before its own superclass would contradict the precedence
            sup = [s for s in sup if not any(s in self.anc(x) for x in sup if x != s)]
            self.names.append(c)
            self.sup[c] = sup
            sl = []
            eff = False
            if slots:
                for j in range(r.choice([0, 1, 1, 2, 3])):
                    # slots may be redefined by a subclass (same name)
                    nm = "s%d" % r.randrange(4) if r.random() < .5 else "t%d%d" % (i, j)
                    if nm in [x[0] for x in sl]:
                        continue
                    o = {"initarg": None, "initform": None, "reader": None, "writer": None, "accessor": None, "boundp": None}
                    if r.random() < .6:
                        o["initarg"] = "i-" + nm
                    if r.random() < .6:
                        f = r.choice(["%d" % r.randrange(100), "(+ 1 %d)" % r.randrange(9), "nil", "(list 1 2)", "'sy", "(progn (setq cnt%d (+ cnt%d 1)) cnt%d)" % (u, u, u), "(tr 'init '%s)" % nm])
                        if "cnt" in f or "tr" in f:
                            if eff:
                                f = "5"
                            eff = True
                        o["initform"] = f
                    for q in ("reader", "writer", "accessor", "boundp"):
                        if r.random() < (.6 if q == "accessor" else .35):
                            o[q] = "%s%d-%d-%s" % (q[0], u, i, nm)
                    sl.append((nm, o))
            self.slots[c] = sl
            opts = lambda o: " ".join(":%s %s" % (k, v) for k, v in o.items() if v is not None)
            self.defs.append("(defclass %s (%s) (%s))" % (c, " ".join(sup), " ".join("(%s %s)" % (nm, opts(o)) for nm, o in sl)))

    def anc(self, c):
        res = []
        for s in self.sup.get(c, []):
            res += [s] + sorted(self.anc(s))
        return set(res)

    def all_slots(self, c):
        res = {}
        for k in [c] + sorted(self.anc(c)):
            for nm, o in self.slots[k]:
                res.setdefault(nm, []).append((k, o))
        return res


def c13(m):
    r = m.rng
    for _ in range(1100 if m.quick else 15000):
        u = m.uid()
        h = Hier(r, u, r.randint(1, 5))
        pre = ["(defglobal cnt%d 0)" % u] + h.defs
        if r.random() < .25:
            c = r.choice(h.names)
            pre.append(r.choice(["(defmethod initialize-object ((o %s) &rest (a <object>)) (tr 'init-object a) o)" % c,
                                 "(defmethod initialize-object ((o %s) &rest (a <object>)) (tr 'io a) 'other)" % c,
                                 "(defmethod initialize-object ((o %s)) (tr 'io0) (list o))" % c]))
        fns = []
        for c in h.names:
            for nm, o in h.slots[c]:
                for q in ("reader", "writer", "accessor", "boundp"):
                    if o[q]:
                        fns.append((c, q, o[q]))
        insts = ["x", "y", "z"]
        icls = [r.choice(h.names) for _ in insts]

        def create(c):
            args = []
            pool = sorted({o["initarg"] for nm, l in h.all_slots(c).items() for k, o in l if o["initarg"]}) + ["nope"]
            for a in r.sample(pool, min(len(pool), r.choice([0, 0, 1, 1, 2, 3]))):
                if a == "nope" and r.random() < .8:
                    continue
                args.append("'%s %s" % (a, r.choice(["1", "'iv", "(tr 'ia 2)", "\"s\"", "nil", "(list 3)"])))
            return "(create %s %s)" % (c, " ".join(args))
        steps = []
        for i in range(r.randint(4, 10)):
            if not fns:
                break
            c, q, f = r.choice(fns)
            ok = [v for v, k in zip(insts, icls) if c == k or c in h.anc(k)]
            v = r.choice(ok) if ok and r.random() < .85 else r.choice(insts + ["5", "nil", "'sym", "\"s\""])
            w = r.choice(["10", "'w", "(tr 'sv 11)", "(list 'n)"])
            if q in ("reader", "boundp"):
                x = "(%s %s)" % (f, v)
            elif q == "writer":
                x = "(%s %s %s)" % (f, w, v)
            else:
                x = r.choice(["(%s %s)" % (f, v), "(%s %s)" % (f, v), "(setf (%s %s) %s)" % (f, v, w), "(%s %s)" % (f, v)])
            steps.append("(tr %d %s)" % (i, C(x)))
        def dump(v, k):
            return ["(tr '%s '%s %s)" % (v, f, C("(%s %s)" % (f, v))) for c, q, f in fns if q in ("reader", "boundp", "accessor") and (c == k or c in h.anc(k))]
        for v, k in zip(insts, icls):
            steps += r.sample(dump(v, k), min(4, len(dump(v, k))))
        cr = " ".join("(%s %s)" % (v, C(create(k))) for v, k in zip(insts, icls))
        m.add([CHK] + pre + ["(let* (%s) (tr 'made (eq x y) (eq x x) (class-of x) (class-of y) (class-of z)) %s)" % (cr, " ".join(steps)), "cnt%d" % u])
    for f, cl in [("(create <c%N>)", "(s :initform (car 5))"), ("(create <c%N> 'a 1)", "(s :initarg a :initform (car 5) :accessor ac%N)"), ("(create <c%N> 'a)", "(s :initarg a)"), ("(create <nope%N>)", "(s)"),
                  ("(create 5)", "(s)"), ("(create <c%N> 'a 1 'a 2)", "(s :initarg a :accessor ac%N)"), ("(create <c%N> 'zz 1)", "(s :initarg a :accessor ac%N)")]:
        n = str(m.uid())
        m.add([CHK, "(defclass <c%N> () (%s))".replace("%N", n).replace("%s", cl.replace("%N", n)), "(tr 1 %s)" % C("(progn %s 'made)" % f.replace("%N", n)), "(tr 2 %s)" % C(("(ac" + n + " %s)") % f.replace("%N", n)) if "ac" in cl else "2"])


VALS = ["1", "2.5", "\"s\"", "#\\c", "'sym", "nil", "t", "(list 1)", "'(1 . 2)", "(vector 1)", "(create-array '(2 2) 0)", "(lambda (x) x)", "#'car", "(make-hash-table)", ":key", "<integer>", "(gensym)", "(create-string-input-stream \"a\")",
        "(create-string-output-stream)", "#'gq%N", "(+ 1 2)", "(* 1.0 2)"]
BCLS = ["<object>", "<integer>", "<float>", "<number>", "<string>", "<character>", "<symbol>", "<null>", "<cons>", "<list>", "<general-vector>", "<general-array*>", "<basic-array>", "<basic-array*>", "<basic-vector>", "<function>",
        "<generic-function>", "<stream>", "<error>", "<built-in-class>"]


def c14(m):
    r = m.rng
    bcls = ["<object>", "<integer>", "<float>", "<number>", "<string>", "<symbol>", "<null>", "<cons>", "<list>", "<character>", "<function>", "<general-vector>"]
    vals = {"1": 1, "2.5": 1, "\"s\"": 1, "'sym": 1, "nil": 1, "(list 1)": 1, "#\\c": 1, "#'car": 1, "(vector 1)": 1}
    for _ in range(1300 if m.quick else 16000):
        u = m.uid()
        h = Hier(r, u, r.randint(2, 6), slots=False)
        np = r.choice([1, 1, 1, 2, 2, 3])
        rest = r.random() < .15
        g = "gf%d" % u
        pre = list(h.defs)
        ps = ["p%d" % i for i in range(np)]
        pre.append("(defgeneric %s (%s%s))" % (g, " ".join(ps), " &rest r" if rest else ""))

        def cls():
            return r.choice(h.names) if r.random() < .7 else r.choice(bcls)

        def method(k):
            return "(defmethod %s (%s%s) (tr 'm%d) %s)" % (g, " ".join("(%s %s)" % (p, cls()) for p in ps), " &rest (r %s)" % r.choice(["<object>", "<object>", "<integer>"]) if rest else "", k, r.choice(["'r%d" % k, ps[-1], "(list %s%s)" % (" ".join(ps[1:]), " r" if rest else "")]))

        def value():
            return "(create %s)" % r.choice(h.names) if r.random() < .7 else r.choice(list(vals))
        steps = []
        k = 0
        for i in range(r.randint(2, 5)):
            steps.append(method(k))
            k += 1
        again = r.random() < .3
        was, new = set(), set()
        for i in range(r.randint(3, 9)):
            if r.random() < .2:
                steps.append(method(k))
                k += 1
                continue
            if again and r.random() < .25:
                if r.random() < .2:
                    steps += ["(defgeneric %s (%s%s))" % (g, " ".join(ps), " &rest r" if rest else ""), method(k)]
                    k += 1
                    continue
                # a class which never had subclasses is defined again, with other superclasses: methods keep the class they
                # were defined for, so an order which the redefinition would turn round is not asked about
                was |= {c for q in h.sup.values() for c in q}
                free = [c for c in h.names if c not in was]
                if free:
                    x = r.choice(free)
                    new.add(x)
                    cand = [c for c in h.names if c not in new]
                    sup = r.sample(cand, r.randint(0, min(2, len(cand))))
                    h.sup[x] = [c for c in sup if not any(c in h.anc(y) for y in sup if y != c)]
                    steps.append("(defclass %s (%s) ())" % (x, " ".join(h.sup[x])))
                continue
            n = np if r.random() < .93 else r.choice([np - 1, np + 1])
            a = " ".join(value() for _ in range(n))
            if rest and n >= np:
                a += " " + r.choice(["", "1", "1 'a", "(create %s)" % r.choice(h.names)])
            f = r.choice(["(%s %s)" % (g, a), "(%s %s)" % (g, a), "(funcall #'%s %s)" % (g, a), "(apply #'%s (list %s))" % (g, a)])
            steps.append("(tr %d %s)" % (i, C(f)))
        m.add([CHK] + pre + steps)
    G = [
        ["(defgeneric f (x)) (defmethod f ((x <integer>)) 'int) (defmethod f ((x <number>)) 'num)", "(list (f 1) (f 1.5))", "(defmethod f ((x <float>)) 'flo)", "(list (f 1) (f 1.5))", "(defmethod f ((x <integer>)) 'int2)", "(list (f 1) (f 1.5))"],
        ["(defgeneric f (x)) (defun g (x) (f x))", "(tr (chk (lambda () (g 1))))", "(defmethod f ((x <object>)) 'obj)", "(g 1)", "(defmethod f ((x <integer>)) 'int)", "(g 1)", "(g \"s\")"],
        ["(defgeneric f (x)) (defmethod f ((x <list>)) 'list) (defmethod f ((x <cons>)) 'cons) (defmethod f ((x <null>)) 'null) (defmethod f ((x <symbol>)) 'sym)", "(list (f nil) (f '(1)) (f 'a))"],
        ["(defgeneric f (x y)) (defmethod f ((x <object>) (y <integer>)) 'oi) (defmethod f ((x <integer>) (y <object>)) 'io)", "(list (f 1 1) (f 'a 1) (f 1 'a))", "(defmethod f ((x <integer>) (y <integer>)) 'ii)", "(f 1 1)"],
        ["(defgeneric f (x)) (defmethod f ((x <integer>)) (if (= x 0) 'z (list x (f (- x 1)))))", "(f 3)"],
        ["(defgeneric f (x)) (let ((k 0)) (defmethod f ((x <integer>)) (setq k (+ k x)) k))", "(list (f 1) (f 2) (f 3))"],
        ["(defgeneric f (x)) (defmethod f ((x <error>)) 'err) (defmethod f ((x <object>)) 'obj) (defmethod f ((x <domain-error>)) 'dom)", "(with-handler (lambda (e) (tr (f e)) (continue-condition e '(1))) (car 5))", "(block b (with-handler (lambda (e) (return-from b (f e))) (undefinedf)))"],
    ]
    for g in G:
        m.add([CHK] + g, "definitions")


def c15(m):
    r = m.rng
    errs = ["(car 5)", "(error \"x\")", "(undef-fn)", "undef-var", "(/ 1 0)", "(throw 'nobody 1)", "(list-undef 1)", "(elt \"a\" 9)", "(read-char (create-string-input-stream \"\"))", "(convert \"x\" <integer>)", "(car)", "(cons 1 2 3)", "(+ 1 'a)", "(funcall 5)",
            "(aref (vector 1) 'a)", "(length 5)", "(mod 5 0)", "(return-from nob 1)", "(assure <string> 5)", "(cerror \"a\" \"b\")"]
    ecls = ["<error>", "<object>", "<arithmetic-error>", "<division-by-zero>", "<control-error>", "<program-error>", "<domain-error>", "<undefined-entity>", "<unbound-variable>", "<undefined-function>", "<simple-error>",
            "<stream-error>", "<end-of-stream>", "<parse-error>", "<storage-exhausted>", "<standard-object>"]
    preds = ["atom", "not", "null", "consp", "listp", "symbolp", "stringp", "numberp", "integerp", "floatp", "characterp", "functionp", "generic-function-p", "basic-array-p", "basic-array*-p", "general-array*-p"]
    ex = []
    for v in VALS:
        n = "0"
        ex += ["(list (class-of %s) %s)" % (v, " ".join("(instancep %s %s)" % (v, c) for c in cs)) for cs in [BCLS[:10], BCLS[10:]]]
        ex += ["(list %s)" % " ".join("(%s %s)" % (p, v) for p in preds)]
        ex += ["(let ((v %s)) (list (instancep v (class-of v)) (eq (class-of v) (class-of v)) (subclassp (class-of v) <object>) (subclassp (class-of v) (class-of v)) (instancep (class-of v) <object>)))" % v]
    allc = BCLS + [c for c in ecls if c not in BCLS]
    for c in allc:
        ex.append("(list %s)" % " ".join("(subclassp %s %s)" % (c, d) for d in allc))
    ex += ["(subclassp 5 <object>)", "(subclassp <object> 5)", "(instancep 1 5)", "(class-of)", "(instancep 1)"]
    gq = "(defgeneric gq0 (x))"
    for i in range(0, len(ex), 3):
        m.add([CHK, gq] + ["(tr %d %s)" % (k, C(x.replace("%N", "0"))) for k, x in enumerate(ex[i:i + 3])], "builtin")
    for e in errs:
        for cs in [ecls[:9], ecls[9:]]:
            m.add(["(block b (with-handler (lambda (e) (return-from b (list (tr 'class (class-of e)) %s))) %s))" % (" ".join("(instancep e %s)" % c for c in cs), e)], "errors")
    for _ in range(500 if m.quick else 8000):
        u = m.uid()
        h = Hier(r, u, r.randint(2, 7), slots=False)
        defs = list(h.defs)
        if r.random() < .4:
            i = r.randrange(len(h.names))
            if not h.sup[h.names[i]]:
                defs[i] = "(defclass %s (%s) ())" % (h.names[i], r.choice(["<error>", "<simple-error>", "<standard-object>", "<object>"]))
        ns = h.names
        steps = ["(tr %s)" % " ".join("(subclassp %s %s)" % (a, b) for b in ns + r.sample(allc, 3)) for a in ns]
        steps += ["(let ((o (create %s))) (tr (class-of o) %s))" % (a, " ".join("(instancep o %s)" % b for b in ns + r.sample(BCLS, 3))) for a in r.sample(ns, min(4, len(ns)))]
        steps += ["(tr %s)" % " ".join("(subclassp %s %s)" % (b, a) for a in r.sample(ns, 1) for b in r.sample(allc, 4))]
        steps += ["(tr %s)" % " ".join("(instancep %s %s)" % (v, a) for a in r.sample(ns, 1) for v in r.sample(VALS[:12], 3))]
        steps += ["(let ((o (create %s))) (tr %s))" % (r.choice(ns), " ".join("(%s o)" % p for p in preds))]
        m.add(defs + steps, "hierarchies")


# ---------------------------------------------------------------- C16
EQV = ["1", "1.0", "2", "-1", "0", "0.0", "1.5", "\"a\"", "(string-append \"a\" \"\")", "\"\"", "\"A\"", "#\\a", "#\\A", "'a", "'|A|", "'A", "':a", "':b", "nil", "'()", "t", "'(1)", "(list 1)", "(list 1.0)", "(list 1 2)", "(cons 1 2)", "(cons 1 2.0)", "(list (list 1) \"a\")",
       "(list (list 1.0) \"a\")", "(vector 1 2)", "(vector 1 2.0)", "#(1 2)", "(vector)", "(create-array '(2 2) 1)", "(create-array '(2 2) 1.0)", "(create-array '(1 4) 1)", "(create-array '(4) 1)", "(make-hash-table)", "(lambda (x) x)", "#'car", "#'cdr", "<integer>", "<float>", "(class-of 1)",
       "(create <eq%N> 'a 1)", "(gensym)", "(create-string-output-stream)", "(vector \"a\" #\\a)", "(list nil)", "(list 'nil)", "#'eqg%N", "100000", "(* 1000 100)", "\"あ\"", "(elt \"a\" 0)", "(vector (list 1) 2)", "(vector (list 1.0) 2)", "(create-array '(2) 'a)", "(cons nil nil)", "'(nil)",
       "sh1", "sh2", "sh3", "(block b (with-handler (lambda (e) (return-from b e)) (car 1)))", "(block b (with-handler (lambda (e) (return-from b e)) (error \"e\")))", "(standard-output)"]


def c16(m):
    r = m.rng
    pre = ["(defclass <eq%N> () ((a :initarg a)))", "(defgeneric eqg%N (x))"]
    body = "(let* ((sh1 (list 1 2)) (sh2 (vector 3)) (sh3 (cons 0 sh1)) (vs (list %s))) (mapc (lambda (x) (mapc (lambda (y) (tr (eq x y) (eql x y) (equal x y) (equalp x y))) vs)) vs) 0)"
    pairs = list(itertools.combinations(range(len(EQV)), 2))
    todo = set(pairs)
    while todo:
        s = set()
        for p in sorted(todo, key=lambda p: (r.random())):
            if len(s | set(p)) <= 9:
                s |= set(p)
            if len(s) == 9:
                break
        todo -= set(itertools.combinations(sorted(s), 2))
        n = str(m.uid())
        m.add([x.replace("%N", n) for x in pre] + [(body % " ".join(EQV[i] for i in sorted(s))).replace("%N", n)], "pairs")

    def atom():
        return r.choice(["1", "1.0", "2", "'a", "'b", "\"a\"", "#\\a", "nil", "t", ":k", "2.5", "\"\""])

    def val(d):
        o = r.random()
        if d == 0 or o < .3:
            return atom()
        if o < .6:
            return "(list %s)" % " ".join(val(d - 1) for _ in range(r.randint(0, 3)))
        if o < .7:
            return "(cons %s %s)" % (val(d - 1), val(d - 1))
        if o < .9:
            return "(vector %s)" % " ".join(val(d - 1) for _ in range(r.randint(0, 3)))
        return "(create-array '(%s) %s)" % (r.choice(["2", "2 1", "1 2", "1", "1 1"]), val(d - 1))

    def tweak(v):
        """a variation of v"""
        for a, b in r.sample([("1.0", "1"), (" 1", " 1.0"), ("'a", "'b"), ("\"a\"", "\"b\""), ("nil", "t"), ("(vector", "(list"), ("2.5", "2"), ("(2 1)", "(1 2)")], 3):
            if a in v and r.random() < .5:
                return v.replace(a, b, 1)
        return v
    for _ in range(700 if m.quick else 12000):
        v = val(r.choice([1, 2, 3]))
        w, x = tweak(v), tweak(v)
        m.add(["(let* ((s %s) (vs (list %s %s %s s s (list s) (list s)))) (mapc (lambda (x) (mapc (lambda (y) (tr (eq x y) (eql x y) (equal x y) (equalp x y))) vs)) vs) 0)" % (val(1), v, w, x)], "structures")
    # objects of every kind, conditions and instances twice over: the laws of equivalences hold for them as well
    err = "(block b (with-handler (lambda (e) (return-from b e)) %s))"
    OBJ = ["(create <eq%N> 'a 1)", "(create <eq%N> 'a 1.0)", "(create <eq%N> 'a (list 1 2))", "(create <eq%N>)", "(create <eqs%N> 'a 1)", "(create <eqs%N> 'a 1 'b \"x\")", "(create <eqs%N> 'a 1 'b \"X\")", "(list (create <eq%N> 'a 1))", "(create <eq%N> 'a (create <eq%N> 'a 1))", "<eq%N>", "<eqs%N>",
           "(make-hash-table)", "(lambda (x) x)", "(create-string-input-stream \"a\")", "(create-string-output-stream)", "(standard-input)", "(error-output)", "#'eqg%N", "#'list", "(gensym)", "<domain-error>"]
    ERR = ["(car 1)", "(car 2)", "(car 'a)", "(cdr 1.0)", "(+ 1 \"a\")", "(elt (vector 1) 5)", "(aref (vector 1) 6)", "(undef-a)", "(undef-b)", "undef-a", "(dynamic undef-a)", "(/ 1 0)", "(/ 2 0)", "(mod 1 0)", "(div 1 0)", "(error \"e\")", "(error \"e\" 1)", "(error \"E\")", "(return-from no 1)", "(throw 'no 1)", "(throw 'no 2)", "(go no)",
           "((lambda (x) x))", "((lambda (x) x) 1 2)", "(car)", "(car 1 2)", "(read (create-string-input-stream \"\"))", "(read-char (create-string-input-stream \"\"))", "(read (create-string-input-stream \"(a\"))", "(close 5)", "(eqg%N 1)", "(let ((x 1) y z w . 5) 1)",
           "(signal-condition (create <simple-error> 'format-string \"e\" 'format-arguments nil) nil)", "(property 'a%N 'b)", "(convert 1 <list>)", "(open-input-file \"no-such-file\")", "(host-fail \"h\")", "(string-append 1 \"a\")", "(sqrt -1)", "(raise-no-class)"]
    laws = "(let* (%s) (mapc (lambda (x) (mapc (lambda (y) (let ((a (eq x y)) (b (eql x y)) (c (equal x y)) (d (equalp x y))) (tr (if a b t) (if b c t) (if c d t) (eql a (eq y x)) (eql b (eql y x)) (eql c (equal y x)) (eql d (equalp y x)) (eql c (equal (list x) (list y))) (eql d (equalp (vector x) (vector y))))" \
        " (mapc (lambda (z) (tr (if (and a (eq y z)) (eq x z) t) (if (and b (eql y z)) (eql x z) t) (if (and c (equal y z)) (equal x z) t) (if (and d (equalp y z)) (equalp x z) t))) vs))) vs) (tr (eq x x) (eql x x) (equal x x) (equalp x x) (eql x (car (list x))) (if (member x vs) t nil) (consp (assoc x (list (cons x 1)))))) vs) 0)"
    for _ in range(90 if m.quick else 2500):
        n = str(m.uid())
        kind = r.random()
        e = [r.choice(OBJ) if kind < .4 or (kind > .8 and r.random() < .5) else err % r.choice(ERR) for i in range(2)]
        vs = r.choice([[e[0], e[0], e[1]], [e[0], e[0], e[0]], [e[0], "v0", e[1]], [e[0], e[1], e[0]]])
        binds = " ".join("(v%d %s)" % (i, e) for i, e in enumerate(vs)) + " (vs (list %s))" % " ".join("v%d" % i for i in range(3))
        m.add(["(defclass <eq%s> () ((a :initarg a)))" % n, "(defclass <eqs%s> (<eq%s>) ((b :initarg b)))" % (n, n), "(defgeneric eqg%s (x))" % n, (laws % binds).replace("%N", n)], "laws")
    INS = OBJ[:9]
    for _ in range(40 if m.quick else 800):
        n = str(m.uid())
        e = [r.choice(INS) for _ in range(3)]
        m.add(["(defclass <eq%s> () ((a :initarg a)))" % n, "(defclass <eqs%s> (<eq%s>) ((b :initarg b)))" % (n, n), ("(let* ((s %s) (vs (list s s %s %s %s (list s) (vector s)))) (mapc (lambda (x) (mapc (lambda (y) (tr (eq x y) (eql x y) (equal x y) (equalp x y))) vs)) vs) 0)" % (e[0], e[0], e[1], e[2])).replace("%N", n)], "instances")
    for k in EQV:
        for l in r.sample(EQV, 12):
            n = str(m.uid())
            q = "(let* ((sh1 (list 1 2)) (sh2 (vector 3)) (sh3 (cons 0 sh1)) (k %s) (v %s)) (tr 'mem (consp (member k (list 'x v)))) (tr 'assoc (consp (assoc k (list (cons 'x 0) (cons v 1))))) (tr 'catch (ignore-errors (catch v (throw k 'hit)))) (tr 'eqs (eql k v)) (tr 'hash (let ((h (make-hash-table))) (ignore-errors (progn (set-gethash 'here v h) (gethash k h))))) 0)" % (k, l)
            m.add([x.replace("%N", n) for x in pre] + [q.replace("%N", n)], "uses")
            if len(m.progs) % 3 == 0 and l[0] not in "(#" and "sh" not in l:
                lit = l.lstrip("'")
                m.add(["(case %s ((x %s) 'hit) (t 'miss))" % (k.replace("%N", n) if "%N" not in k and "sh" not in k else "1", lit)], "case")


# ---------------------------------------------------------------- C27
def c27(m):
    r = m.rng
    # place templates over variables set up by the program; %I an index expression
    PL = ["x", "(car l)", "(cdr l)", "(cadr l)", "(cddr l)", "(caddr l)", "(cdddr l)", "(cadddr l)", "(car (cdr l))", "(cdr (cdr l))", "(car (car n))", "(first l)", "(second l)", "(third l)", "(rest l)", "(nth %I l)", "(elt l %I)", "(elt v %I)", "(aref v %I)",
          "(aref a2 %J %J)", "(gethash %K h)", "(dynamic *fd*)", "(property 'ps%N 'pn)", "(acc%N o)", "(acc%N (car lo))", "(car (nthcdr %J l))", "(aref (car lv) %J)", "(elt (cdr l) %J)", "(car (gethash 'l h))", "(car (acc%N ol))", "gl%N", "(subseq l 0 2)", "(elt n 0)", "(subseq l %J %I)", "(subseq st %J %I)", "(nthcdr %I l)", "(assoc %A al)", "(car (assoc %A al))", "(nthcdr 1 (nthcdr 1 l))", "(subseq (car n) 0 1)", "(subseq (cdr l) 1 3)", "(subseq (acc%N ol) 0 2)", "(elt st %J)",
          "(cdr (assoc 'b al))", "(assoc (progn (tr 'ak) 'b) (progn (tr 'al) al))", "(nthcdr (tr 'nz 2) (progn (tr 'nl) l))", "(car (elt n 0))", "(aref (aref a2 0) %J)", "(gethash %K (progn (tr 'hh) h))", "(car (progn (tr 'cc) l))", "(elt (progn (tr 'ee) l) (tr 'ii %J))", "(aref (progn (tr 'aa) v) (tr 'jj %J))", "(acc%N (progn (tr 'oo) o))", "(nth (tr 'nn %J) l)"]
    dump = "(tr x l v a2 n al st) (tr (gethash 'k h) (gethash 2 h) (gethash 'l h) (gethash 'new h) (hash-table-count h) (ignore-errors (dynamic *fd*)) (ignore-errors (property 'ps%N 'pn)) (acc%N o) (acc%N ol) gl%N al2 lx)"
    top = "(let* ((x 1) (l (list 10 20 30 40 50)) (lx (cdr l)) (v (vector 1 2 3)) (a2 (create-array '(2 2) 0)) (n (list (list 1 2) 3)) (h (make-hash-table)) (o (create <fc%N> 'a 5)) (ol (create <fc%N> 'a (list 7 8))) (lo (list o)) (lv (list v)) (st \"abcd\") (al (list (list 'a 1) (list 'b 2) (list 'a 3) (list 2 4) (list 'b 5))) (al2 al)) (set-gethash 1 'k h) (set-gethash (list 4 5) 'l h) (set-property 3 'ps%N 'pn) %B 0)"

    def place():
        p = r.choice(PL)
        p = p.replace("%A", r.choice(["'a", "'b", "2", "'a", "'b", "'none"]))
        while "%I" in p or "%J" in p or "%K" in p:
            p = p.replace("%I", r.choice(["0", "1", "2", "3", "4", "1", "9", "-1", "'q"]), 1) if "%I" in p else p.replace("%J", r.choice(["0", "1"]), 1) if "%J" in p else p.replace("%K", r.choice(["'k", "'new", "2"]), 1)
        return p

    def val():
        return r.choice(["7", "(tr 'val 8)", "'s", "(list 'n)", "x", "(car l)", "nil", "(progn (setq x (+ x 1)) x)", "\"s\"", "(+ 1 (elt l 1))", "2.5"])
    for _ in range(1300 if m.quick else 16000):
        u = str(m.uid())
        steps = []
        for i in range(r.randint(1, 4)):
            p = place()
            o = r.random()
            if "subseq" in p and o < .8:
                x = "(setf %s %s)" % (p, r.choice(['"xy"', '"z"', '""', '"longer"', "(tr 'val \"pq\")"]) if " st" in p else r.choice(["(list 7 8)", "(list 7)", "(list 7 8 9 10 11)", "nil", "(list (tr 'val 8) 9)", "l", "(cdr l)", "'(6 6 6)"]))
            elif "(setf" not in p and p.startswith("(nthcdr") and o < .8:
                x = "(setf %s %s)" % (p, r.choice(["(list 7 8)", "nil", "(list (tr 'val 9))", "5", "(list 'n)"]))
            elif p.startswith("(assoc") and o < .8:
                x = "(setf %s %s)" % (p, r.choice(["(list 'a 'new)", "(list 'c 'new)", "(cons 'b (tr 'val 9))", "(list (progn (setq x (+ x 1)) 'a) x)"]))
            elif o < .6:
                x = "(setf %s %s)" % (p, val())
            elif o < .72:
                x = "(incf %s%s)" % (p, r.choice(["", " 2", " (tr 'd 3)", " 0.5"]))
            elif o < .82:
                x = "(decf %s%s)" % (p, r.choice(["", " 2", " (tr 'd 3)"]))
            elif o < .9:
                x = r.choice(["(set-car %s l)" % val(), "(set-cdr (list 1 2) (cdr l))", "(set-aref %s v 1)" % val(), "(set-dynamic %s *fd*)" % val(), "(set-gethash %s 'k h)" % val(), "(setq x %s)" % val()])
            else:
                x = p
            if r.random() < .1:
                x = "(car (cons %s %s))" % (x, "(tr 'after)")
            returns = True
            if x.startswith("(setf (subseq") or "(setf (property" in x or "(setf (nthcdr" in x:
                returns = False
            steps.append(("(tr %d %s) " % (i, C(x)) if returns else C(x) + " ") + "(tr 'rd %s) " % C(p) + dump)
        m.add([CHK, "(defclass <fc%N> () ((a :initarg a :accessor acc%N)))".replace("%N", u), "(defdynamic *fd* 1)", "(defglobal gl%s 2)" % u, top.replace("%B", " ".join(steps)).replace("%N", u)], "places")
    G = ["(let ((x 1)) (list (incf x) x (incf x 5) x (decf x) x))", "(let ((x 1.5)) (list (incf x) (decf x 0.5) x))", "(let ((x 'a)) (tr (chk (lambda () (incf x)))) x)", "(let ((l (list 1 2))) (list (setf (car l) 5) l))",
         "(let ((l (list 1 2 3))) (setf (nthcdr 1 l) '(8 9)) l)", "(let ((l (list 1 2 3 4))) (setf (subseq l 1 3) '(8 9)) l)", "(let ((a (list (cons 'k 1)))) (setf (cdr (assoc 'k a)) 2) a)", "(let ((v (vector 1 2))) (list (setf (elt v 1) 9) v))",
         "(let ((x 1) (y 2)) (setf x 5) (list x y))", "(tr (chk (lambda () (setf unb%N 5))))", "(let ((l (list 1))) (tr (chk (lambda () (setf (cadr l) 5)))) l)", "(let ((l nil)) (tr (chk (lambda () (setf (car l) 5)))) l)",
         "(tr (chk (lambda () (setf (undefined-accessor 1) 5))))", "(let ((x (list 1 2))) (flet ((f () x)) (setf (car (f)) 9) x))", "(let ((s \"abc\")) (setf (elt s 1) #\\x) s)", "(let ((x \"abc\") (y nil)) (setq y x) (setf (elt x 0) #\\z) (list x y))",
         "(let ((x 5)) (let ((x 6)) (setf x 7) (incf x)) x)", "(let ((v (vector 1 2 3)) (i 0)) (setf (aref v (setq i (+ i 1))) i) (list v i))", "(let ((v (vector 1 2 3)) (i 0)) (setf (aref v (setq i (+ i 1))) (setq i (+ i 1))) (list v i))"]
    for g in G:
        m.add([CHK, g.replace("%N", str(m.uid()))], "definitions")


# ---------------------------------------------------------------- C26
INTS = ["0", "1", "-1", "2", "-2", "3", "-3", "5", "7", "-7", "10", "16", "-16", "100", "255", "-1000", "12345", "1000000", "-999999", "1073741823", "-1073741823"]
FLTS = ["0.0", "1.0", "-1.0", "0.5", "-0.5", "1.5", "-1.5", "2.5", "-2.5", "3.5", "0.25", "-0.75", "100.0", "1024.5", "-3.0", "0.0625", "7.0"]
NON = ["'a", "\"s\"", "nil", "#\\a", "(list 1)", "t"]


def rnd_lit(r):
    x = "".join(r.choice("0123456789") for _ in range(r.choice([1, 2, 5, 12])))
    if r.random() < .5:
        x = r.choice("+-") + x
    if r.random() < .5:
        x += "." + "".join(r.choice("0123456789") for _ in range(r.choice([1, 2, 6])))
    if r.random() < .3:
        x += r.choice("eE") + r.choice(["", "+", "-"]) + str(r.randrange(25))
    if r.random() < .25:
        i = r.randrange(len(x) + 1)
        x = x[:i] + r.choice(["#", ".", "-", "e", "x", "_", " ", "a", "+"]) + x[i:]
    if r.random() < .1:
        x = r.choice(["#x", "#b", "#o", "#X"]) + x
    return x


def c26(m):
    r = m.rng
    from . import nums as nums_
    nums = INTS + FLTS
    ex = []
    for x in nums + NON:
        ex += ["(%s %s)" % (f, x) for f in ("floor", "ceiling", "truncate", "round", "1+", "1-", "zerop", "plusp", "minusp", "oddp", "evenp", "-", "+", "*", "integerp", "floatp", "numberp", "max", "min", "=", "<")]
    for x in ["10.5", "-10.5", "10.9375", "-10.9375", "0.4375", "-0.4375", "3.0", "8.5", "9.5", "-8.5", "-9.5"]:
        ex += ["(%s %s)" % (f, x) for f in ("floor", "ceiling", "truncate", "round")]
    two = ["+", "-", "*", "/", "mod", "rem", "max", "min", "=", "/=", "<", "<=", ">", ">="]
    pool = nums + NON
    for f in two:
        for x in pool:
            for y in pool:
                ex.append("(%s %s %s)" % (f, x, y))
    ex = sorted(set(ex))
    if m.quick:
        ex = r.sample(ex, 9000)
    for f in ["+", "-", "*", "/", "max", "min", "<", "<=", ">", ">=", "="]:
        for _ in range(150 if m.quick else 2500):
            k = r.choice([3, 3, 4, 5])
            small = ["0", "1", "2", "3", "-1", "1.0", "2.0", "0.5", "1.5", "-2"]
            ex.append("(%s %s)" % (f, " ".join(r.choice(small) if r.random() < .95 else r.choice(NON) for _ in range(k))))
    # integers of 64 bits and all doubles
    near = [lambda: nums_.rnd_num(r), lambda: nums_.rnd_num(r), lambda: nums_.rnd_float(r, 1023), lambda: r.choice(nums), lambda: nums_.rnd_num(r, 5)]
    wide = []
    for f in ("floor", "ceiling", "truncate", "round", "1+", "1-", "zerop", "plusp", "minusp", "oddp", "evenp", "-", "integerp", "floatp", "numberp"):
        for x in nums_.BIG + nums_.WIDE:
            wide.append("(%s %s)" % (f, x))
        for _ in range(20 if m.quick else 300):
            wide.append("(%s %s)" % (f, r.choice(near)()))
    if m.quick:
        wide = r.sample(wide, 450)
    # square roots, constants
    for _ in range(110 if m.quick else 3000):
        k = r.randrange(1, 3037000499)
        x = r.choice([nums_.rnd_num(r), nums_.rnd_float(r, r.choice([3, 40, 300, 1023])), str(k * k), str(k * k + r.choice([-1, 1])), "%d.25" % r.randrange(1000), str(r.randrange(-5, 200)), r.choice(nums), r.choice(NON)])
        ex.append("(sqrt %s)" % x)
    ex += ["pi", "(sqrt pi)", "(* pi pi)", "(floor pi)", "(- most-positive-fixnum 1)", "most-negative-fixnum", "most-positive-fixnum", "(+ most-negative-fixnum most-positive-fixnum)", "(quotient 7 2)", "(sqrt)", "(sqrt 1 2)", "(sqrt 0)", "(sqrt 0.0)", "(sqrt -0.0)", "(sqrt -1)", "(sqrt -0.25)", "(sqrt 4)", "(sqrt 2)", "(sqrt 1.0e-320)"]
    for op in ["(/ 1 0)", "(/ 5.5 0)", "(mod 3 0)", "(mod 3.5 0)", "(rem 3 0.0)", "(rem 3 0)", "(div 3 0)", "(/ 8 2 0 1)", "(mapcar #'mod '(4) '(0))", "(apply #'/ '(8 2 0))"]:
        ex.append("(block b (with-handler (lambda (c) (return-from b (list (apply (arithmetic-error-operation c) '(-7 2)) (funcall (arithmetic-error-operation c) 7 -2)))) %s))" % op)
    for op in ["(/ 1 0)", "(/ 5.5 0)", "(mod 3 0)", "(rem 3 0.0)", "(div 3 0)", "(/ 8 2 0 1)", "(car 1)", "(sqrt -1)"]:
        ex.append("(block b (with-handler (lambda (c) (return-from b (list (class-of c) (functionp (arithmetic-error-operation c)) (arithmetic-error-operands c)))) %s))" % op)
        ex.append("(block b (with-handler (lambda (c) (return-from b (list (class-of c) (domain-error-object c) (domain-error-expected-class c)))) %s))" % op)
    for f in two + ["eql", "equal", "equalp"]:
        for _ in range(90 if m.quick else 2500):
            x = r.choice(near)()
            y = r.choice(near)()
            k = r.random()
            if k < .1:
                y = x
            elif k < .2 and "." not in x and "e" not in x:
                y = r.choice([x + ".0", str(int(x) + 1) + ".0", str(int(x) - 1) + ".0", str(int(x) + 1 if int(x) < 9e18 else 5)])
            elif k < .25:
                y = r.choice(NON)
            wide.append("(%s %s %s)" % (f, *((x, y) if r.random() < .5 else (y, x))))
        for _ in range(15 if m.quick else 400):
            if f not in ("mod", "rem", "/="):
                wide.append("(%s %s)" % (f, " ".join(r.choice(near)() for _ in range(3))))
    for c in ("<integer>", "<float>", "<string>", "<character>"):
        for x in (r.sample(nums_.BIG + nums_.WIDE, 20) if m.quick else nums_.BIG + nums_.WIDE):
            wide.append("(convert %s %s)" % (x, c))
    for c in ("<integer>", "<float>", "<symbol>"):
        for x in ["", "-", "+", "12", "-12", "+12", "1.5", "-0.0", "1e5", "1e", "abc", "1.5.2", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", " 1", "1 ", "00012", "1_0", "0x10", ".5", "--1", "12a", "1e-3", "0.1e1", "1E5",
                  "123456789012345678901234567890", "2.5e300", "1e-310", "((", "q"]:
            wide.append("(convert \"%s\" %s)" % (x, c))
    lits = ["", "-", "+", "12", "-12", "+12", "1.5", "-0.0", "1e5", "1e", "e1", "1.", "1.e3", "abc", "1.5.2", " 1", "1 ", "1 2", "00012", "1_0", "0x10", "0b1", "#x10", "#XfF", "#xg", "#b101", "#b102", "#o17", "#o18", "#x", "#x-1", "#x+F", "-#x1", ".5", "--1", "+-1", "1-", "1/2", "inf", "NaN", "1e+", "1e-2", "1E+2", "(1)", "'1", "1;", "\u0661",
            "-1.25e3", "1.0d0", "#d1", "1,2", "5)", "9223372036854775807", "-9223372036854775808", "2.5e300", "0.0625"]
    for x in lits + [rnd_lit(r) for _ in range(60 if m.quick else 2000)]:
        wide.append("(parse-number \"%s\")" % x)
    wide += ["(parse-number %s)" % x for x in NON[2:] + ["5", "1.5"]] + ["(equal (parse-number \"12\") 12)", "(+ (parse-number \"1\") (parse-number \"2.5\"))", "(parse-number (string-append \"-\" \"7\"))"]
    ex += wide
    r.shuffle(ex)
    n = 10
    for i in range(0, len(ex), n):
        # one event for each; errors are seen as events of chk
        m.add([CHK] + ["(tr %s)" % C(x) for x in ex[i:i + n]], "numbers")
    G = ["(let ((x 0)) (tr (chk (lambda () (/ (progn (setq x 1) 5) 0)))) x)", "(block b (with-handler (lambda (e) (return-from b (list (class-of e) (arithmetic-error-operands e)))) (/ 7 0)))",
         "(block b (with-handler (lambda (e) (return-from b (list (class-of e) (arithmetic-error-operands e)))) (mod 7 0)))", "(with-handler (lambda (e) (continue-condition e 3)) (+ 1 'a))", "(with-handler (lambda (e) (continue-condition e 3)) (< 1 'a 5))"]
    for g in G:
        m.add([CHK, g])

"""Programs of streams and formatted output (C18-C20)."""
from . import ctx, gen, nums
from .ctx import CTX, fill
from .progs import NAMES, PROBE, LEAVE, LEAVE_OUT
from .progs2 import CHK, chk

LINES = ["", "abc", "a b", "line two", "日本語", "é", "x\r", "\r", "  lead", "trail ", "tab\there", "𝄞 clef", "0", "\\", "~a ~%", "a\rb", "(1 2)", "; c"]
TOKENS = ["abc", "(a b . c)", "(1 (2 3))", "\"st r\"", "#\\a", "#\\space", "12", "-7", "1.5", "'x", "#(1 2)", "()", "; note\n", "#| c |#", ":key", "|Bar z|", "nil", "t",
          "\"日本\"", "#'car", "`(a ,b)", "+5", "#2a((1 2) (3 4))", "a.b", "..", "\"two\nlines\"", "\"q\\\"q\"", "#b101", "#xff", "\"\"", "(quote x)", "#\\newline"]
BADTOK = [")", "(1 2", "\"abc", "(1 . )", "(a . b c)", "#(1", "#|", "|abc"]


def lit(t):
    return '"' + t.replace("\\", "\\\\").replace('"', '\\"') + '"'


def text(rng, kind=None):
    k = kind or rng.choice("lllltttm")
    if k == "l":
        n = rng.randrange(5)
        ls = [rng.choice(LINES) for _ in range(n)]
        return "\n".join(ls) + rng.choice(["", "\n", "\n", "\r\n", "\n\n"])
    if k == "t":
        n = rng.randrange(5)
        sep = [" ", "\n", "  ", "\t", " \n", "\r\n", ""]
        s = ""
        for _ in range(n):
            s += rng.choice(TOKENS) + rng.choice(sep[:6] if rng.random() < .9 else sep)
        if rng.random() < .12:
            s += rng.choice(BADTOK)
        elif rng.random() < .4:
            s = s.rstrip()
        return s
    return text(rng, "l") + text(rng, "t")


EOS = ["", " nil", " nil 'eos", " t", " nil 7", " 1 2"]
FMT_OPS = ["(format %D \"x~%%\")", "(format %D \"~a|~s\" %A %A)", "(format %D %L)", "(format %D \"~&y\")", "(format %D \"~&\")", "(format %D \"é~a~%%\" %A)", "(format-char %D %C)", "(format-object %D %A t)",
           "(format-object %D %A nil)", "(format-integer %D %I 10)", "(format-integer %D %I 16)", "(format-float %D %F)", "(format %D \"\")", "(format %D \"~5d~%%\" %I)", "(format-char %D #\\newline)",
           "(format %D \"a~%%~&b~&\")", "(format %D \"~a\" 'x 'y)", "(format %D \"~a\")", "(format %D 5)", "(format-char %D 5)", "(format %D \"~3%%\")"]
ATOMS = ["12", "-3", "\"s\"", "#\\a", "#\\newline", "'sym", "'(1 \"a\" #\\b)", "1.5", "\"日\"", "nil", "t", ":k", "'(a . b)", "\"q\\\"\"", "(vector 1 2)", "\"l1\nl2\"", "\"end\n\""]
CHARS = ["#\\a", "#\\newline", "#\\日", "#\\space", "#\\~"]


def fmt_op(rng, d):
    o = rng.choice(FMT_OPS).replace("%D", d)
    while "%A" in o:
        o = o.replace("%A", rng.choice(ATOMS), 1)
    o = o.replace("%C", rng.choice(CHARS)).replace("%I", rng.choice(["0", "5", "-12", "255", "1000000"])).replace("%F", rng.choice(["0.5", "2.0", "-1.25", "3", "100.0"]))
    if "%L" in o:
        o = o.replace("%L", lit(rng.choice(["pl\n", "日本", "a\nb", "\n", "r\r\n"])))
    return o.replace("%%", "%")


class Streams:
    """a random run over several streams"""

    def __init__(self, m):
        self.m, self.rng, self.u = m, m.rng, m.uid()
        self.n = 0
        self.ins, self.outs = [], []       # names of globals
        self.kind, self.open, self.file = {}, {}, {}
        self.defs = []
        self.names = ["a.txt", "b.txt", "c.lsp", "d.out"]
        self.files = [[n, text(self.rng)] for n in self.names[:self.rng.randrange(1, 4)]]
        self.have = {n for n, _ in self.files}
        self.stdin = text(self.rng)
        self.writing = set()

    def fresh(self, kind, f=None):
        self.n += 1
        g = "s%d-%d" % (self.u, self.n)
        self.kind[g], self.open[g], self.file[g] = kind, True, f
        (self.ins if kind in ("is", "fi") else self.outs).append(g)
        return g

    def busy(self, f):
        return any(self.open[g] and self.file[g] == f for g in self.kind)

    def new(self):
        r = self.rng
        k = r.choice(["is", "is", "fi", "fi", "fi", "os", "fo", "fo"])
        if k == "is":
            return "(defglobal %s (create-string-input-stream %s))" % (self.fresh("is"), lit(text(r)))
        if k == "os":
            return "(defglobal %s (create-string-output-stream))" % self.fresh("os")
        if k == "fi":
            c = [n for n in self.have if n not in self.writing]
            if c:
                f = r.choice(sorted(c))
                return "(defglobal %s (open-input-file %s))" % (self.fresh("fi", f), lit(f))
        c = [n for n in self.names if not self.busy(n)]
        if not c:
            return "(tr 'none)"
        f = r.choice(c)
        self.have.add(f)
        self.writing.add(f)
        return "(defglobal %s (open-output-file %s))" % (self.fresh("fo", f), lit(f))

    def close(self, g):
        self.open[g] = False
        if self.kind[g] == "fo":
            self.writing.discard(self.file[g])
        return "(progn (close %s) (tr 'closed))" % g

    def op(self):
        r = self.rng
        x = r.random()
        live_in = [g for g in self.ins if self.open[g]]
        live_out = [g for g in self.outs if self.open[g]]
        if x < .12 or not self.kind:
            return self.new()
        if x < .22:
            c = [g for g in live_in + live_out if self.kind[g] in ("fi", "fo")]
            if c:
                return self.close(r.choice(c))
        if x < .55:
            s = r.choice(live_in + ["(standard-input)"]) if live_in else "(standard-input)"
            f = r.choice(["read-char", "read-line", "read-line", "read"])
            if s == "(standard-input)" and r.random() < .5:
                return chk("(%s)" % f)
            o = "(%s %s%s)" % (f, s, r.choice(EOS))
            if r.random() < .15:
                o = "(list %s (%s %s nil 'e2))" % (o, r.choice(["read-char", "read-line", "read"]), s)
            if r.random() < .1 and s != "(standard-input)":
                o = "(with-standard-input %s (list (%s) (%s)))" % (s, f, r.choice(["read-char", "read-line", "read"]))
            return chk(o)
        if x < .9:
            d = r.choice(live_out + live_out + ["t", "(standard-output)", "(error-output)", "nil"]) if live_out else r.choice(["t", "(standard-output)", "(error-output)", "nil"])
            return chk(fmt_op(r, d))
        if x < .94:
            c = [g for g in live_out if self.kind[g] == "os"]
            if c:
                return chk("(get-output-stream-string %s)" % r.choice(c))
        f = r.choice(self.names + ["none.txt"])
        o = r.choice(["(probe-file %s)" % lit(f), "(if (probe-file %s) (file-length %s %s) 'no)" % (lit(f), lit(f), r.choice(["8", "1", "16", "32", "7", "12", "9", "24", "3", "64"]))])
        if f in self.writing and "length" in o:
            o = "(probe-file %s)" % lit(f)
        if r.random() < .15:
            o = r.choice(["(open-input-file \"none.txt\")", "(read-char 5)", "(read-line \"s\")", "(format 5 \"x\")", "(close 5)", "(probe-file 5)", "(file-length \"a.txt\" 0)", "(file-length 5 8)",
                          "(with-open-input-file (q \"none.txt\") (tr 'in))", "(get-output-stream-string 5)", "(create-string-input-stream 5)", "(with-standard-input 5 (tr 'in))", "(open-output-file \"no/such\")",
                          "(read (create-string-input-stream \"\"))", "(read-char (create-string-input-stream \"\") 1)", "(file-length \"a.txt\" 'x)"])
        return chk(o)

    def program(self):
        ops = [self.op() for _ in range(self.rng.randrange(6, 18))]
        calls = [CHK]
        while ops:
            k = self.rng.choice([1, 1, 1, 2, 3])
            g, ops = ops[:k], ops[k:]
            calls.append(" ".join(g) if self.rng.random() < .5 or k == 1 else "(progn %s)" % " ".join(g))
        for g in list(self.kind):
            if self.open[g] and self.kind[g] in ("fi", "fo") and self.rng.random() < .7:
                calls.append(self.close(g))
        for f in sorted(self.have - self.writing)[:2]:
            calls.append("(with-open-input-file (q %s) (let ((l nil)) (while (setq l (read-line q nil nil)) (tr 'line l))))" % lit(f))
        return {"calls": calls, "files": self.files, "stdin": self.stdin}


# forms with a hole in which a stream is open
S_FORMS = [
    "(with-open-input-file (s \"a.txt\") (tr 'l (read-line s nil 'e)) %H)",
    "(with-open-input-file (s \"a.txt\") (tr 'c (read-char s nil 'e)) %H (tr 'c (read-char s nil 'e)))",
    "(with-open-output-file (s \"o.txt\") (format s \"one~%\") %H (format s \"two~%\"))",
    "(with-open-output-file (s \"a.txt\") (format s \"new~%\") %H)",
    "(with-standard-input (create-string-input-stream \"q1\nq2\nq3\") (tr 'l (read-line)) %H (tr 'l (read-line nil nil 'e)))",
    "(with-standard-input (create-string-input-stream \"q1 q2\") (tr 'r (read)) %H)",
    "(with-open-input-file (s \"a.txt\") (with-standard-input s (tr 'l (read-line)) %H))",
    "(with-open-input-file (s \"b.txt\") (with-open-output-file (o \"o.txt\") (format o \"~a~%\" (read-line s nil 'e)) %H (format o \"~a~%\" (read-line s nil 'e))))",
    "(let ((o (create-string-output-stream))) (format o \"a\") (tr 'v %H) (format o \"b~%\") (tr 's (get-output-stream-string o)))",
    "(with-standard-input (create-string-input-stream \"z1 z2 z3\") (tr (read)) (with-standard-input (create-string-input-stream \"y1 y2\") (tr (read)) %H) (tr (read)))",
    "(with-open-input-file (s \"a.txt\") (let ((x (read-line s nil 'e))) (while (stringp x) (tr 'x x) %H (setq x (read-line s nil nil)))))",
    "(with-open-input-file (s \"none.txt\") (tr 'in) %H)",
    "(progn (format t \"col\") %H (format t \"~&next~%\"))",
    "(unwind-protect (with-open-input-file (s \"a.txt\") %H) (tr 'after (read-line (standard-input) nil 'e)))",
]
S_LEAF = ["(tr 'std (read-line (standard-input) nil 'eof))", "(tr 'n (read-char (standard-input) nil 'eof))", "(tr 'f (read-line s nil 'e))", "(format s \"leaf~%\")"]


def c19(m):
    r = m.rng
    for i in range(1000 if m.quick else 9000):
        m.add_job(Streams(m).program(), "random")
    leaves = LEAVE + S_LEAF + S_LEAF
    prods = [(f, "plain", l) for f in S_FORMS for l in leaves]
    more = [(f, c, l) for f in S_FORMS for c in NAMES for l in leaves if c != "plain"]
    two = [(f, g, l) for f in S_FORMS for g in S_FORMS for l in leaves]
    F = [["a.txt", "a1\na2\n日本\r\nlast"], ["b.txt", "b1\n\nb3\n"]]
    for f, c, l in prods + m.sample(more, 500 if m.quick else 5000) + m.sample(two, 300 if m.quick else 2500):
        c = CTX.get(c, c)
        t = fill(LEAVE_OUT, fill(f, fill(c, l)))
        if "(read-line s" in l or "(format s" in l:
            t = "(let ((s (create-string-input-stream \"out1\nout2\"))) %s)" % t if "format" not in l else "(let ((s (create-string-output-stream))) %s)" % t
        m.add_job({"calls": ctx.prelude(t) + [t, "(list (read-line (standard-input) nil 'e) (probe-file \"o.txt\"))",
                                              "(format t \"~&end\")", "(if (probe-file \"o.txt\") (with-open-input-file (q \"o.txt\") (tr (read-line q nil 'e) (read-line q nil 'e))))"],
                   "files": F, "stdin": "in1\nin2\n(in 3)\n"}, "contexts")
    # load
    LOADS = ["(tr 'l1) (defun lf%N (x) (tr 'lf x) (+ x 1)) (tr (lf%N 1))", "(defglobal lg%N 5) (tr lg%N)", "(tr 1) (car 5) (tr 2)", "(tr 1) (undef-x)", "(tr 'one)\n(tr 'two)", "",
             "(format t \"out~%\")", "(tr (read-line))", "(throw 'k 3)", "(tr 'a) (1 2", "(tr 'a) )", "(load \"in.lsp\") (tr 'back)", "(defmacro lm%N (x) (list 'list x x)) (tr (lm%N 4))",
             "(defclass <lc%N> () ((a :initarg a :accessor lc%N-a))) (tr (lc%N-a (create <lc%N> 'a 3)))", "; only a comment", "5 'x \"end\"", "(quit)", "(abort) (tr 'no)", "(host-fail \"lh\")",
             "(setf (dynamic *d*) 4)", "(tr (dynamic *d*))", "(tr 'a) \"abc", "(unwind-protect (car 7) (tr 'cl))", "(let ((x 1)) (tr x) (setq x 2) (tr x))"]
    HOW = ["(tr 'v (load \"m.lsp\"))", "(tr 'v (ignore-errors (load \"m.lsp\")))", "(block b (with-handler (lambda (c) (tr 'h) (return-from b 'left)) (load \"m.lsp\")))", "(catch 'k (load \"m.lsp\") (tr 'after))",
           "(progn (load \"m.lsp\") (load \"m.lsp\"))", "(unwind-protect (load \"m.lsp\") (tr 'c))", "(dynamic-let ((*d* 1)) (load \"m.lsp\") (tr (dynamic *d*)))", "(let ((f (lambda () (load \"m.lsp\")))) (funcall f))",
           "(load \"none.lsp\")", "(load 5)", "(with-open-input-file (s \"in.lsp\") (tr (read-line s)) (load \"m.lsp\") (tr (read-line s nil 'e)))", "(mapcar (lambda (f) (ignore-errors (load f))) '(\"m.lsp\" \"in.lsp\" \"none.lsp\"))"]
    for l in LOADS:
        for h in HOW:
            u = str(m.uid())
            m.add_job({"calls": ["(defdynamic *d* 9)", h, "(tr 'still (ignore-errors (lf%N 5)) (ignore-errors lg%N) (ignore-errors (dynamic *d*)))".replace("%N", u)],
                       "files": [["m.lsp", l.replace("%N", u)], ["in.lsp", "(tr 'inner)\n(tr 'inner2)"]], "stdin": "s1\ns2\n"}, "load")
    # lengths of files in units of all sizes
    for n in ([0, 1, 7, 9, 23, 40] if m.quick else list(range(0, 41))):
        m.add_job({"calls": ["(tr 'len (list %s))" % " ".join('(file-length "f" %d)' % k for k in ks) for ks in
                             ([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11], [12, 13, 15, 16, 17, 20, 23, 24, 25], [31, 32, 33, 48, 60, 63, 64, 65, 100, 1000])],
                   "files": [["f", "x" * n]]}, "length")
    # texts longer than the buffers
    for n in ([4095, 4096, 4098] if m.quick else [1, 63, 64, 65, 1023, 4094, 4095, 4096, 4097, 4098, 8191, 8192, 8193, 9000]):
        for ch in ["x", "日", "é"]:
            m.add_job({"calls": [
                "(with-open-output-file (o \"big\") (let ((i 0)) (while (< i 9) (format o (create-string %d #\\%s)) (format o \"~%%\") (setq i (+ i 1)))))" % (n // 9, ch),
                "(file-length \"big\" 8)",
                "(with-open-input-file (s \"big\") (let ((a (create-string %d #\\%s)) (n 0) (l nil)) (while (setq l (read-line s nil nil)) (setq n (+ n 1)) (if (string= l a) nil (tr 'differs n (length l)))) n))" % (n // 9, ch),
                "(with-open-input-file (s \"one\") (let ((l (read-line s nil 'e))) (list (length l) (string= l (create-string %d #\\%s)) (read-char s nil 'e) (read-line s nil 'e))))" % (n, ch),
                "(with-open-input-file (s \"one\") (elt (read-line s) %d))" % (n - 1),
                "(with-open-input-file (s \"tok\") (let ((l (read s nil 'e))) (list (length l) (read s nil 'e) (read-char s nil 'e))))",
                "(length (read-line))", "(read-line)", "(read-line (standard-input) nil 'e)"],
                "files": [["one", ch * n + "\nnext"], ["tok", '"' + ch * n + '" after']], "stdin": ch * n + "\nrest", "big": True}, "long")


# ---------------------------------------------------------------- C20
NUMS = ["0", "5", "-12", "255", "1000000", "-1", "7", "8", "15", "16", "1024", "99999", "2147483647", "-2147483648"]
FLS = ["0.5", "2.0", "-1.25", "100.0", "0.0625", "12345.5", "-0.5", "3.75", "1.0", "0.0", "99.9375", "9.5", "1000.25", "65535.0625", "31250.0", "-99999.5", "0.125", "2.5", "3.5"]
OBJ = ATOMS + ["\"a\\\\b\"", "#\\\"", "'|Up c|", "'sym-1", "#\\space", "'(quote x)", "'('a \"b\" #\\c)", "(create-array '(2 2) 'z)", "'(1 (2 (3 . 4)))", "(list \"x\" 'y 1.5)", "\"tab\tx\"", "'||", "'(a nil t)", "#2a((1 2) (3 4))", "(vector)", "\"\""]
BADARG = ["'u", "\"s\"", "#\\a", "'(1)", "nil"]
LITS = ["", "x", "ab", "\n", "é", " ", "col:", "end\n", "日本", "'", ",", "3"]


def directive(r):
    """(directive, argument or None, arguments for v)"""
    x = r.random()
    if x < .09:
        return "~~", []
    if x < .32:
        c = r.choice("%&&&")
        k = r.random()
        if k < .5:
            return "~" + c, []
        if k < .8:
            return "~%d%s" % (r.choice([0, 1, 2, 3]), c), []
        if k < .92:
            return "~v" + c, [r.choice(["0", "1", "2", "-1", "3"])]
        return "~#" + c, []
    c = r.choice("aasssddbxofegADXF")
    args, ps = [], []
    lo = c.lower()
    maxp = 2 if lo in "dbxofeg" else 1
    k = r.choice([0, 0, 0, 1, 1, 2, 2, 3] if maxp == 2 else [0, 0, 0, 0, 1, 1, 2])
    for i in range(k):
        y = r.random()
        if i == 0:
            if y < .7:
                ps.append(str(r.choice([0, 1, 2, 3, 5, 8, 12, 20])))
            elif y < .9:
                ps.append(r.choice("vV"))
                args.append(r.choice(["0", "3", "9", "-4", "15"]))
            else:
                ps.append("#")
        elif lo in "feg":
            ps.append(r.choice(["0", "1", "2", "3", "4", "6", "v", "10"]))
            if ps[-1] == "v":
                args.append(r.choice(["0", "2", "5", "-1"]))
        else:
            ps.append(r.choice(["'0", "'*", "'_", "'x", "48", "'-", "v", "'~", "' ", "'日", "'é"]))
            if ps[-1] == "v":
                args.append(r.choice(["48", "42"]))
    if r.random() < .03 and "v" in ps:
        args[0] = "'u"
    if r.random() < .05:
        args.append(r.choice(BADARG))
    elif lo in "as":
        args.append(r.choice(OBJ))
    elif lo in "dbxo":
        args.append(r.choice(NUMS))
    else:
        args.append(r.choice(FLS + ["3", "0", "-7", "100"]))
    return "~" + ",".join(ps) + c, args


def fmt_string(r):
    s, args = "", []
    for _ in range(r.randrange(1, 6)):
        if r.random() < .35:
            s += r.choice(LITS)
        else:
            d, a = directive(r)
            s += d
            args += a
    y = r.random()
    if y < .06 and args:
        args.pop(r.randrange(len(args)))
    elif y < .12:
        args.append(r.choice(OBJ))
    elif y < .15:
        s += r.choice(["~q", "~3z", "~1,2,3d", "~1,2,3f", "~:a", "~@a", "~c", "~r", "~t", "~p", "~(", "~i", "~1,1,1,1x"])
        args.append("5")
    return s, args


def out_op(r, d):
    y = r.random()
    if y < .72:
        s, a = fmt_string(r)
        return "(format %s %s%s)" % (d, lit(s), "".join(" " + x for x in a))
    if y < .82:
        return "(format-object %s %s %s)" % (d, r.choice(OBJ), r.choice(["t", "nil", "'yes", "0"]))
    if y < .88:
        return "(format-integer %s %s %s)" % (d, r.choice(NUMS), r.choice(["2", "8", "10", "16", "36", "3", "1", "37", "0", "'u"]))
    if y < .94:
        return "(format-char %s %s)" % (d, r.choice(CHARS + ["#\\z"]))
    return "(format-float %s %s)" % (d, r.choice(FLS + ["3"]))


def c20(m):
    r = m.rng
    pairs = []
    # every directive with every shape of parameters
    for c in "asdboxfegASDBOXFEG":
        for p in ["", "0", "1", "6", "12", "v", "#", "6,2", "9,0", "9,3", "9,'0", "9,'*", "9,'é", "9,48", "v,v", "#,2", "9,#", "12,v", "'A", "9,2,1", "6,", ",3", "v,2"]:
            for a in (["12", "-7", "0", "2147483647", "-9223372036854775808", "1234567890123456789", "1.5", "'u"] if c.lower() in "dbox" else ["1.5", "-0.0625", "12345.5", "7", "0.0", "99999.9375", "'u", "0.1", "-1e21", "5e-324", "123456789012345678", "-0.0", "1.7976931348623157e308", nums.rnd_float(r)] if c.lower() in "feg" else
                      ["\"s\\\"q\"", "#\\newline", "'(1 \"a\" . #\\b)", "'|A b|", "-7", "nil", "\"日é\"", "(vector 1)"]):
                v = [str(r.choice([0, 2, 4, 11])) for x in p if x == "v"]
                f = "(format nil \"<~%s%s>\" %s)" % (p, c, " ".join(v + [a]))
                g = "(format t \"<~%s%s>~%%\" %s)" % (p, c, " ".join(v + [a]))
                pairs.append((f, g))
    for _ in range(250 if m.quick else 6000):
        c, a = r.choice("asdboxfegfeg"), r.choice([nums.rnd_num, nums.rnd_float])(r)
        if c in "dbox" and r.random() < .7:
            a = nums.rnd_int(r)
        f = "(format %%s \"<~%s%s>\" %s)" % (r.choice(["", "", "0,%d" % r.choice([0, 1, 2, 3, 5, 10, 15, 16, 17, 18, 20, 25]), "24", "30,8"]), c, a)
        if r.random() < .2:
            f = r.choice(["(format-integer %%s %s %s)" % (nums.rnd_num(r), r.choice([2, 3, 7, 8, 10, 16, 20, 32, 35, 36])), "(format-float %%s %s)" % nums.rnd_num(r), "(format-object %%s %s t)" % nums.rnd_num(r)])
        pairs.append((f % "nil", f % "t"))
    pairs = m.sample(pairs, 1100 if m.quick else len(pairs))
    for i in range(0, len(pairs), 3):
        m.add([CHK] + [chk(f) + " " + chk(g) for f, g in pairs[i:i + 3]], "directives")
    # column tracking: what was written before x how
    W = ["", "(format %D \"\")", "(format %D \"x\")", "(format %D \"x~%\")", "(format-char %D #\\a)", "(format-char %D #\\newline)", "(format-object %D \"a\n\" nil)", "(format-object %D \"a\n\" t)", "(format-object %D '(\"\n\") nil)",
         "(format-integer %D 5 10)", "(format-float %D 1.5)", "(format %D \"~a\" \"q\n\")", "(format %D \"~s\" \"q\n\")", "(format %D \"~s\" #\\newline)", "(format %D \"~a\" #\\newline)", "(format %D \"~~\")", "(format %D \"~&\")", "(format %D \"~%\")",
         "(format %D \"~0%\")", "(format %D \"~5a\" \"q\n\")", "(format %D \"~3d\" 5)", "(ignore-errors (format %D \"abc~d\" 'u))", "(ignore-errors (format %D \"abc~%~d\" 'u))", "(ignore-errors (format %D \"ab~a\"))", "(format %D \"~a\" '|a\nb|)",
         "(format %D \"~a\" \"\")", "(format-object %D \"\" nil)", "(format %D \"é\")", "(format %D \"\n\")", "(format %D \"~d\" 3)", "(format %D \"~5,2f\" 3.5)", "(format %D \"~a\" '(1 2))", "(format %D \"~a\" (vector 1 \"\n\"))", "(format %D \"~3&\")"]
    DEST = [("t", None), ("(standard-output)", None), ("(error-output)", None), ("o", "(let ((o (create-string-output-stream))) %B (get-output-stream-string o))"),
            ("o", "(progn (with-open-output-file (o \"f\") %B) (with-open-input-file (q \"f\") (let ((l nil)) (while (setq l (read-line q nil nil)) (tr 'l l)))))")]
    OTHER = ["", "(format t \"o\")", "(format nil \"o\")", "(format (error-output) \"e~%\")", "(format (standard-output) \"~%\")", "(let ((o2 (create-string-output-stream))) (format o2 \"zz\"))", "(tr 'ev)", "(get-output-stream-string o)"]
    combos = [(a, x, b, d) for a in W for x in OTHER for b in W for d in DEST if not (x.startswith("(get") and d[0] != "o") and not (x.startswith("(get") and "\"f\"" in (d[1] or ""))]
    for a, x, b, d in m.sample(combos, 700 if m.quick else len(combos)):
        body = " ".join(z.replace("%D", d[0]) for z in (a, x, b, "(format %D \"~&|\")", "(format %D \"~2&|\")") if z)
        m.add_job({"calls": [(d[1] or "(progn %B)").replace("%B", body), "(format t \"~&t\")", "(format (error-output) \"~&e\")"], "files": [], "stdin": ""}, "columns")
    # runs of output to several destinations
    for i in range(900 if m.quick else 9000):
        body = []
        for _ in range(r.randrange(3, 10)):
            d = r.choice(["t", "t", "o", "o", "p", "nil", "(standard-output)", "(error-output)"])
            k = chk(out_op(r, d))
            if r.random() < .08:
                k = "(tr 'got (get-output-stream-string %s))" % r.choice("op")
            body.append(k)
        n = r.randrange(len(body))
        t = "(let ((o (create-string-output-stream)) (p (create-string-output-stream))) %s (tr (get-output-stream-string o)) (tr (get-output-stream-string p)))" % " ".join(body)
        m.add([CHK, t, "(format t \"~&z\") (format (error-output) \"~&z\")"], "runs")

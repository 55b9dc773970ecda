"""Programs of printing and reading back (C18)."""
from . import nums
from .progs2 import CHK

ODD = [9, 10, 11, 12, 13, 32, 0, 1, 7, 8, 27, 31, 34, 35, 39, 40, 41, 44, 46, 48, 59, 64, 92, 96, 97, 65, 124, 126, 127, 128, 133, 160, 173, 192, 215, 233, 247, 955, 0x3042, 0x3000, 0x2028, 0x200b, 0xfeff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1d11e, 0x1f600, 0x10ffff, 0x4e9c, 0xd7ff, 0x661, 0x1680]
NAMES = ["a", "abc", "A", "Abc", "a b", "", " ", "1", "-1", "+1", "1.5", "1e5", "-", "+", "1+", "1-", "+a", "-5x", ".", "..", "...", "a.b", ".5", "5.", "#", "##", "#a", "#x", "#x1f", "#(", "#\\a", "#|", "|#", "a#", "a#b", "|", "||", "a|b", "\\", "a\\b", "\\|", "'", "'a", "a'", "`", ",", ",@", "@", "a,b", ";", "a;b",
         "(", ")", "()", "(a)", "\"", "a\"b", ":", ":a", "a:b", "::", "&", "&a", "&rest", "nil", "t", "NIL", "T", "Nil", "nilx", "tt", "quote", "a\nb", "a\tb", "\n", "日本", "é", "日 本", "é|", "λx", "*x*", "<c>", "=", "/=", "<=", "0", "00", "0x", "1a", "1e", "e1", "1e+", "+e1", "-0", "+-1", "1/2", "!", "?", "$", "%", "^", "_", "{", "}", "[", "]", "~", "\u3000",
         "\u00a0", "a\u3000b", "-.5", "1.e5", "1.5e-3", "#b1", "#o8", "#b2", "#xg", "2a", "unquote", "quasiquote", "function"]
STRS = ["", "a", "abc", "\"", "\\", "\\\"", "\"\\\"\"", "a\nb", "\n", "\t", "\r\n", "; no", "#| |#", "日本語", "é\u0301", "𝄞", "\\n", "~a~%", "()", "'", "|", " ", "a b", "\x00", "\x7f", "\\\\", "end\\", "nil", "\u2028"]
KEYS = [":a", ":key", ":Abc", ":a-b", ":1", ":日本", ":a.b", ":<x>", "&rest", "&body", ":rest"]
PLAIN = ["a", "b", "abc", "x1", "a-b", "+", "1+", "car", "quote", "lambda", "<c>", "日本", "*v*"]


def lit(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def bar(s):
    return "|" + s.replace("\\", "\\\\").replace("|", "\\|") + "|"


def atom(r):
    """an expression for a value"""
    o = r.random()
    if o < .14:
        return r.choice([nums.rnd_int(r), "0", "1", "-7", "42"])
    if o < .28:
        return r.choice([nums.rnd_float(r, 8), nums.rnd_float(r, 20), "3.5", "100.25", "1.0", "0.5", "-2.25"])
    if o < .42:
        return "(convert %d <character>)" % r.choice(ODD + [r.randrange(0x250), r.randrange(0x3040, 0x3096), r.randrange(33, 127)])
    if o < .56:
        return lit(r.choice(STRS) if r.random() < .5 else "".join(r.choice(STRS + ["a", "x y"]) for _ in range(r.randrange(4))))
    if o < .68:
        s = r.choice(NAMES)
        if r.random() < .2:
            s += r.choice(NAMES)
        if s.lower() in ("nil", "t") or s == "":
            s = "q" + s
        return "(convert %s <symbol>)" % lit(s)
    if o < .76:
        return r.choice(KEYS)
    if o < .84:
        return r.choice(["nil", "t", "'()"])
    return "'" + r.choice(PLAIN)


def value(r, d):
    o = r.random()
    if d == 0 or o < .2:
        return atom(r)
    if o < .5:
        return "(list %s)" % " ".join(value(r, d - 1) for _ in range(r.choice([0, 1, 1, 2, 3, 4])))
    if o < .6:
        return "(cons %s %s)" % (value(r, d - 1), value(r, d - 1))
    if o < .7:
        return "(list '%s %s)" % (r.choice(["quote", "quasiquote", "unquote", "function", "quote"]), " ".join(value(r, d - 1) for _ in range(r.choice([0, 1, 1, 1, 2]))))
    if o < .75:
        return "(cons 'quote %s)" % value(r, d - 1)
    if o < .9:
        return "(vector %s)" % " ".join(value(r, d - 1) for _ in range(r.choice([0, 1, 2, 3])))
    rank = r.choice([2, 2, 3])
    dims = [r.choice([1, 2, 2, 3]) for _ in range(rank)]
    n = 1
    for x in dims:
        n *= x
    sets = " ".join("(set-aref %s a %s)" % (value(r, max(0, d - 2)), " ".join(str(r.randrange(x)) for x in dims)) for _ in range(min(n, 4)))
    return "(let ((a (create-array '(%s) %s))) %s a)" % (" ".join(map(str, dims)), atom(r), sets)


def const(r, d):
    """a constant in the text of the program"""
    o = r.random()
    if d == 0 or o < .35:
        return r.choice([nums.rnd_num(r), r.choice(KEYS), r.choice(PLAIN), lit(r.choice(STRS)), r.choice(["nil", "t", "()"]), "#\\" + r.choice(["a", "Z", "space", "newline", "tab", "return", "(", "1", "日", ";", "é"])])
    if o < .65:
        return "(%s)" % " ".join(const(r, d - 1) for _ in range(r.choice([0, 1, 2, 3])))
    if o < .75:
        return "(%s . %s)" % (const(r, d - 1), const(r, d - 1))
    if o < .85:
        return "'" + const(r, d - 1)
    return "#(%s)" % " ".join(const(r, d - 1) for _ in range(r.choice([0, 1, 2, 3])))


BACK = "(let* ((v %V) (s (format nil \"~s\" v))) (tr s) (tr (chk (lambda () (let* ((i (create-string-input-stream s)) (w (read i))) (tr w (equal v w) (equal w v)) (tr (string= s (format nil \"~s\" w)) (format nil \"~a\" v) (format nil \"~a\" w)) (read i nil 'end))))))"
VIA = "(let* ((v %V)) (with-open-output-file (o \"f\") (format-object o v t) (format o \"~%\") (format o \"~s ~a~%\" v v)) (tr (chk (lambda () (with-open-input-file (i \"f\") (let* ((a (read i)) (b (read i))) (tr a b (equal a v) (equal a b)))))) (with-open-input-file (i \"f\") (read-line i nil 'none))))"
OUT = "(let* ((v %V) (o (create-string-output-stream))) (tr (eql (read (create-string-input-stream \"()\")) nil)) (format-object o v t) (format o \" \") (format-object o v nil) (format o \" ~s\" v) (tr (get-output-stream-string o)) (format t \"~s|~a\" v v))"


def c18(m):
    r = m.rng
    one = []
    one += ["(convert %d <character>)" % c for c in ODD]
    one += [lit(s) for s in STRS] + [k for k in KEYS] + ["nil", "t", "(list)", "(vector)", "(list nil)", "(vector nil)", "(cons nil nil)", "(list 'quote)", "(list 'quote nil)", "(list 'quote 'a 'b)", "(cons 'quote 'a)", "''a", "'''a", "'(quote . a)"]
    one += ["(convert %s <symbol>)" % lit(s) for s in NAMES if s.lower() not in ("nil", "t", "")]
    one += ["'" + bar(s) for s in NAMES if s.lower() not in ("nil", "t")]
    one += nums.BIG + nums.WIDE
    r.shuffle(one)
    for i in range(0, len(one), 3):
        m.add([CHK] + [BACK.replace("%V", v) for v in one[i:i + 3]], "atoms")
    for i in range(0, len(one), 5):
        v = "(list %s)" % " ".join(one[i:i + 5])
        m.add_job({"calls": [CHK, BACK.replace("%V", v), VIA.replace("%V", v)], "files": [["f", ""]]}, "lists of atoms")
    for i in range(200 if m.quick else 12000):
        m.add([CHK] + [BACK.replace("%V", nums.rnd_float(r, r.choice([3, 10, 10, 20, 40, 40])) if r.random() < .7 else nums.rnd_int(r)) for _ in range(2)], "numbers")
    for i in range(900 if m.quick else 20000):
        v = value(r, r.choice([1, 2, 2, 3, 3, 4]))
        o = r.random()
        if o < .6:
            m.add([CHK, BACK.replace("%V", v)], "values")
        elif o < .75:
            m.add_job({"calls": [CHK, VIA.replace("%V", v)], "files": [["f", "x"]]}, "values through files")
        elif o < .9:
            m.add([CHK, OUT.replace("%V", v)], "texts")
        else:
            m.add([CHK, BACK.replace("%V", "'" + const(r, r.choice([1, 2, 3])))], "constants")

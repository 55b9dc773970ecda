"""C17: texts generated by TLC from Reader.tla, and random ones, read by the implementation."""
import json
import os
import random
import subprocess
from concurrent.futures import ThreadPoolExecutor

from . import nums, run

cp = lambda s: [ord(c) for c in s]
ALPHABETS = [  # alphabet, length (quick), length (thorough)
    ("()'a. \"\\", 5, 7),
    ("()1. \n", 6, 8),
    ("#|()\\a1\n;", 5, 6),
    ("+-10.e x#", 5, 6),
    ("`,@'#(a2)", 5, 6),
    ("#2a() 1", 6, 7),
    ("#\\s U4(", 6, 7),
    ("|\\a\"( ", 6, 8),
    (";#|\na\"", 6, 8),
    (":&tTnil ", 5, 6),
    ("\t\r\x0b\u3000\u00a0a(\u00e9", 4, 6),
]

WORDS = ["a", "abc", "car", "x1", "1+", "-", "+", "*", "<=", "<integer>", "nil", "T", "NIL", "t", "&rest", ":key", ":rest", "a.b", "..", "...", "a-b", "*dyn*", "1-", "-a", "+a", "a#b", "set!", "\u3042\u3044", "\u00e9t\u00e9", "=", "/=", "1a", "0x", "e5", "1e", "-.", "a:b", "=>"]
NUMS = ["0", "1", "-1", "+1", "42", "-0", "007", "123456789", "1234567890", "99999999999999999999", "-123456789012345678901", "1.5", "-0.25", "+2.0", "1e2", "1.5e-1", "10E+1", "3.14159", "1e10", "0.0", "123.456", "#xff", "#XfF", "#b101", "#o17", "#x-1f", "#b+1", "2147483648", "1.0e0", "12345.0625"]
CHRS = ["#\\a", "#\\Z", "#\\space", "#\\newline", "#\\linefeed", "#\\tab", "#\\return", "#\\SPACE", "#\\Tab", "#\\(", "#\\)", "#\\;", "#\\\"", "#\\'", "#\\1", "#\\|", "#\\#", "#\\\\", "#\\ ", "#\\\n", "#\\U41", "#\\U0041", "#\\U3042", "#\\U", "#\\u", "#\\foo", "#\\ab", "#\\\u3042", "#\\,", "#\\`", "#\\.", "#\\U1F600", "#\\Ug", "#\\spac", "#\\Uff"]
SPACES = [" ", "  ", "\n", "\t", "\r\n", " \n ", "\f", "\u3000", ";c\n", " ; c ) ( \" \n", "#|x|#", " #| a #| ( |# \" |# ", "#||#", "#|##|#", "#|||#", "\n;\n", ";#|\n"]


def rnd_numlit(r):
    k = r.randrange(5)
    if k == 0:
        return nums.rnd_int(r)
    if k == 1:
        return nums.rnd_float(r)
    if k == 2:  # a number in another base, around 64 bits too
        n = r.choice([int(nums.rnd_int(r)), (1 << 63) + r.randrange(-2, 3), -(1 << 63) + r.randrange(-2, 3), r.getrandbits(70)])
        c = r.choice("xob")
        return "#" + r.choice([c, c.upper()]) + ("-" if n < 0 else r.choice(["", "+"])) + r.choice(["", "", "0", "00"]) + format(abs(n), c if r.random() < .7 or c != "x" else "X")
    if k == 3:  # many digits
        d = "".join(r.choice("0123456789") for _ in range(r.choice([3, 8, 17, 18, 19, 20, 30])))
        return r.choice(["", "-", "+"]) + d + "." + "".join(r.choice("0123456789") for _ in range(r.choice([1, 2, 5, 17, 30]))) + r.choice(["", "", "e%d" % r.randrange(-330, 300), "E+%d" % r.randrange(20)])
    return r.choice(["", "-", "+"]) + str(r.randrange(10 ** r.choice([1, 3, 10]))) + r.choice(["e", "E"]) + r.choice(["", "-", "+"]) + str(r.randrange(r.choice([5, 30, 320])))


def rnd_form(r, d):
    o = r.random()
    if d <= 0 or o < .35:
        o = r.random()
        if o < .3:
            return r.choice(WORDS)
        if o < .55:
            return r.choice(NUMS) if r.random() < .85 else rnd_numlit(r)
        if o < .7:
            return r.choice(CHRS)
        if o < .85:
            return '"' + "".join(r.choice(["a", " ", "\\\"", "\\\\", "(", ")", ";", "'", "|", "#|", "\n", "\\n", "\u3042", "#", ",", "~a"]) for _ in range(r.choice([0, 1, 2, 3, 6]))) + '"'
        return "|" + "".join(r.choice(["a", " ", "\\|", "\\\\", "(", ")", ";", "'", "\"", "#", "\n", "A", ".", "1"]) for _ in range(r.choice([0, 1, 2, 3]))) + "|"
    sp = lambda: "".join(r.choice(SPACES) for _ in range(r.choice([1, 1, 1, 2]))) if r.random() < .4 else r.choice([" ", " ", " ", "\n"])
    osp = lambda: sp() if r.random() < .25 else ""
    seq = lambda n: osp() + "".join(rnd_form(r, d - 1) + sp() for _ in range(n)) + osp()
    if o < .7:
        return "(" + seq(r.choice([0, 1, 1, 2, 3, 4])) + ")"
    if o < .76:
        return "(" + seq(r.choice([1, 2])) + "." + sp() + rnd_form(r, d - 1) + osp() + ")"
    if o < .84:
        return r.choice(["'", "`", ",", "#'", "''", "'`", "`(a ,", "' "]) + rnd_form(r, d - 1)
    if o < .9:
        return "#(" + seq(r.choice([0, 1, 2, 3])) + ")"
    rank = r.choice([1, 2, 2, 2, 3])
    dims = [r.choice([0, 1, 2, 2, 3]) for _ in range(rank)]

    def arr(k):
        if k == rank - 1:
            return "(" + seq(dims[k]) + ")"
        return "(" + osp() + osp().join(arr(k + 1) for _ in range(dims[k] if r.random() < .95 else r.choice([0, 1, 2, 3]))) + osp() + ")"
    if r.random() < .12:
        return "#%s%s" % (r.choice(["0", "00", "01", "02", "9", "10", "256", "257", "300", "99999999999999999999", "-1", "+1", "1.0", ""]), r.choice("aA")) + arr(0)
    return "#%d%s" % (rank, r.choice("aA")) + arr(0)


def rnd_text(r):
    n = r.choice([1, 1, 2, 3])
    t = ""
    for _ in range(n):
        t += r.choice(SPACES + ["", ""]) + rnd_form(r, r.choice([0, 1, 2, 3])) + r.choice([" ", "\n", "", "", " "])
    if r.random() < .15:
        t += r.choice(SPACES)
    o = r.random()
    if t and o < .35:  # mutations
        for _ in range(r.choice([1, 1, 2])):
            i = r.randrange(len(t))
            k = r.random()
            if k < .3:
                t = t[:i] + t[i + 1:]
            elif k < .6:
                t = t[:i] + r.choice(list("()'\"#|;,`. \\1a@\n:&") + ["#\\", "#|", "|#", "#(", "#'", ". "]) + t[i:]
            elif k < .8:
                t = t[:i]
            else:
                j = r.randrange(len(t))
                t = t[:min(i, j)] + t[max(i, j):]
            if not t:
                break
    return t[:400]


def conv(v):
    """a form of Reader.tla in the external encoding; None: not specified"""
    k = v[0]
    if k in ("i", "f", "c", "str", "I", "F"):
        return v
    if k == "big":
        return [k, "".join(map(chr, v[1]))]
    if k in ("y", "k"):
        return ["s" if k == "y" else "k", "".join(map(chr, v[1]))]
    if k == "nil":
        return ["s", "nil"]
    if k == "t":
        return ["s", "t"]
    if k == "l":
        return ["l", [conv(x) for x in v[1]], conv(v[2])]
    if k == "a":
        return ["a", v[1], [conv(x) for x in v[2]]]
    raise ValueError(v)


def match(want, got):
    if type(want) is not list or type(got) is not list or not want or not got:
        return want == got
    if want == ["F"]:
        return got[0] in ("f", "F")
    if want[0] == "big":
        return want[1] == got[-1]
    return len(want) == len(got) and all(match(a, b) for a, b in zip(want, got))


def read_all(texts, nproc=None):
    exe = run.build("read")
    nproc = nproc or run.NCPU
    res = [None] * len(texts)

    def go(k):
        idx = list(range(k, len(texts), nproc))
        hangs = 0
        while idx:
            data = "\n".join(json.dumps(texts[i]) for i in idx).encode()
            p = subprocess.run([exe], input=data, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=800)
            lines = p.stdout.splitlines()
            for i, l in zip(idx, lines):
                res[i] = json.loads(l)
            idx = idx[len(lines):]
            if not idx:
                break
            if p.returncode != 0:
                res[idx[0]] = {"f": [], "e": "crash %d" % p.returncode}
                idx = idx[1:]
            hangs += 1
            if hangs > 8:
                break
    with ThreadPoolExecutor(nproc) as ex:
        list(ex.map(go, range(nproc)))
    return res


def spec_texts(conf, n, workers=2):
    path = os.path.join(run.scratch(), "reader-%d.json" % n)
    with open(path, "w") as f:
        json.dump(conf, f)
    msgs, text, gen, dis, rc = run.tlc("ReaderGen", "ReaderGen.cfg", env={"CASES": path}, workers=workers, xmx="6g" if conf["len"] > 6 else "2g")
    if rc != 0:
        raise run.ToolError("TLC on ReaderGen: " + text[-2000:])
    return msgs, gen, dis


def c17(rep):
    r = random.Random("C17-%d" % rep.seed)
    quick = rep.tier != "thorough"
    confs = [{"alphabet": cp(a), "len": q if quick else t, "texts": []} for a, q, t in ALPHABETS]
    texts = [[]] if False else []
    for w in WORDS + NUMS + CHRS:
        for tail in ["", " ", ")", "(", "'", "\"x\"", ";"]:
            texts.append(w + tail)
    for a in SPACES:
        for b in ["a", "(a", "'a", "\"s\"", "#(1)", ""]:
            for c in SPACES[:13] + [""]:
                texts.append(b + a + "b" + c if b else a + c)
    n = 6000 if quick else 150000
    texts += [x + r.choice(["", " ", ")"]) for x in nums.BIG + nums.WIDE] + [rnd_numlit(r) for _ in range(350 if quick else 12000)]
    while len(texts) < n:
        texts.append(rnd_text(r))
    texts = [cp(t) for t in texts]
    k = 4 if quick else 24
    confs += [{"alphabet": [], "len": 0, "texts": texts[i::k]} for i in range(k)]
    nspec = nimpl = unspec = 0
    ends = {}
    with ThreadPoolExecutor(4 if quick else 3) as ex:
        for n, (msgs, gen, dis) in enumerate(ex.map(lambda x: spec_texts(x[1], x[0]), enumerate(confs))):
            rep.add(states=dis, transitions=gen)
            msgs = [m for m in msgs if m[0] != 0 or confs[n]["len"]]
            got = read_all([m[1] for m in msgs])
            bad = []
            for m, g in zip(msgs, got):
                ends[m[3]] = ends.get(m[3], 0) + 1
                if g is None:
                    continue
                if g["e"].startswith("crash") or g["e"] == "hang":
                    bad.append((m, g))
                    continue
                if g.get("alt"):
                    bad.append((m, g))
                    continue
                if m[3] == "?":
                    unspec += 1
                    continue
                nimpl += 1
                if m[3] != g["e"] or len(m[2]) != len(g["f"]) or not all(match(conv(a), b) for a, b in zip(m[2], g["f"])):
                    bad.append((m, g))
            bad.sort(key=lambda x: len(x[0][1]))
            for m, g in bad[:2]:
                t = "".join(map(chr, m[1]))
                rep.violation(json.dumps(t), "text %s: the specification reads %s, the implementation %s" % (json.dumps(t), json.dumps([[conv(x) for x in m[2]] if m[3] != "?" else "anything", m[3]])[:300], json.dumps(g)[:300]),
                              {"text": t, "expected": m[2:], "got": g})
            if n in (0, 4, len(confs) - 1):
                for m, g in list(zip(msgs, got))[len(msgs) // 2:][:1]:
                    rep.cov["samples"].append({"text": "".join(map(chr, m[1])), "specification": m[2:], "implementation": g})
    rep.add(traces_validated_against_impl=nimpl, texts_not_specified=unspec, verdicts=ends, alphabets=[[a, q if quick else t] for a, q, t in ALPHABETS])

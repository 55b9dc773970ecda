"""Reading Lisp text into the cells of a case for the TLA+ specification (independently of gmnlisp's reader)."""
import json
import math
import re


class S(str):
    """symbol"""
    __slots__ = ()


class K(str):
    """keyword (with the colon)"""
    __slots__ = ()


class Fl:
    """float"""
    __slots__ = ("x",)

    def __init__(self, x):
        self.x = x


def cps(s):
    return [ord(c) for c in s]


def num(x):
    """the encoding of a number of Num.tla"""
    if isinstance(x, int):
        if abs(x) < 1 << 31:
            return ["i", x]
        if not -(1 << 63) <= x < 1 << 63:
            raise ValueError("big integer")
        return ["I", cps(str(x))]
    if math.isinf(x) or math.isnan(x):
        raise ValueError("float")
    n, d = x.as_integer_ratio()
    neg = math.copysign(1, x) < 0
    if 16 % d == 0 and abs(n) * (16 // d) < 1 << 31 and not (x == 0 and neg):
        return ["f", n * (16 // d)]
    n, e = abs(n), 1 - d.bit_length()
    while n and n % 2 == 0:
        n, e = n // 2, e + 1
    return ["F", cps("-" * neg + str(n)), e]


class Ch:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c


class Arr:
    def __init__(self, dims, elems):
        self.dims, self.elems = dims, elems


class Dot:
    def __init__(self, items, tail):
        self.items, self.tail = items, tail


CHARS = {"tab": 9, "linefeed": 10, "newline": 10, "return": 13, "space": 32}
TOKEN = re.compile(r"""\s*(?:;[^\n]*\n\s*)*(?:
  (?P<str>"(?:[^"\\]|\\.)*")|
  (?P<chr>\#\\(?:[A-Za-z0-9]+|.))|
  (?P<arr>\#(?:(?P<rank>\d+)[aA])?(?=\())|
  (?P<fn>\#')|
  (?P<bar>\|(?:[^|\\]|\\.)*\|)|
  (?P<uqs>,@)|
  (?P<p>[()'`,])|
  (?P<atom>[^\s()'`,"|;]+)
)""", re.X | re.S)


def tokens(text):
    pos, n = 0, len(text)
    while pos < n:
        m = TOKEN.match(text, pos)
        if not m:
            if text[pos:].strip() == "" or re.match(r"\s*(;[^\n]*(\n|$)\s*)*$", text[pos:]):
                return
            raise ValueError("token at %r" % text[pos:pos + 40])
        yield m
        pos = m.end()


def atom(s):
    if re.fullmatch(r"[-+]?\d+", s):
        return int(s)
    if re.fullmatch(r"[-+]?\d+(\.\d+([eE][-+]?\d+)?|[eE][-+]?\d+)", s):
        return Fl(float(s))
    if s[0] in ":&" and len(s) > 1:
        return K(s)
    if s.lower() == "nil":
        return S("nil")
    if s == "t":
        return S("t")
    return S(s)


def nest(x, d):
    return [len(x)] + (nest(x[0], d - 1) if d > 1 else []) if d else []


def flat(x, d):
    if d == 0:
        return [x]
    r = []
    for y in x:
        r += flat(y, d - 1)
    return r


def read_all(text):
    toks = list(tokens(text))
    i = 0

    def one():
        nonlocal i
        m = toks[i]
        i += 1
        k = m.lastgroup if m.lastgroup != "rank" else "arr"
        if m.group("str") is not None:
            return re.sub(r"\\(.)", r"\1", m.group("str")[1:-1], flags=re.S)
        if m.group("chr") is not None:
            b = m.group("chr")[2:]
            if len(b) == 1:
                return Ch(ord(b))
            if b.lower() in CHARS:
                return Ch(CHARS[b.lower()])
            raise ValueError("char " + b)
        if m.group("arr") is not None:
            rank = int(m.group("rank") or 1)
            x = one()
            return Arr(nest(x, rank), flat(x, rank))
        if m.group("fn") is not None:
            return [S("function"), one()]
        if m.group("bar") is not None:
            return S(re.sub(r"\\(.)", r"\1", m.group("bar")[1:-1]))
        if m.group("uqs") is not None:
            return [S("unquote"), S("@" + one())]
        p = m.group("p")
        if p == "'":
            return [S("quote"), one()]
        if p == "`":
            return [S("quasiquote"), one()]
        if p == ",":
            return [S("unquote"), one()]
        if p == "(":
            items = []
            while toks[i].group("p") != ")":
                if toks[i].group("atom") == ".":
                    i += 1
                    t = one()
                    assert toks[i].group("p") == ")"
                    i += 1
                    return Dot(items, t)
                items.append(one())
            i += 1
            return items
        if p == ")":
            raise ValueError("unexpected )")
        return atom(m.group("atom"))

    r = []
    while i < len(toks):
        r.append(one())
    return r


class Flat:
    """the cells of the forms of one program"""

    def __init__(self):
        self.cells = []
        self.syms = {}

    def val(self, x):
        if isinstance(x, bool):
            raise ValueError
        if isinstance(x, S):
            self.syms[str(x)] = [ord(c) for c in x]
            return ["s", str(x)]
        if isinstance(x, K):
            self.syms[str(x)] = [ord(c) for c in x]
            return ["k", str(x)]
        if isinstance(x, int):
            return num(x)
        if isinstance(x, Fl):
            return num(x.x)
        if isinstance(x, Ch):
            return ["c", x.c]
        if isinstance(x, str):
            if not x.isascii():
                self.syms[x] = [ord(c) for c in x]
            return ["str", [ord(c) for c in x]]
        if isinstance(x, Arr):
            e = [self.val(y) for y in x.elems]
            self.cells.append(["arr", x.dims, e])
            return ["p", len(self.cells)]
        items, tail = (x.items, x.tail) if isinstance(x, Dot) else (x, None)
        if not items:
            return ["s", "nil"]
        base = len(self.cells)
        for _ in items:
            self.cells.append(None)
        for j, y in enumerate(items):
            v = self.val(y)
            last = j == len(items) - 1
            self.cells[base + j] = ["cons", v, (["s", "nil"] if tail is None else self.val(tail)) if last else ["p", base + j + 2]]
        return ["p", base + 1]


CAP = 600


def cut(trace):
    """the beginning of a trace which is too long or too big to be checked as a whole"""
    size = 0
    for i, e in enumerate(trace):
        t = json.dumps(e)
        n = len(t)
        size += n
        if i >= CAP or n > (500000 if e[0] == "files" else 6000) or '["deep"]' in t or size > 60000 and e[0] != "files":
            return trace[:i] + [["cut"]]
    return trace


def narrow(trace, calls):
    """the trace without what is not specified of these calls"""
    r, k = [], 0
    for e in trace:
        if k in calls and e[0] in ("out", "eout"):
            e = [e[0], e[1][-1:]]
        elif k in calls and e[0] == "ev":
            continue
        elif k in calls and e[:2] == ["res", "val"]:
            e = ["res", "val", ["any"]]
        if e[0] == "files":
            continue
        r.append(e)
        if e[0] == "res":
            k += 1
    return r


def case(pid, calls, trace, fuel=20000, extra=None, job=None):
    f = Flat()
    groups = []
    for i, c in enumerate(calls):
        groups.append([["sx"]] if job and i in job.get("bad", ()) else [["any"]] if job and i in job.get("any", ()) else [f.val(x) for x in read_all(c)])
    argv = f.val(job["argv"]) if job and "argv" in job else ["s", "nil"]
    d = {"id": pid, "cells": f.cells, "groups": groups, "trace": cut(trace), "syms": dict(f.syms, nil=[110, 105, 108]), "fuel": fuel,
         "files": [], "hasfiles": False, "stdin": [], "views": [], "redef": False, "cli": False, "argv": ["s", "nil"], "timed": False}
    if job and job.get("any"):
        d["trace"] = cut(narrow(trace, set(job["any"])))
        d["timed"] = "timeout" in job
    elif job:
        if job.get("files") is not None:
            d["hasfiles"] = "argv" not in job
            d["files"] = [[[ord(c) for c in n], [ord(c) for c in t]] for n, t in job["files"]]
            d["stdin"] = [ord(c) for c in job.get("stdin", "")]
        if "argv" in job:
            d["cli"], d["argv"] = True, argv
        d["redef"] = bool(job.get("worlds"))
        d["views"] = job.get("views", [])
    if extra:
        d.update(extra)
    return d

------------------------------ MODULE LispCore ------------------------------
(* The evaluator of gmnlisp as an abstract machine, checked against traces.   *)
(* A state of the machine evaluates a form ("ev"), returns a value ("rt"),    *)
(* transfers control outwards ("un"), looks for a handler of a condition      *)
(* ("sig") or is between two top level forms ("top"). m.k is the continuation, *)
(* a linked list of frames, m.hs the handlers in force, m.dyn the dynamic      *)
(* bindings in force. Every observable event of the program (tr ...), the      *)
(* text written and the outcome of every call of Interpret must be the next    *)
(* element of the trace recorded from the implementation.                      *)
EXTENDS LispLib

VARIABLE m

\* ---------------------------------------------------------------- environments
\* <<kind, name, payload, rest>>: "v" variable (address in st), "f" function,
\* "b" block (activation), "g" tags of a tagbody (activation)
RECURSIVE FindVar(_, _)
FindVar(env, s) == IF env = <<>> THEN 0 ELSE IF env[1] = "v" /\ env[2] = s THEN env[3] ELSE FindVar(env[4], s)
RECURSIVE FindF(_, _)
FindF(env, s) == IF env = <<>> THEN <<"none">> ELSE IF env[1] = "f" /\ env[2] = s THEN env[3] ELSE FindF(env[4], s)
RECURSIVE FindB(_, _)
FindB(env, s) == IF env = <<>> THEN 0 ELSE IF env[1] = "b" /\ env[2] = s THEN env[3] ELSE FindB(env[4], s)
RECURSIVE FindG(_, _)
FindG(env, s) == IF env = <<>> THEN 0
                 ELSE IF env[1] = "g" /\ (\E i \in 1..Len(env[2]) : env[2][i] = s) THEN env[3] ELSE FindG(env[4], s)

SpecialForms == {"quote", "function", "lambda", "if", "progn", "let", "let*", "setq", "psetq", "setf", "cond", "case", "case-using",
  "while", "for", "dolist", "dotimes", "when", "unless", "and", "or", "block", "return-from", "return", "catch", "tagbody", "go",
  "unwind-protect", "flet", "labels", "defun", "defmacro", "defglobal", "defconstant", "defdynamic", "dynamic", "dynamic-let",
  "with-handler", "ignore-errors", "continue-condition", "funcall", "apply", "quasiquote", "defclass", "defgeneric", "defmethod",
  "convert", "prog1", "prog2", "incf", "decf", "set-dynamic", "%set-elt", "%set-subseq", "%set-nthcdr", "%set-assoc", "instancep", "class",
  "with-open-input-file", "with-open-output-file", "with-standard-input"}

LookupFn(s, env, op) ==
  LET l == FindF(env, op) IN
  IF l # <<"none">> THEN l
  ELSE IF op[1] = "g" THEN l
  ELSE IF op[2] \in DOMAIN s.fns THEN s.fns[op[2]]
  ELSE IF op[2] \in SpecialForms THEN <<"sf", op[2]>>
  ELSE IF IsBuiltin(op[2]) /\ op[2] # "host-f" THEN <<"fn", op[2]>>
  ELSE l

\* ---------------------------------------------------------------- atoms
IsQuote(s, x) == Car(s, x) = <<"s", "quote">> /\ IsCons(s, Cdr(s, x)) /\ Cdr(s, Cdr(s, x)) = Nil
IsAtomic(s, x) == x[1] # "p" \/ Cell(s, x[2])[1] # "cons" \/ IsQuote(s, x)
\* <<TRUE, value>> or <<FALSE>>
AtomVal(s, x, env) ==
  IF x[1] = "p" THEN <<TRUE, IF Cell(s, x[2])[1] = "cons" THEN Car(s, Cdr(s, x)) ELSE x>>
  ELSE IF x[1] = "s" /\ x # Nil /\ x # T THEN
    LET a == FindVar(env, x) IN
    IF a # 0 THEN <<TRUE, s.st[a]>>
    ELSE IF x[2] \in DOMAIN s.gv THEN <<TRUE, s.gv[x[2]]>>
    ELSE IF x[2] \in BClasses THEN <<TRUE, <<"cl", x[2]>>>>
    ELSE <<FALSE>>
  ELSE IF x[1] = "g" THEN LET a == FindVar(env, x) IN IF a # 0 THEN <<TRUE, s.st[a]>> ELSE <<FALSE>>
  ELSE <<TRUE, x>>
Unbound(s, x) == Raise(s, "<unbound-variable>", <<x, Sym("variable")>>, NoCont)
Undefined(s, x) == Raise(s, "<undefined-function>", <<x, Sym("function")>>, NoCont)

Push(s, f) == [s EXCEPT !.k = <<f, @>>]
Pop(s) == [s EXCEPT !.k = @[2]]
Ev(s, x, env) ==
  IF IsAtomic(s, x) THEN LET v == AtomVal(s, x, env) IN IF v[1] THEN Ret(s, v[2]) ELSE Unbound(s, x)
  ELSE [s EXCEPT !.mode = "ev", !.x = x, !.env = env]
EvK(s, x, env, frame) == Ev(Push(s, frame), x, env)
Un(s, x) == [s EXCEPT !.mode = "un", !.x = x]

\* forms one after the other; the value of the last one (a tail call)
Progn(s, l, env) ==
  IF ~IsCons(s, l) THEN Ret(s, Nil)
  ELSE IF Cdr(s, l) = Nil THEN Ev(s, Car(s, l), env)
  ELSE EvK(s, Car(s, l), env, <<"progn", Cdr(s, l), env>>)

RECURSIVE ExtendEnv(_, _, _, _)
ExtendEnv(env, syms, base, i) == IF i > Len(syms) THEN env ELSE ExtendEnv(<<"v", syms[i], base + i, env>>, syms, base, i + 1)
\* a new variable for each symbol: <<state, environment>>
Bind(s, env, syms, vals) == <<[s EXCEPT !.st = @ \o vals], ExtendEnv(env, syms, Len(s.st), 1)>>

Nth(s, l, n) == Car(s, NthCell(s, l, n))
\* build a form from a tree: <<"L", trees>> is a list of forms, <<"LT", trees, tail>> a list with a tail
\* result: <<cells, value>>, the cells being allocated after address `base`
RECURSIVE Mk(_, _)
RECURSIVE MkAll(_, _, _, _)
MkAll(base, ts, cells, vals) ==
  IF ts = <<>> THEN <<cells, vals>>
  ELSE LET r == Mk(base + Len(cells), Head(ts)) IN MkAll(base, Tail(ts), cells \o r[1], Append(vals, r[2]))
Mk(base, t) ==
  IF t[1] = "L" \/ t[1] = "LT" THEN
    LET tail == IF t[1] = "L" THEN Nil ELSE t[3]
        r == MkAll(base, t[2], <<>>, <<>>)
        b2 == base + Len(r[1]) IN
    <<r[1] \o ListCells(b2, r[2], tail), ListPtr(b2, r[2], tail)>>
  ELSE <<(<<>>), t>>
Build(s, t) == LET r == Mk(TopAddr(s), t) IN <<[s EXCEPT !.hp = @ \o r[1]], r[2]>>
EvTree(s, t, env) == LET r == Build(s, t) IN Ev(r[1], r[2], env)
Fresh(s) == [s EXCEPT !.gs = @ + 1]

\* ---------------------------------------------------------------- functions
\* parameter list: <<params, rest>> with rest = <<>> or <<symbol>>
RECURSIVE Params(_, _, _)
Params(s, l, acc) ==
  IF ~IsCons(s, l) THEN <<acc, <<>>>>
  ELSE IF Car(s, l) = <<"k", "&rest">> \/ Car(s, l) = <<"k", ":rest">> THEN <<acc, <<Nth(s, l, 1)>>>>
  ELSE Params(s, Cdr(s, l), Append(acc, Car(s, l)))
MkClo(s, ll, body, env) == LET p == Params(s, ll, <<>>) IN <<"clo", p[1], p[2], body, env>>
Alloc(s, cell) == [s EXCEPT !.hp = Append(@, cell)]
NewPtr(s) == <<"p", TopAddr(s) + 1>>

\* the trace
Trace(s) == Cases[s.pid].trace
Reject(s, want) ==
  LET got == IF s.tp <= Len(Trace(s)) THEN Trace(s)[s.tp] ELSE <<"end of trace">> IN
  IF PrintT(ToJson(<<"REJ", Cases[s.pid].id, s.tp, want, got>>)) THEN [s EXCEPT !.mode = "done"] ELSE s
\* conditions of an unspecified class match every condition
AnyCond(s, v) == v[1] = "p" /\ Cell(s, v[2])[1] = "cond" /\ Cell(s, v[2])[2] = "?"
ExpectEv(s, a) ==
  LET want == <<"ev", ExtSeq(s, a)>>
      n == Len(a)
      got == IF s.tp <= Len(Trace(s)) THEN Trace(s)[s.tp] ELSE <<"none">>
      ok == /\ got[1] = "ev" /\ Len(got[2]) = n
            /\ \A i \in 1..n : IF AnyCond(s, a[i]) THEN got[2][i][1] = "e" ELSE got[2][i] = want[2][i]
      next == IF s.tp < Len(Trace(s)) THEN Trace(s)[s.tp + 1] ELSE <<"none">>
      s1 == IF next[1] = "cancel" THEN [s EXCEPT !.tp = @ + 2, !.can = 1, !.ws = s.steps]
            ELSE [s EXCEPT !.tp = @ + 1, !.ws = s.steps]
  IN IF ok THEN Ret(s1, IF n = 0 THEN Nil ELSE a[n]) ELSE Reject(s, want)

\* ---------------------------------------------------------------- classes
ClsSlots(s, c) ==
  IF c = "<simple-error>" THEN <<[name |-> "format-string", args |-> <<"format-string">>, form |-> <<>>],
                                 [name |-> "format-arguments", args |-> <<"format-arguments">>, form |-> <<>>]>>
  ELSE IF c \in DOMAIN s.cls THEN s.cls[c].slots ELSE <<>>
RECURSIVE ArgSlot(_, _, _)
\* the slot of class c or of a superclass initialized by initarg a, "" if there is none
RECURSIVE ArgSlots(_, _, _)
ArgSlot(s, c, a) ==
  LET sl == ClsSlots(s, c)
      I == {i \in 1..Len(sl) : \E j \in 1..Len(sl[i].args) : sl[i].args[j] = a} IN
  IF I # {} THEN sl[CHOOSE i \in I : TRUE].name ELSE ArgSlots(s, Supers(s, c), a)
ArgSlots(s, cs, a) == IF cs = <<>> THEN "" ELSE LET r == ArgSlot(s, Head(cs), a) IN IF r # "" THEN r ELSE ArgSlots(s, Tail(cs), a)
\* all slots with an initform, own class first: <<name, form, env>>
RECURSIVE FormSlots(_, _)
FormSlotsOf(s, c) ==
  LET sl == ClsSlots(s, c)
      w == SelectSeq(sl, LAMBDA r : r.form # <<>>) IN [i \in 1..Len(w) |-> <<w[i].name, w[i].form[1], s.cls[c].env>>]
FormSlots(s, cs) == IF cs = <<>> THEN <<>> ELSE FormSlotsOf(s, Head(cs)) \o FormSlots(s, Tail(cs))
SetSlot(s, obj, name, v) ==
  LET c == Cell(s, obj[2]) IN SetCell(s, obj[2], <<"inst", c[2], (name :> v) @@ c[3]>>)
RECURSIVE InitArgs(_, _, _, _)
InitArgs(s, obj, a, i) ==
  IF i > Len(a) THEN <<"ok", s>>
  ELSE IF ~IsSym(a[i]) THEN <<"drop">>
  ELSE IF i = Len(a) THEN <<"few">>
  ELSE LET sl == ArgSlot(s, Cell(s, obj[2])[2], a[i][2]) IN
       InitArgs(IF sl = "" THEN s ELSE SetSlot(s, obj, sl, a[i + 1]), obj, a, i + 2)
RECURSIVE InitForms(_, _, _)
InitForms(s, obj, fs) ==
  IF fs = <<>> THEN Ret(s, obj)
  ELSE IF Head(fs)[1] \in DOMAIN Cell(s, obj[2])[3] THEN InitForms(s, obj, Tail(fs))
  ELSE EvK(s, Head(fs)[2], Head(fs)[3], <<"initf", obj, Head(fs)[1], Tail(fs)>>)
DefaultInit(s, a) ==
  LET obj == a[1] IN
  IF ~(obj[1] = "p" /\ Cell(s, obj[2])[1] = "inst") THEN Drop(s, "initialize no instance")
  ELSE LET r == InitArgs(s, obj, a, 2) IN
    CASE r[1] = "ok" -> InitForms(r[2], obj, FormSlots(s, DfsSeq(s, Cell(s, obj[2])[2])))
      [] r[1] = "few" -> PlainErr(s)
      [] OTHER -> Drop(s, "initarg")

\* ---------------------------------------------------------------- generic functions
\* method: <<types, rest, kind>> with rest = <<>> or <<class>>
CanCall(s, me, a) ==
  /\ IF me[2] = <<>> THEN Len(a) = Len(me[1]) ELSE Len(a) >= Len(me[1])
  /\ \A i \in 1..Len(a) : InstanceP(s, a[i], IF i <= Len(me[1]) THEN me[1][i] ELSE me[2][1])
\* <0: class c is more specific than d for value v
CmpSpec(s, c, d, v) ==
  IF c = d THEN 0 ELSE IF Inherits(s, c, d) THEN -1 ELSE IF Inherits(s, d, c) THEN 1
  ELSE LET q == DfsSeq(s, ClassOf(s, v)) IN Position(q, c) - Position(q, d)
RECURSIVE MoreSpec(_, _, _, _, _)
MoreSpec(s, p, q, a, i) ==
  IF i > Len(a) \/ (i > Len(p[1]) /\ i > Len(q[1])) THEN
    IF p[2] = <<>> \/ q[2] = <<>> THEN p[2] = <<>> /\ q[2] # <<>>
    ELSE LET R[j \in Nat] == IF j > Len(a) THEN TRUE
                             ELSE LET c == CmpSpec(s, p[2][1], q[2][1], a[j]) IN IF c # 0 THEN c < 0 ELSE R[j + 1]
         IN R[Len(p[1]) + 1]
  ELSE IF i > Len(p[1]) THEN FALSE
  ELSE IF i > Len(q[1]) THEN TRUE
  ELSE LET c == CmpSpec(s, p[1][i], q[1][i], a[i]) IN IF c # 0 THEN c < 0 ELSE MoreSpec(s, p, q, a, i + 1)
RECURSIVE BestMethod(_, _, _, _, _)
BestMethod(s, ms, a, i, best) ==
  IF i > Len(ms) THEN best
  ELSE BestMethod(s, ms, a, i + 1, IF CanCall(s, ms[i], a) /\ (best = 0 \/ MoreSpec(s, ms[i], ms[best], a, 1)) THEN i ELSE best)
AddMethod(ms, me) ==
  LET I == {i \in 1..Len(ms) : ms[i][1] = me[1] /\ ms[i][2] = me[2]} IN
  IF I = {} THEN Append(ms, me) ELSE [ms EXCEPT ![CHOOSE i \in I : TRUE] = me]

\* ---------------------------------------------------------------- application
RECURSIVE Apply(_, _, _)
RECURSIVE MapGo(_, _, _, _, _, _)

BindCall(s0, params, rest, body, env, a) ==
  LET s == IF s0.can > 0 THEN [s0 EXCEPT !.can = @ + 1] ELSE s0 IN
  IF rest = <<>> THEN LET b == Bind(s, env, params, a) IN Progn(b[1], body, b[2])
  ELSE LET n == Len(params)
           more == SubSeq(a, n + 1, Len(a))
           base == TopAddr(s)
           s1 == [s EXCEPT !.hp = @ \o ListCells(base, more, Nil)]
           b == Bind(s1, env, Append(params, rest[1]), Append(SubSeq(a, 1, n), ListPtr(base, more, Nil)))
       IN Progn(b[1], body, b[2])
ApplyMethod(s, me, a) ==
  LET kd == me[3] IN
  CASE kd[1] = "user" -> BindCall(s, kd[2], kd[3], kd[4], kd[5], a)
    [] kd[1] = "rd" -> (LET sl == Cell(s, a[1][2])[3] IN Ret(s, IF kd[2] \in DOMAIN sl THEN sl[kd[2]] ELSE Nil))
    [] kd[1] = "wr" -> Ret(SetSlot(s, a[2], kd[2], a[1]), T)
    [] kd[1] = "bp" -> Ret(s, Bool(kd[2] \in DOMAIN Cell(s, a[1][2])[3]))
    [] kd[1] = "ini" -> DefaultInit(s, a)
    [] OTHER -> \* the report of a simple error
       (LET sl == Cell(s, a[1][2])[3] IN
        IF {"format-string", "format-arguments"} \subseteq DOMAIN sl /\ IsProper(s, sl["format-arguments"])
        THEN Bi(s, "format", <<a[2], sl["format-string"]>> \o ToSeq(s, sl["format-arguments"])) ELSE Drop(s, "report"))
ApplyGeneric(s, g, a) ==
  LET b == BestMethod(s, g[5], a, 1, 0) IN
  IF b # 0 THEN ApplyMethod(s, g[5][b], a)
  ELSE IF Len(a) < g[3] \/ (Len(a) > g[3] /\ ~g[4]) THEN ProgErr(s)
  ELSE Undefined(s, Sym(g[2]))

MapFinish(s, kind, acc, orig) ==
  CASE kind \in {"mapcar", "maplist"} -> RetList(s, acc)
    [] kind \in {"mapc", "mapl"} -> Ret(s, orig)
    [] OTHER -> DoAppend(s, acc)
MapGo(s, kind, f, ls, acc, orig) ==
  IF (\E i \in 1..Len(ls) : ls[i] = Nil) /\ (\A i \in 1..Len(ls) : ls[i] = Nil \/ (IsCons(s, ls[i]) /\ IsProper(s, ls[i]))) THEN MapFinish(s, kind, acc, orig)
  ELSE IF \E i \in 1..Len(ls) : ~IsCons(s, ls[i]) \/ ~IsProper(s, ls[i]) THEN Drop(s, "map over no list")
  ELSE IF kind \in {"mapcar", "mapc", "mapcan"} THEN
    Apply(Push(s, <<"map", kind, f, [i \in 1..Len(ls) |-> Cdr(s, ls[i])], acc, orig>>), f, [i \in 1..Len(ls) |-> Car(s, ls[i])])
  ELSE Apply(Push(s, <<"map", kind, f, ls, acc, orig>>), f, ls)

RECURSIVE ActIn(_, _)
\* is there a frame of activation n in the continuation?
ActIn(k, n) == IF k = <<>> THEN FALSE ELSE IF k[1][1] \in {"blk", "tb"} /\ k[1][2] = n THEN TRUE ELSE ActIn(k[2], n)
RECURSIVE CatIn(_, _, _)
CatIn(s, k, tag) == IF k = <<>> THEN FALSE ELSE IF k[1][1] = "cat" /\ Same(s, k[1][2], tag, "eql") THEN TRUE ELSE CatIn(s, k[2], tag)

SimpleError(s, fmt, args) ==
  \* <<state, condition>>
  LET base == TopAddr(s)
      s1 == [s EXCEPT !.hp = @ \o ListCells(base, args, Nil)]
      v == NewPtr(s1) IN
  <<Alloc(s1, <<"inst", "<simple-error>", ("format-string" :> fmt) @@ ("format-arguments" :> ListPtr(base, args, Nil))>>), v>>

CoreFns == {"mapcar", "mapc", "mapcan", "maplist", "mapl", "mapcon", "create", "error", "cerror", "signal-condition", "throw",
            "eval", "macroexpand", "quit", "exit", "abort", "tr", "host-fail", "host-f", "load"}
MacroExpand(s, mac, forms, env) ==
  \* bind the parameters of the macro to the forms
  LET c == Cell(s, mac[2])
      np == Len(c[2])
      fs == ToSeq(s, forms) IN
  IF Len(fs) < np \/ (Len(fs) > np /\ c[3] = <<>>) THEN Drop(s, "macro arguments")
  ELSE LET rest == NthCell(s, forms, np)
           syms == IF c[3] = <<>> THEN c[2] ELSE c[2] \o <<c[3][1], <<"s", "@" \o c[3][1][2]>>>>
           vals == IF c[3] = <<>> THEN fs ELSE SubSeq(fs, 1, np) \o <<rest, <<"j", SubSeq(fs, np + 1, Len(fs))>>>>
           b == Bind(s, c[5], syms, vals)
       IN Progn(b[1], c[4], b[2])

RECURSIVE ReadText(_, _, _)
ReadText(r, s, p) == IF p > Len(s) THEN r ELSE ReadText(RdStep(r, s[p]), s, p + 1)
ApplyCore(s, f, a) ==
  CASE f = "tr" -> ExpectEv(s, a)
    [] f \in {"mapcar", "mapc", "mapcan", "maplist", "mapl", "mapcon"} ->
         (IF ~IsFn(s, a[1]) THEN Raise(s, "<domain-error>", <<a[1], "<function>">>, <<"dr">>)
          ELSE IF Len(a) < 2 THEN PlainErr(s) ELSE MapGo(s, f, a[1], Tail(a), <<>>, a[2]))
    [] f = "create" ->
         (IF a[1][1] # "cl" THEN Raise(s, "<domain-error>", <<a[1], "<class>">>, <<"dr">>)
          ELSE IF a[1][2] \notin DOMAIN s.cls /\ a[1][2] # "<simple-error>" THEN Drop(s, "create")
          ELSE LET v == NewPtr(s) IN
               Apply(Alloc(s, <<"inst", a[1][2], [x \in {} |-> Nil]>>), s.fns["initialize-object"], <<v>> \o Tail(a)))
    [] f = "error" -> (LET e == SimpleError(s, a[1], Tail(a)) IN Signal(e[1], e[2], NoCont))
    [] f = "cerror" -> (LET e == SimpleError(s, a[2], SubSeq(a, 3, Len(a))) IN
                        IF a[1][1] # "str" THEN Drop(s, "continue string")
                        ELSE LET r == Fmt(e[1], a[1][2], 1, SubSeq(a, 3, Len(a)), <<>>, TRUE) IN
                             CASE r[1] = "ok" -> Signal(e[1], e[2], <<"val">>) [] r[1] = "err" -> PlainErr(e[1]) [] OTHER -> Drop(s, "format"))
    [] f = "signal-condition" -> Signal(s, a[1], IF Some(a[2]) THEN <<"val">> ELSE NoCont)
    [] f = "throw" -> (IF CatIn(s, s.k, a[1]) THEN Un(s, <<"thr", a[1], a[2]>>) ELSE CtlErr(s))
    [] f = "eval" -> Ev(s, a[1], <<>>)
    [] f = "macroexpand" ->
         (IF ~IsCons(s, a[1]) \/ Car(s, a[1])[1] # "s" THEN Drop(s, "macroexpand")
          ELSE LET mac == LookupFn(s, <<>>, Car(s, a[1])) IN
               IF mac[1] = "p" /\ Cell(s, mac[2])[1] = "mac" THEN MacroExpand(s, mac, Cdr(s, a[1]), <<>>) ELSE Drop(s, "macroexpand"))
    [] f \in {"quit", "exit"} -> Un(s, <<"quit">>)
    [] f = "abort" -> Un(s, <<"abort">>)
    [] f = "host-f" -> RetList(s, <<Sym("host"), a[1]>>)
    [] f = "load" ->
         (IF a[1][1] # "str" THEN TypeErr(s, f, a, 1, "<string>")
          ELSE LET n == a[1][2] IN
            IF OddName(n) THEN Drop(s, "file name")
            ELSE IF NoFile(n) \/ FsIdx(s, n) = {} THEN PlainErr(s)
            ELSE IF FsGet(s, n) = <<-1>> THEN Drop(s, "file which is written")
            ELSE LET r == ReadText(RdInit, FsGet(s, n), 1) IN
              CASE RdEnd(r) = "?" -> Drop(s, "text")
                [] RdEnd(r) = "err" -> PlainErr(s)
                [] OTHER -> LET v == FormVals(s, RdForms(r), <<>>) IN
                     IF v = <<>> THEN Drop(s, "form")
                     ELSE LET b == TopAddr(v[1]) IN Progn([v[1] EXCEPT !.hp = @ \o ListCells(b, v[2], Nil)], ListPtr(b, v[2], Nil), <<>>))
    [] OTHER -> \* host-fail
       (IF a[1][1] = "str" THEN Raise(s, "?", <<"host", a[1][2]>>, NoCont) ELSE Drop(s, "host-fail"))

RECURSIVE Quasi(_, _, _)
\* fill the holes of a quasi-quoted form: <<state, value, values left>>
IsUnq(s, x) == IsCons(s, x) /\ Car(s, x) = Sym("unquote") /\ IsCons(s, Cdr(s, x))
Quasi(s, x, vals) ==
  IF ~IsCons(s, x) THEN <<s, x, vals>>
  ELSE IF IsUnq(s, x) THEN <<s, Head(vals), Tail(vals)>>
  ELSE LET a == Quasi(s, Car(s, x), vals)
           d == Quasi(a[1], Cdr(s, x), a[3]) IN
       IF a[2][1] = "j" THEN
         LET base == TopAddr(d[1]) IN <<[d[1] EXCEPT !.hp = @ \o ListCells(base, a[2][2], d[2])], ListPtr(base, a[2][2], d[2]), d[3]>>
       ELSE <<Alloc(d[1], <<"cons", a[2], d[2]>>), NewPtr(d[1]), d[3]>>
RECURSIVE Holes(_, _)
Holes(s, x) == IF ~IsCons(s, x) THEN <<>> ELSE IF IsUnq(s, x) THEN <<Nth(s, x, 1)>> ELSE Holes(s, Car(s, x)) \o Holes(s, Cdr(s, x))

SetVar(s, env, sym, v) ==
  LET a == FindVar(env, sym) IN
  IF a # 0 THEN <<TRUE, [s EXCEPT !.st[a] = v]>>
  ELSE IF sym[1] = "s" /\ sym[2] \in DOMAIN s.gv THEN <<TRUE, [s EXCEPT !.gv[sym[2]] = v]>>
  ELSE <<FALSE, Unbound(s, sym)>>

\* (setf (elt seq i) v): values v seq i
SetElt(s, place, env, a) ==
  LET v == a[1]
      q == a[2]
      i == a[3] IN
  IF i[1] # "i" THEN Drop(s, "index")
  ELSE IF q[1] = "str" THEN
    IF place[1] # "s" \/ v[1] # "c" \/ i[2] < 0 \/ i[2] >= Len(q[2]) \/ Len(a) # 3 THEN Drop(s, "set-elt")
    ELSE LET r == SetVar(s, env, place, <<"str", [q[2] EXCEPT ![i[2] + 1] = v[2]]>>) IN IF r[1] THEN Ret(r[2], v) ELSE r[2]
  ELSE IF IsArr(s, q) THEN Bi(s, "set-aref", a)
  ELSE LET c == NthCell(s, q, i[2]) IN
    IF i[2] < 0 \/ ~IsCons(s, c) \/ Len(a) # 3 \/ ~InHeap(s, c) \/ ~IsProper(s, c) THEN Drop(s, "set-elt")
    ELSE Ret(SetCell(s, c[2], <<"cons", v, Cdr(s, c)>>), v)

\* (setf (subseq q i j) v): the elements i..j-1 of a list take the values of v in turn, as long as there are any;
\* in a string the characters i..j-1 give way to those of v
RECURSIVE Overwrite(_, _, _, _)
Overwrite(s, p, n, w) ==
  IF n <= 0 \/ ~IsCons(s, w) THEN s
  ELSE Overwrite(SetCell(s, p[2], <<"cons", Car(s, w), Cdr(s, p)>>), Cdr(s, p), n - 1, Cdr(s, w))
AllInHeap(s, l) == \A i \in 0..(Len(ToSeq(s, l)) - 1) : InHeap(s, NthCell(s, l, i))
SetSubseq(s, q, i, j, v) ==
  IF i[1] # "i" \/ j[1] # "i" THEN Drop(s, "setf subseq")
  ELSE IF i[2] < 0 \/ j[2] < i[2] THEN Drop(s, "setf subseq")
  ELSE IF q[1] = "str" THEN
    IF v[1] # "str" \/ j[2] > Len(q[2]) THEN Drop(s, "setf subseq")
    ELSE Ret(s, <<"str", SubSeq(q[2], 1, i[2]) \o v[2] \o SubSeq(q[2], j[2] + 1, Len(q[2]))>>)
  ELSE IF ~IsProper(s, q) \/ ~IsProper(s, v) THEN Drop(s, "setf subseq")
  ELSE IF j[2] > Len(ToSeq(s, q)) \/ ~AllInHeap(s, q) THEN Drop(s, "setf subseq")
  ELSE Ret(Overwrite(s, NthCell(s, q, i[2]), j[2] - i[2], v), q)
SetNthcdr(s, v, n, l) ==
  IF n[1] # "i" \/ ~IsProper(s, l) THEN Drop(s, "setf nthcdr")
  ELSE IF n[2] < 1 \/ n[2] > Len(ToSeq(s, l)) THEN Drop(s, "setf nthcdr")
  ELSE LET c == NthCell(s, l, n[2] - 1) IN
    IF ~InHeap(s, c) THEN Drop(s, "setf nthcdr") ELSE Ret(SetCell(s, c[2], <<"cons", Car(s, c), v>>), <<"?">>)
\* (setf (assoc k l) v) replaces the entry that (assoc k l) finds
SetAssoc(s, v, k, l) ==
  IF ~IsProper(s, l) THEN Drop(s, "setf assoc")
  ELSE LET q == ToSeq(s, l) IN
    IF \E i \in 1..Len(q) : ~IsCons(s, q[i]) THEN Drop(s, "setf assoc")
    ELSE LET M == {i \in 1..Len(q) : Same(s, k, Car(s, q[i]), "eql")} IN
      IF M = {} \/ ~AllInHeap(s, l) THEN Drop(s, "setf assoc")
      ELSE LET c == NthCell(s, l, (CHOOSE i \in M : \A j \in M : i <= j) - 1) IN
        Ret(SetCell(s, c[2], <<"cons", v, Cdr(s, c)>>), v)

Apply(s, f, a) ==
  CASE f[1] = "fn" ->
         (IF ~ArityOK(f[2], Len(a)) THEN ProgErr(s)
          ELSE IF f[2] \in CoreFns THEN ApplyCore(s, f[2], a)
          ELSE Bi(s, f[2], a))
    [] f[1] = "p" ->
         (LET c == Cell(s, f[2]) IN
          CASE c[1] = "clo" ->
                 (IF Len(a) < Len(c[2]) \/ (Len(a) > Len(c[2]) /\ c[3] = <<>>) THEN ProgErr(s)
                  ELSE BindCall(s, c[2], c[3], c[4], c[5], a))
            [] c[1] = "gen" -> ApplyGeneric(s, c, a)
            [] OTHER -> Drop(s, "call of a macro"))
    [] f[1] = "qq" -> (LET r == Quasi(s, f[2], a) IN Ret(r[1], r[2]))
    [] f[1] = "apply" ->
         (LET n == Len(a) IN
          IF a = <<>> THEN PlainErr(s)
          ELSE IF a[n] = Nil \/ (IsCons(s, a[n]) /\ IsProper(s, a[n])) THEN Apply(s, f[2], SubSeq(a, 1, n - 1) \o ToSeq(s, a[n]))
          ELSE IF IsVec(s, a[n]) THEN Apply(s, f[2], SubSeq(a, 1, n - 1) \o ArrElems(s, a[n]))
          ELSE IF a[n][1] = "str" THEN Apply(s, f[2], SubSeq(a, 1, n - 1) \o [i \in 1..Len(a[n][2]) |-> <<"c", a[n][2][i]>>])
          ELSE Drop(s, "apply to no list"))
    [] f[1] = "ret" ->
         (IF Len(a) # 1 THEN ProgErr(s)
          ELSE LET b == FindB(f[2], Nil) IN IF b # 0 /\ ActIn(s.k, b) THEN Un(s, <<"ret", b, a[1]>>) ELSE CtlErr(s))
    [] f[1] = "cc" -> (IF Len(a) # 2 THEN Drop(s, "continue-condition") ELSE Un(s, <<"cc", a[1], a[2]>>))
    [] f[1] = "selt" -> (IF Len(a) < 3 THEN Drop(s, "set-elt") ELSE SetElt(s, f[2], f[3], a))
    [] f[1] = "%set-subseq" -> (IF Len(a) # 4 THEN Drop(s, "setf") ELSE SetSubseq(s, a[1], a[2], a[3], a[4]))
    [] f[1] = "%set-nthcdr" -> (IF Len(a) # 3 THEN Drop(s, "setf") ELSE SetNthcdr(s, a[1], a[2], a[3]))
    [] f[1] = "%set-assoc" -> (IF Len(a) # 3 THEN Drop(s, "setf") ELSE SetAssoc(s, a[1], a[2], a[3]))
    [] f[1] = "insp" -> (IF Len(a) # 2 THEN Drop(s, "instancep")
                         ELSE IF a[2][1] # "cl" THEN PlainErr(s)
                         ELSE IF AnyCond(s, a[1]) THEN Drop(s, "class of an error")
                         ELSE Ret(s, Bool(InstanceP(s, a[1], a[2][2]))))
    [] f[1] = "class" -> (IF Len(a) # 1 THEN Drop(s, "class") ELSE IF a[1][1] = "cl" THEN Ret(s, a[1]) ELSE PlainErr(s))
    [] OTHER -> Drop(s, "apply")

\* evaluate the forms of `rest` from left to right and apply `tgt` to the values
RECURSIVE Args(_, _, _, _, _)
Args(s, tgt, done, rest, env) ==
  IF ~IsCons(s, rest) THEN Apply(s, tgt, done)
  ELSE LET x == Car(s, rest) IN
    IF IsAtomic(s, x) THEN
      LET v == AtomVal(s, x, env) IN
      IF v[1] THEN Args(s, tgt, Append(done, v[2]), Cdr(s, rest), env) ELSE Unbound(s, x)
    ELSE EvK(s, x, env, <<"args", tgt, done, Cdr(s, rest), env>>)

\* ---------------------------------------------------------------- special forms
RECURSIVE LetGo(_, _, _, _, _, _)
LetGo(s, items, syms, vals, body, env) ==
  IF ~IsCons(s, items) THEN LET b == Bind(s, env, syms, vals) IN Progn(b[1], body, b[2])
  ELSE LET it == Car(s, items) IN
    IF IsSym(it) THEN LetGo(s, Cdr(s, items), Append(syms, it), Append(vals, Nil), body, env)
    ELSE LET x == Nth(s, it, 1) IN
      IF IsAtomic(s, x) THEN
        LET v == AtomVal(s, x, env) IN
        IF v[1] THEN LetGo(s, Cdr(s, items), Append(syms, Car(s, it)), Append(vals, v[2]), body, env) ELSE Unbound(s, x)
      ELSE EvK(s, x, env, <<"let", Append(syms, Car(s, it)), vals, Cdr(s, items), body, env>>)
RECURSIVE LetSGo(_, _, _, _)
LetSGo(s, items, body, env) ==
  IF ~IsCons(s, items) THEN Progn(s, body, env)
  ELSE LET it == Car(s, items) IN
    IF IsSym(it) THEN LET b == Bind(s, env, <<it>>, <<Nil>>) IN LetSGo(b[1], Cdr(s, items), body, b[2])
    ELSE EvK(s, Nth(s, it, 1), env, <<"let*", Car(s, it), Cdr(s, items), body, env>>)
RECURSIVE PSetGo(_, _, _, _, _)
RECURSIVE SetAll(_, _, _, _, _)
SetAll(s, env, syms, vals, i) ==
  IF i > Len(syms) THEN Ret(s, Nil)
  ELSE LET r == SetVar(s, env, syms[i], vals[i]) IN IF r[1] THEN SetAll(r[2], env, syms, vals, i + 1) ELSE r[2]
PSetGo(s, rest, syms, vals, env) ==
  IF ~IsCons(s, rest) THEN SetAll(s, env, syms, vals, 1)
  ELSE EvK(s, Nth(s, rest, 1), env, <<"psetq", Append(syms, Car(s, rest)), vals, NthCell(s, rest, 2), env>>)
RECURSIVE FindDyn(_, _)
FindDyn(d, name) == IF d = <<>> THEN 0 ELSE IF d[1] = name THEN d[2] ELSE FindDyn(d[3], name)
RECURSIVE DynPush(_, _, _, _)
DynPush(d, syms, base, i) == IF i > Len(syms) THEN d ELSE DynPush(<<syms[i], base + i, d>>, syms, base, i + 1)
RECURSIVE DynLetGo(_, _, _, _, _, _)
DynLetGo(s, items, syms, vals, body, env) ==
  IF ~IsCons(s, items) THEN
    Progn(Push([s EXCEPT !.st = @ \o vals, !.dyn = DynPush(s.dyn, syms, Len(s.st), 1)], <<"dyn", s.dyn>>), body, env)
  ELSE LET it == Car(s, items) IN
    IF IsSym(it) THEN DynLetGo(s, Cdr(s, items), Append(syms, it), Append(vals, Nil), body, env)
    ELSE EvK(s, Nth(s, it, 1), env, <<"dyl", Append(syms, Car(s, it)), vals, Cdr(s, items), body, env>>)
\* statements of a tagbody
RECURSIVE TagGo(_, _, _, _, _)
TagGo(s, act, rest, all, env) ==
  IF ~IsCons(s, rest) THEN Ret(s, Nil)
  ELSE IF IsSym(Car(s, rest)) THEN TagGo(s, act, Cdr(s, rest), all, env)
  ELSE EvK(s, Car(s, rest), env, <<"tb", act, Cdr(s, rest), all, env>>)
RECURSIVE AfterTag(_, _, _)
AfterTag(s, l, tag) == IF Car(s, l) = tag THEN Cdr(s, l) ELSE AfterTag(s, Cdr(s, l), tag)
\* functions of flet and labels
RECURSIVE FnEnv(_, _, _, _, _)
FnEnv(env, s, defs, base, i) ==
  IF i > Len(defs) THEN env ELSE FnEnv(<<"f", Car(s, defs[i]), <<"p", base + i>>, env>>, s, defs, base, i + 1)
Clauses(s, l, v) ==
  \* the body of the clause of a (case) for value v, or <<"none">>
  LET cs == ToSeq(s, l)
      I == {i \in 1..Len(cs) : LET kx == Car(s, cs[i]) IN
             IF IsCons(s, kx) THEN LET ks == ToSeq(s, kx) IN \E j \in 1..Len(ks) : Same(s, v, ks[j], "eql") ELSE kx = T} IN
  IF I = {} THEN <<"none">> ELSE Cdr(s, cs[MinOf(I)])
\* body of a while loop
WhileGo(s, cond, body, env, last) == EvK(s, cond, env, <<"whc", cond, body, env, last>>)
CondGo(s, cl, env) ==
  IF ~IsCons(s, cl) THEN Ret(s, Nil)
  ELSE EvK(s, Car(s, Car(s, cl)), env, <<"cond", Cdr(s, Car(s, cl)), Cdr(s, cl), env>>)
AndGo(s, rest, env) == IF Cdr(s, rest) = Nil THEN Ev(s, Car(s, rest), env) ELSE EvK(s, Car(s, rest), env, <<"and", Cdr(s, rest), env>>)
OrGo(s, rest, env) == IF Cdr(s, rest) = Nil THEN Ev(s, Car(s, rest), env) ELSE EvK(s, Car(s, rest), env, <<"or", Cdr(s, rest), env>>)

\* ---- definitions
SlotOpts(s, l, key) == \* values of the options `key` of a slot specification
  LET q == ToSeq(s, l)
      I == SelectSeq([i \in 1..(Len(q) \div 2) |-> 2 * i], LAMBDA i : q[i] = <<"k", key>>)
  IN [i \in 1..Len(I) |-> q[I[i] + 1]]
Names(q) == [i \in 1..Len(q) |-> q[i][2]]
RECURSIVE AddMethods(_, _, _, _)
\* add the method to each named generic function; <<TRUE, state>> or <<FALSE>>
AddMethods(s, names, me, argc) ==
  IF names = <<>> THEN <<TRUE, s>>
  ELSE LET n == Head(names) IN
    IF n \in DOMAIN s.fns THEN
      LET v == s.fns[n] IN
      IF v[1] = "p" /\ Cell(s, v[2])[1] = "gen" THEN
        LET g == Cell(s, v[2]) IN AddMethods(SetCell(s, v[2], [g EXCEPT ![5] = AddMethod(@, me)]), Tail(names), me, argc)
      ELSE <<FALSE>>
    ELSE IF n \in SpecialForms \/ IsBuiltin(n) THEN <<FALSE>>
    ELSE AddMethods([Alloc(s, <<"gen", n, argc, FALSE, <<me>>>>) EXCEPT !.fns = (n :> NewPtr(s)) @@ @], Tail(names), me, argc)
RECURSIVE AddSlots(_, _, _, _)
AddSlots(s, cname, specs, i) ==
  IF i > Len(specs) THEN <<TRUE, s>>
  ELSE LET sp == specs[i]
           n == Car(s, sp)[2]
           rd == <<(<<cname>>), <<>>, <<"rd", n>>>>
           bp == <<(<<cname>>), <<>>, <<"bp", n>>>>
           wr == <<(<<"<object>", cname>>), <<>>, <<"wr", n>>>>
           acc == Names(SlotOpts(s, sp, ":accessor"))
           r1 == AddMethods(s, Names(SlotOpts(s, sp, ":boundp")), bp, 1)
           r2 == IF r1[1] THEN AddMethods(r1[2], Names(SlotOpts(s, sp, ":reader")) \o acc, rd, 1) ELSE r1
           r3 == IF r2[1] THEN AddMethods(r2[2], Names(SlotOpts(s, sp, ":writer")) \o [j \in 1..Len(acc) |-> "set-" \o acc[j]], wr, 2) ELSE r2
       IN IF r3[1] THEN AddSlots(r3[2], cname, specs, i + 1) ELSE r3
SlotRec(s, sp) ==
  LET f == SlotOpts(s, sp, ":initform") IN
  [name |-> Car(s, sp)[2], args |-> Names(SlotOpts(s, sp, ":initarg")), form |-> IF f = <<>> THEN <<>> ELSE <<f[Len(f)]>>]
DefClass(s, rest, env) ==
  LET name == Car(s, rest)[2]
      sup == ToSeq(s, Nth(s, rest, 1))
      specs == ToSeq(s, Nth(s, rest, 2))
      vals == [i \in 1..Len(sup) |-> AtomVal(s, sup[i], env)] IN
  \* a class defined again: what becomes of the instances and subclasses of the old one is left open
  IF \/ name \in DOMAIN s.cls /\ \E d \in DOMAIN s.cls : \E i \in 1..Len(s.cls[d].sup) : s.cls[d].sup[i] = name
     \/ name \in BClasses
     \/ name \in DOMAIN s.gv /\ s.gv[name] # <<"cl", name>> THEN Drop(s, "redefinition of a class")
  ELSE IF \E i \in 1..Len(vals) : ~vals[i][1] THEN Unbound(s, sup[CHOOSE i \in 1..Len(vals) : ~vals[i][1] /\ \A j \in 1..(i-1) : vals[j][1]])
  ELSE IF \E i \in 1..Len(vals) : vals[i][2][1] # "cl" THEN PlainErr(s)
  ELSE LET cls == [sup |-> IF sup = <<>> THEN <<"<object>">> ELSE [i \in 1..Len(sup) |-> vals[i][2][2]],
                   slots |-> [i \in 1..Len(specs) |-> SlotRec(s, specs[i])], env |-> env]
           r == AddSlots([s EXCEPT !.cls = (name :> cls) @@ @, !.gv = (name :> <<"cl", name>>) @@ @], name, specs, 1)
       IN IF r[1] THEN Ret(r[2], Sym(name)) ELSE Drop(s, "slot function")
DefMethod(s, rest, env) ==
  LET name == Car(s, rest)
      g == LookupFn(s, env, name)
      ps == ToSeq(s, Nth(s, rest, 1))
      RI == {i \in 1..Len(ps) : ps[i] = <<"k", "&rest">> \/ ps[i] = <<"k", ":rest">>}
      n == IF RI = {} THEN Len(ps) ELSE MinOf(RI) - 1
      cv(i) == AtomVal(s, Nth(s, ps[i], 1), env)
      idx == IF RI = {} THEN 1..n ELSE (1..n) \union {n + 2}
      types == [i \in 1..n |-> cv(i)[2][2]]
      \* the function whose scope the body sees
      me == <<types, IF RI = {} THEN <<>> ELSE <<cv(n + 2)[2][2]>>,
              <<"user", [i \in 1..n |-> Car(s, ps[i])], IF RI = {} THEN <<>> ELSE <<Car(s, ps[n + 2])>>, NthCell(s, rest, 2), env>>>>
  IN IF g = <<"none">> THEN Undefined(s, name)
     ELSE IF ~(g[1] = "p" /\ Cell(s, g[2])[1] = "gen") THEN PlainErr(s)
     ELSE IF \E i \in idx : i > Len(ps) \/ ~IsCons(s, ps[i]) THEN Drop(s, "parameter without a class")
     ELSE IF \E i \in idx : ~cv(i)[1] THEN Drop(s, "unbound class")
     ELSE IF \E i \in idx : cv(i)[2][1] # "cl" THEN PlainErr(s)
     ELSE LET c == Cell(s, g[2]) IN Ret(SetCell(s, g[2], [c EXCEPT ![5] = AddMethod(@, me)]), name)

\* ---- setf
SetfTo(s, rest, env) ==
  LET place == Car(s, rest)
      v == Nth(s, rest, 1) IN
  IF IsSym(place) THEN EvTree(s, <<"L", <<Sym("setq"), place, v>>>>, env)
  ELSE IF ~IsCons(s, place) \/ ~IsSym(Car(s, place)) THEN Drop(s, "setf")
  ELSE LET f == Car(s, place)[2]
           a == ToSeq(s, Cdr(s, place)) IN
    CASE f \in {"car", "first"} -> EvTree(s, <<"L", <<Sym("set-car"), v, a[1]>>>>, env)
      [] f = "cdr" -> EvTree(s, <<"L", <<Sym("set-cdr"), v, a[1]>>>>, env)
      [] f \in {"cadr", "second"} -> EvTree(s, <<"L", <<Sym("set-car"), v, <<"L", <<Sym("cdr"), a[1]>>>>>>>>, env)
      [] f \in {"caddr", "third"} -> EvTree(s, <<"L", <<Sym("set-car"), v, <<"L", <<Sym("cddr"), a[1]>>>>>>>>, env)
      [] f = "cddr" -> EvTree(s, <<"L", <<Sym("set-cdr"), v, <<"L", <<Sym("cdr"), a[1]>>>>>>>>, env)
      [] f = "elt" -> EvTree(s, <<"L", <<Sym("%set-elt"), a[1], v>> \o a>>, env)
      [] f = "nth" -> EvTree(s, <<"L", <<Sym("let"), <<"L", <<<<"L", <<<<"g", s.gs + 1>>, v>>>>, <<"L", <<<<"g", s.gs + 2>>, a[1]>>>>, <<"L", <<<<"g", s.gs + 3>>, a[2]>>>>>>>>,
                                       <<"L", <<Sym("%set-elt"), Nil, <<"g", s.gs + 1>>, <<"g", s.gs + 3>>, <<"g", s.gs + 2>>>>>>>>>>, env)
      [] f = "aref" -> EvTree(s, <<"L", <<Sym("set-aref"), v>> \o a>>, env)
      [] f = "gethash" -> EvTree(s, <<"L", <<Sym("set-gethash"), v>> \o a>>, env)
      [] f = "property" -> EvTree(s, <<"L", <<Sym("set-property"), v>> \o a>>, env)
      [] f = "dynamic" -> EvK(s, v, env, <<"defd", a[1], TRUE>>)
      [] f = "cdddr" -> EvTree(s, <<"L", <<Sym("set-cdr"), v, <<"L", <<Sym("cddr"), a[1]>>>>>>>>, env)
      [] f = "cadddr" -> EvTree(s, <<"L", <<Sym("set-car"), v, <<"L", <<Sym("cdddr"), a[1]>>>>>>>>, env)
      [] f = "subseq" -> EvTree(s, <<"L", <<Sym("setf"), a[1], <<"L", <<Sym("%set-subseq")>> \o a \o <<v>>>>>>>>, env)
      [] f \in {"nthcdr", "assoc"} -> EvTree(s, <<"L", <<Sym("%set-" \o f), v>> \o a>>, env)
      [] f = "setq" -> Drop(s, "setf")
      [] OTHER -> EvTree(s, <<"L", <<Sym("set-" \o f), v>> \o a>>, env)

\* (for ((var init step)*) (test result*) body*) as let and while
ForTree(s, rest) ==
  LET its == ToSeq(s, Car(s, rest))
      test == Car(s, Nth(s, rest, 1))
      res == Cdr(s, Nth(s, rest, 1))
      body == ToSeq(s, NthCell(s, rest, 2))
      inits == [i \in 1..Len(its) |-> <<"L", <<Car(s, its[i]), Nth(s, its[i], 1)>>>>]
      st == SelectSeq(its, LAMBDA it : Len(ToSeq(s, it)) = 3)
      RECURSIVE Steps(_)
      Steps(i) == IF i > Len(st) THEN <<>> ELSE <<Car(s, st[i]), Nth(s, st[i], 2)>> \o Steps(i + 1)
      tail == IF st = <<>> THEN <<>> ELSE <<<<"L", <<Sym("psetq")>> \o Steps(1)>>>> IN
  <<"L", <<Sym("let"), <<"L", inits>>,
           <<"L", <<Sym("while"), <<"L", <<Sym("not"), test>>>>>> \o body \o tail>>,
           <<"LT", <<Sym("progn")>>, res>>>>>>
CaseUsingTree(s, rest, g) ==
  LET pred == Car(s, rest)
      cls == ToSeq(s, NthCell(s, rest, 2))
      clause(c) == IF Car(s, c) = T THEN c
                   ELSE LET ks == ToSeq(s, Car(s, c)) IN
                        <<"LT", <<<<"L", <<Sym("or")>> \o [i \in 1..Len(ks) |-> <<"L", <<Sym("funcall"), pred, g, ks[i]>>>>]>>>>, Cdr(s, c)>>
  IN <<"L", <<Sym("let"), <<"L", <<<<"L", <<g, Nth(s, rest, 1)>>>>>>>>, <<"L", <<Sym("cond")>> \o [i \in 1..Len(cls) |-> clause(cls[i])]>>>>>>

DefFn(s, name, cell) == Ret([Alloc(s, cell) EXCEPT !.fns = (name :> NewPtr(s)) @@ @], Sym(name))

\* ---------------------------------------------------------------- ill-formed special forms
\* TRUE when the form (f . rest) is certainly no form of the language, whatever its parts are when they are evaluated:
\* operands are missing or too many, a name is no symbol, a parameter list or a list of bindings is none.
\* (Programs have no effects in the parts of such a form: it is not specified which of them are evaluated before the error.)
IsRestKey(x) == x = <<"k", "&rest">> \/ x = <<"k", ":rest">>
BadRest(s, l) ==
  IF ~IsProper(s, l) THEN TRUE
  ELSE LET q == ToSeq(s, l)
           R == {i \in 1..Len(q) : IsRestKey(q[i])} IN R # {} /\ R # {Len(q) - 1}
BadParams(s, l) ==
  IF ~IsProper(s, l) THEN TRUE
  ELSE LET q == ToSeq(s, l)
           R == {i \in 1..Len(q) : IsRestKey(q[i])}
           I == (1..Len(q)) \ R IN
    \/ \E i \in I : ~IsSym(q[i])
    \/ \E i, j \in I : i < j /\ q[i] = q[j]
    \/ BadRest(s, l)
BadBinds(s, l) ==
  IF ~IsProper(s, l) THEN TRUE
  ELSE LET q == ToSeq(s, l) IN
    \E i \in 1..Len(q) : ~IsSym(q[i]) /\ (~IsCons(s, q[i]) \/ ~IsProper(s, q[i]) \/ Len(ToSeq(s, q[i])) # 2 \/ ~IsSym(Car(s, q[i])))
BadFns(s, l) ==
  IF ~IsProper(s, l) THEN TRUE
  ELSE LET q == ToSeq(s, l) IN
    \E i \in 1..Len(q) : ~IsCons(s, q[i]) \/ ~IsProper(s, q[i]) \/ Len(ToSeq(s, q[i])) < 2 \/ ~IsSym(Car(s, q[i])) \/ BadParams(s, Nth(s, q[i], 1))
\* least and greatest number of operands
Operands ==
  [f \in {"quote", "function", "dynamic", "class"} |-> <<1, 1>>] @@ ("if" :> <<2, 3>>)
  @@ [f \in {"return-from", "defdynamic", "defglobal", "defconstant", "defgeneric", "continue-condition", "setf", "convert"} |-> <<2, 2>>]
  @@ [f \in {"incf", "decf"} |-> <<1, 2>>] @@ [f \in {"defun", "defmacro"} |-> <<2, 1000000>>]
  @@ [f \in {"let", "let*", "dynamic-let", "lambda", "block", "catch", "go", "unwind-protect", "flet", "labels", "case", "while", "when", "unless", "dolist", "dotimes",
              "with-handler", "prog1", "defclass", "defmethod", "quasiquote", "with-open-input-file", "with-open-output-file", "with-standard-input"} |-> <<1, 1000000>>]
  @@ [f \in {"prog2", "for", "case-using", "apply"} |-> <<2, 1000000>>] @@ ("funcall" :> <<1, 1000000>>)
BadForm(s, f, rest) ==
  IF f \notin DOMAIN Operands \cup {"setq", "psetq", "progn", "cond"} THEN FALSE
  ELSE IF ~IsProper(s, rest) THEN f \notin {"case", "cond"} \/ ~IsCons(s, rest)
  ELSE LET q == ToSeq(s, rest)
           n == Len(q) IN
    \/ f \in DOMAIN Operands /\ (n < Operands[f][1] \/ n > Operands[f][2])
    \/ f \in {"setq", "psetq"} /\ (n % 2 = 1 \/ \E i \in 1..n : i % 2 = 1 /\ ~IsSym(q[i]))
    \/ f \in {"let", "let*", "dynamic-let"} /\ BadBinds(s, q[1])
    \/ f = "lambda" /\ BadParams(s, q[1])
    \/ f = "for" /\ (~IsProper(s, q[1]) \/ ~IsCons(s, q[2]) \/ (LET b == ToSeq(s, q[1]) IN \E i \in 1..Len(b) : ~IsCons(s, b[i]) \/ ~IsProper(s, b[i]) \/ ~IsSym(Car(s, b[i]))))
    \/ f \in {"defun", "defmacro"} /\ BadParams(s, q[2])
    \/ f \in {"block", "return-from", "go", "dynamic", "function", "defun", "defmacro", "defglobal", "defconstant", "defdynamic", "defgeneric", "defclass", "defmethod"} /\ ~IsSym(q[1])
    \/ f = "defgeneric" /\ BadRest(s, q[2])
    \/ f \in {"flet", "labels"} /\ BadFns(s, q[1])
    \/ f = "case" /\ n > 1 /\ ~IsCons(s, q[2])
    \/ f = "cond" /\ n > 0 /\ ~IsCons(s, q[1])
    \/ f \in {"dolist", "dotimes", "with-open-input-file", "with-open-output-file"} /\ (~IsCons(s, q[1]) \/ ~IsSym(Car(s, q[1])) \/ (f # "dolist" /\ ~IsCons(s, Cdr(s, q[1]))))

Special(s, f, rest, env) ==
  CASE BadForm(s, f, rest) -> PlainErr(s)
    [] f = "if" -> EvK(s, Car(s, rest), env, <<"if", Cdr(s, rest), env>>)
    [] f = "progn" -> Progn(s, rest, env)
    [] f = "let" -> LetGo(s, Car(s, rest), <<>>, <<>>, Cdr(s, rest), env)
    [] f = "let*" -> LetSGo(s, Car(s, rest), Cdr(s, rest), env)
    [] f = "setq" /\ rest = Nil -> Ret(s, Nil)
    [] f = "setq" -> EvK(s, Nth(s, rest, 1), env, <<"setq", Car(s, rest), NthCell(s, rest, 2), env>>)
    [] f = "psetq" -> PSetGo(s, rest, <<>>, <<>>, env)
    [] f = "lambda" -> RetNew(s, MkClo(s, Car(s, rest), Cdr(s, rest), env))
    [] f = "function" ->
         (LET v == LookupFn(s, env, Car(s, rest)) IN
          IF v = <<"none">> THEN Undefined(s, Car(s, rest))
          ELSE IF v[1] = "sf" \/ (v[1] = "p" /\ Cell(s, v[2])[1] = "mac") THEN (IF v = <<"sf", "return">> THEN Drop(s, "#'return") ELSE PlainErr(s))
          ELSE Ret(s, v))
    [] f = "cond" -> CondGo(s, rest, env)
    [] f = "case" -> EvK(s, Car(s, rest), env, <<"case", Cdr(s, rest), env>>)
    [] f = "while" -> WhileGo(s, Car(s, rest), Cdr(s, rest), env, Nil)
    [] f = "when" -> EvK(s, Car(s, rest), env, <<"when", TRUE, Cdr(s, rest), env>>)
    [] f = "unless" -> EvK(s, Car(s, rest), env, <<"when", FALSE, Cdr(s, rest), env>>)
    [] f = "and" -> (IF rest = Nil THEN Drop(s, "and") ELSE AndGo(s, rest, env))
    [] f = "or" -> (IF rest = Nil THEN Drop(s, "or") ELSE OrGo(s, rest, env))
    [] f = "block" ->
         (LET n == s.act + 1 IN
          Progn(Push([s EXCEPT !.act = n], <<"blk", n>>), Cdr(s, rest), <<"b", Car(s, rest), n, env>>))
    [] f = "return-from" ->
         (LET b == FindB(env, Car(s, rest)) IN
          IF b # 0 /\ ActIn(s.k, b) THEN EvK(s, Nth(s, rest, 1), env, <<"rf", b>>) ELSE CtlErr(s))
    [] f = "return" -> Args(s, <<"ret", env>>, <<>>, rest, env)
    [] f = "catch" -> EvK(s, Car(s, rest), env, <<"cattag", Cdr(s, rest), env>>)
    [] f = "tagbody" ->
         (LET n == s.act + 1
              tags == SelectSeq(ToSeq(s, rest), LAMBDA x : IsSym(x)) IN
          TagGo([s EXCEPT !.act = n], n, rest, rest, <<"g", tags, n, env>>))
    [] f = "go" ->
         (LET g == FindG(env, Car(s, rest)) IN IF g # 0 /\ ActIn(s.k, g) THEN Un(s, <<"go", g, Car(s, rest)>>) ELSE CtlErr(s))
    [] f = "unwind-protect" -> EvK([s EXCEPT !.nup = @ + 1], Car(s, rest), env, <<"up", Cdr(s, rest), env>>)
    [] f \in {"flet", "labels"} ->
         (LET defs == ToSeq(s, Car(s, rest))
              base == TopAddr(s)
              e2 == FnEnv(env, s, defs, base, 1)
              cells == [i \in 1..Len(defs) |-> MkClo(s, Nth(s, defs[i], 1), NthCell(s, defs[i], 2), IF f = "flet" THEN env ELSE e2)] IN
          Progn([s EXCEPT !.hp = @ \o cells], Cdr(s, rest), e2))
    [] f = "defun" ->
         (LET n == Car(s, rest)[2] IN
          IF n \in SpecialForms THEN (IF n \in {"when", "unless", "for", "dolist", "dotimes", "prog1", "prog2", "incf", "decf", "setf", "case-using", "return"} THEN Drop(s, "defun") ELSE ProgErr(s))
          ELSE IF IsBuiltin(n) /\ ~Cases[s.pid].redef THEN Drop(s, "redefinition of a built-in function")
          ELSE DefFn(s, n, MkClo(s, Nth(s, rest, 1), NthCell(s, rest, 2), env)))
    [] f = "defmacro" ->
         (LET n == Car(s, rest)[2]
              p == Params(s, Nth(s, rest, 1), <<>>) IN
          IF n \in SpecialForms \/ IsBuiltin(n) THEN Drop(s, "defmacro")
          ELSE DefFn(s, n, <<"mac", p[1], p[2], NthCell(s, rest, 2), env>>))
    [] f = "defgeneric" ->
         (LET n == Car(s, rest)[2]
              p == Params(s, Nth(s, rest, 1), <<>>) IN
          IF n \in SpecialForms \/ IsBuiltin(n) THEN Drop(s, "defgeneric")
          ELSE DefFn(s, n, <<"gen", n, Len(p[1]), p[2] # <<>>, <<>>>>))
    [] f \in {"defglobal", "defconstant"} -> EvK(s, Nth(s, rest, 1), env, <<"defg", Car(s, rest)>>)
    [] f = "defdynamic" -> EvK(s, Nth(s, rest, 1), env, <<"defd", Car(s, rest), FALSE>>)
    [] f = "dynamic" ->
         (LET n == Car(s, rest)
              a == FindDyn(s.dyn, n) IN
          IF a # 0 THEN Ret(s, s.st[a]) ELSE IF n[2] \in DOMAIN s.dg THEN Ret(s, s.dg[n[2]]) ELSE Unbound(s, n))
    [] f = "set-dynamic" -> EvK(s, Car(s, rest), env, <<"defd", Nth(s, rest, 1), TRUE>>)
    [] f = "dynamic-let" -> DynLetGo(s, Car(s, rest), <<>>, <<>>, Cdr(s, rest), env)
    [] f = "with-handler" -> EvK(s, Car(s, rest), env, <<"whf", Cdr(s, rest), env>>)
    [] f = "ignore-errors" -> Progn(Push([s EXCEPT !.hs = <<>>], <<"ie", s.hs>>), rest, env)
    [] f = "continue-condition" -> Args(s, <<"cc">>, <<>>, rest, env)
    [] f = "funcall" -> EvK(s, Car(s, rest), env, <<"fc", Cdr(s, rest), env>>)
    [] f = "apply" -> EvK(s, Car(s, rest), env, <<"apf", Cdr(s, rest), env>>)
    [] f = "quasiquote" ->
         (LET x == Car(s, rest)
              h == Holes(s, x)
              r == Build(s, <<"L", h>>) IN Args(r[1], <<"qq", x>>, <<>>, r[2], env))
    [] f = "defclass" -> DefClass(s, rest, env)
    [] f = "defmethod" -> DefMethod(s, rest, env)
    [] f = "convert" -> EvK(s, Car(s, rest), env, <<"conv", Nth(s, rest, 1)>>)
    [] f = "instancep" -> Args(s, <<"insp">>, <<>>, rest, env)
    [] f = "class" -> Args(s, <<"class">>, <<>>, rest, env)
    [] f = "setf" -> SetfTo(s, rest, env)
    [] f \in {"%set-subseq", "%set-nthcdr", "%set-assoc"} -> Args(s, <<f>>, <<>>, rest, env)
    [] f = "%set-elt" -> Args(s, <<"selt", Car(s, rest), env>>, <<>>, Cdr(s, rest), env)
    [] f \in {"incf", "decf"} ->
         (LET d == IF Cdr(s, rest) = Nil THEN IntV(1) ELSE Nth(s, rest, 1) IN
          EvTree(s, <<"L", <<Sym("setf"), Car(s, rest), <<"L", <<Sym(IF f = "incf" THEN "+" ELSE "-"), Car(s, rest), d>>>>>>>>, env))
    [] f = "prog1" -> EvK(s, Car(s, rest), env, <<"prog1", Cdr(s, rest), env>>)
    [] f = "prog2" -> EvK(s, Car(s, rest), env, <<"prog2", Cdr(s, rest), env>>)
    [] f = "for" -> EvTree(s, ForTree(s, rest), env)
    [] f = "case-using" -> EvTree(Fresh(s), CaseUsingTree(s, rest, <<"g", s.gs + 1>>), env)
    [] f = "dolist" ->
         (LET n == s.act + 1
              sp == Car(s, rest)
              e == <<"b", Nil, n, env>> IN
          EvK(Push([s EXCEPT !.act = n], <<"blk", n>>), Nth(s, sp, 1), e, <<"dlv", Car(s, sp), Cdr(s, rest), e>>))
    [] f \in {"with-open-input-file", "with-open-output-file"} ->
         EvK(s, Nth(s, Car(s, rest), 1), env, <<"wof", f = "with-open-input-file", Car(s, Car(s, rest)), Cdr(s, rest), env>>)
    [] f = "with-standard-input" -> EvK(s, Car(s, rest), env, <<"wsi", Cdr(s, rest), env>>)
    [] f = "dotimes" -> EvK(s, Nth(s, Car(s, rest), 1), env, <<"dtv", Car(s, Car(s, rest)), Cdr(s, rest), env>>)
    [] OTHER -> Drop(s, "special form " \o f)

DolistGo(s, a, l, body, env, last) ==
  IF l = Nil THEN Ret(s, last)
  ELSE IF ~IsCons(s, l) THEN Drop(s, "dolist over no list")
  ELSE Progn(Push([s EXCEPT !.st[a] = Car(s, l)], <<"dl", a, Cdr(s, l), body, env>>), body, env)
DotimesGo(s, a, n, body, env, first) ==
  IF s.st[a][1] # "i" THEN Drop(s, "dotimes")
  ELSE IF s.st[a][2] >= n THEN Ret(s, IF first THEN Nil ELSE <<"?">>)
  ELSE Progn(Push(s, <<"dt", a, n, body, env>>), body, env)

EvStep(s) ==
  LET x == s.x
      env == s.env
      op == Car(s, x)
      rest == Cdr(s, x) IN
  IF IsSym(op) THEN
    LET f == LookupFn(s, env, op) IN
    CASE f[1] = "none" -> Undefined(s, op)
      [] f[1] = "sf" -> Special(s, f[2], rest, env)
      [] f[1] = "p" /\ Cell(s, f[2])[1] = "mac" -> MacroExpand(Push(s, <<"mx", env>>), f, rest, env)
      [] ~IsProper(s, rest) -> PlainErr(s)
      [] OTHER -> Args(s, f, <<>>, rest, env)
  ELSE EvK(s, op, env, <<"opf", rest, env>>)

\* ---------------------------------------------------------------- return of a value to the innermost frame
RtStep(s0) ==
  LET f == s0.k[1]
      v == s0.x
      s == Pop(s0) IN
  IF v = <<"?">> /\ f[1] \notin {"progn", "dl", "dt", "whb", "tb", "upc", "blk", "wh", "ie", "dyn", "cat", "prog1", "wofc", "wsir", "up", "hsr", "rep"} THEN Drop(s, "unspecified value")
  ELSE
  CASE f[1] = "progn" -> Progn(s, f[2], f[3])
    [] f[1] = "args" -> Args(s, f[2], Append(f[3], v), f[4], f[5])
    [] f[1] = "if" -> (IF Some(v) THEN Ev(s, Car(s, f[2]), f[3])
                       ELSE IF Cdr(s, f[2]) = Nil THEN Ret(s, Nil) ELSE Ev(s, Nth(s, f[2], 1), f[3]))
    [] f[1] = "when" -> (IF Some(v) = f[2] THEN Progn(s, f[3], f[4]) ELSE Ret(s, Nil))
    [] f[1] = "cond" -> (IF ~Some(v) THEN CondGo(s, f[3], f[4]) ELSE IF f[2] = Nil THEN Ret(s, v) ELSE Progn(s, f[2], f[4]))
    [] f[1] = "case" -> (LET b == Clauses(s, f[2], v) IN IF b = <<"none">> THEN Ret(s, Nil) ELSE Progn(s, b, f[3]))
    [] f[1] = "and" -> (IF Some(v) THEN AndGo(s, f[2], f[3]) ELSE Ret(s, Nil))
    [] f[1] = "or" -> (IF Some(v) THEN Ret(s, v) ELSE OrGo(s, f[2], f[3]))
    [] f[1] = "let" -> LetGo(s, f[4], f[2], Append(f[3], v), f[5], f[6])
    [] f[1] = "let*" -> (LET b == Bind(s, f[5], <<f[2]>>, <<v>>) IN LetSGo(b[1], f[3], f[4], b[2]))
    [] f[1] = "setq" -> (LET r == SetVar(s, f[4], f[2], v) IN
                         IF ~r[1] THEN r[2] ELSE IF f[3] = Nil THEN Ret(r[2], v)
                         ELSE EvK(r[2], Nth(s, f[3], 1), f[4], <<"setq", Car(s, f[3]), NthCell(s, f[3], 2), f[4]>>))
    [] f[1] = "psetq" -> PSetGo(s, f[4], f[2], Append(f[3], v), f[5])
    [] f[1] = "whc" -> (IF Some(v) THEN Progn(Push(s, <<"whb", f[2], f[3], f[4]>>), f[3], f[4]) ELSE Ret(s, f[5]))
    [] f[1] = "whb" -> WhileGo(s, f[2], f[3], f[4], v)
    [] f[1] = "opf" -> (IF IsFn(s, v) THEN Args(s, v, <<>>, f[2], f[3]) ELSE Raise(s, "<undefined-function>", <<>>, <<"dr">>))
    [] f[1] = "fc" -> (IF IsFn(s, v) THEN Args(s, v, <<>>, f[2], f[3]) ELSE Raise(s0, "<domain-error>", <<v, "<function>">>, <<"cv", "<function>">>))
    [] f[1] = "apf" -> (IF IsFn(s, v) THEN Args(s, <<"apply", v>>, <<>>, f[2], f[3]) ELSE Raise(s0, "<domain-error>", <<v, "<function>">>, <<"cv", "<function>">>))
    [] f[1] = "mx" -> (IF v[1] = "j" THEN Drop(s, "expansion") ELSE Ev(s, v, f[2]))
    [] f[1] = "map" ->
         (LET ls == IF f[2] \in {"mapcar", "mapc", "mapcan"} THEN f[4] ELSE [i \in 1..Len(f[4]) |-> Cdr(s, f[4][i])] IN
          MapGo(s, f[2], f[3], ls, Append(f[5], v), f[6]))
    [] f[1] = "blk" -> Ret(s, v)
    [] f[1] = "rf" -> Un(s, <<"ret", f[2], v>>)
    [] f[1] = "cattag" -> Progn(Push(s, <<"cat", v>>), f[2], f[3])
    [] f[1] = "cat" -> Ret(s, v)
    [] f[1] = "tb" -> TagGo(s, f[2], f[3], f[4], f[5])
    [] f[1] = "up" -> Progn(Push([s EXCEPT !.ncl = @ + 1], <<"upc", <<"rt", v>>>>), f[2], f[3])
    [] f[1] = "upc" -> (IF f[2][1] = "rt" THEN Ret(s, f[2][2]) ELSE Un(s, f[2]))
    [] f[1] = "whf" -> (IF IsFn(s, v) THEN Progn(Push([s EXCEPT !.hs = <<v, @>>], <<"wh", s.hs>>), f[2], f[3])
                        ELSE Raise(s0, "<domain-error>", <<v, "<function>">>, <<"cv", "<function>">>))
    [] f[1] \in {"wh", "ie", "hsr"} -> Ret([s EXCEPT !.hs = f[2]], v)
    [] f[1] = "hret" -> [s EXCEPT !.mode = "sig", !.hs = f[5], !.x = <<f[2], f[3], f[4], f[5]>>]
    [] f[1] = "dyl" -> DynLetGo(s, f[4], f[2], Append(f[3], v), f[5], f[6])
    [] f[1] = "dyn" -> Ret([s EXCEPT !.dyn = f[2]], v)
    [] f[1] = "defg" -> Ret([s EXCEPT !.gv = (f[2][2] :> v) @@ @], f[2])
    [] f[1] = "defd" ->
         (LET a == FindDyn(s.dyn, f[2])
              s1 == IF a # 0 THEN [s EXCEPT !.st[a] = v] ELSE [s EXCEPT !.dg = (f[2][2] :> v) @@ @] IN
          Ret(s1, IF f[3] THEN v ELSE f[2]))
    [] f[1] = "conv" -> (IF f[2][1] = "s" THEN Convert(s, v, f[2][2]) ELSE Drop(s, "convert"))
    [] f[1] = "prog1" -> Progn(Push(s, <<"keep", v>>), f[2], f[3])
    [] f[1] = "prog2" -> EvK(s, Car(s, f[2]), f[3], <<"prog1", Cdr(s, f[2]), f[3]>>)
    [] f[1] = "keep" -> Ret(s, f[2])
    [] f[1] = "dlv" -> (LET b == Bind(s, f[4], <<f[2]>>, <<Nil>>) IN DolistGo(b[1], Len(b[1].st), v, f[3], b[2], Nil))
    [] f[1] = "dl" -> DolistGo(s, f[2], f[3], f[4], f[5], v)
    [] f[1] = "dtv" -> (IF v[1] # "i" THEN Drop(s, "dotimes")
                        ELSE LET b == Bind(s, f[4], <<f[2]>>, <<IntV(0)>>) IN DotimesGo(b[1], Len(b[1].st), v[2], f[3], b[2], TRUE))
    [] f[1] = "dt" -> (IF s.st[f[2]][1] # "i" THEN Drop(s, "dotimes")
                       ELSE DotimesGo([s EXCEPT !.st[f[2]] = IntV(@[2] + 1)], f[2], f[3], f[4], f[5], FALSE))
    [] f[1] = "wof" ->
         (IF v[1] # "str" THEN Raise(s0, "<domain-error>", <<v, "<string>">>, <<"cv", "<string>">>)
          ELSE LET r == IF f[2] THEN OpenIn(s, v[2]) ELSE OpenOut(s, v[2]) IN
            IF r.mode # "rt" THEN r
            ELSE LET b == Bind(r, f[5], <<f[3]>>, <<r.x>>) IN Progn(Push(b[1], <<"wofc", r.x>>), f[4], b[2]))
    [] f[1] = "wofc" -> Ret(CloseS(s, f[2]), v)
    [] f[1] = "wsi" ->
         (IF IsIs(s, v) THEN Progn(Push([s EXCEPT !.si = v], <<"wsir", s.si>>), f[2], f[3])
          ELSE IF v[1] = "p" /\ Cell(s, v[2])[1] \in {"os", "fo"} THEN Drop(s, "stream") ELSE PlainErr(s))
    [] f[1] = "wsir" -> Ret([s EXCEPT !.si = f[2]], v)
    [] f[1] = "rep" -> Un([s EXCEPT !.hs = f[4]], <<"err", f[2], Cell(s, f[3][2])[2]>>)
    [] f[1] = "initf" -> InitForms(SetSlot(s, f[2], f[3], v), f[2], f[4])
    [] OTHER -> Drop(s, "frame " \o f[1])

\* ---------------------------------------------------------------- transfer of control
\* x: <<"ret",act,v>> <<"thr",tag,v>> <<"go",act,tag>> <<"err",cond>> <<"cc",cond,v>> <<"quit">> <<"abort">>
Unknown == <<-1>>
\* the text of an error, after which lines about the calls that were active may follow
HasText(got, text) == LET n == Len(text) IN Len(got) >= n /\ SubSeq(got, 1, n) = text /\ (Len(got) = n \/ got[n + 1] = 10)
\* The end of a call of Interpret: the text written, then the outcome. want: the outcome, <<>> for an error which is not
\* specified any further; text: the text of an error made by the program. Of the command we see the exit status and the output.
ExitStatus(s, want, text) ==
  LET got == IF s.tp <= Len(Trace(s)) THEN Trace(s)[s.tp] ELSE <<"none">>
      ok == want # <<>> /\ (want[2] = "val" \/ want[3] = <<"s", "quit">>)
      n == Len(s.eo) IN
  IF /\ got[1] = "exit" /\ got[2] = (IF ok THEN 0 ELSE 1) /\ got[3] = s.out
     /\ IF ok THEN got[4] = s.eo
        ELSE IF text # Unknown THEN HasText(got[4], s.eo \o text) /\ got[4][Len(got[4])] = 10 /\ Len(got[4]) > n + Len(text)
        ELSE Len(got[4]) > n + 1 /\ SubSeq(got[4], 1, n) = s.eo /\ got[4][Len(got[4])] = 10
  THEN [s EXCEPT !.mode = "top", !.x = Nil, !.k = <<>>, !.gi = @ + 1, !.fi = 1, !.out = <<>>, !.eo = <<>>, !.tp = @ + 1]
  ELSE Reject(s, <<"exit", IF ok THEN 0 ELSE 1, s.out, s.eo \o text>>)
Outcome(s, want, text) ==
  LET w1 == IF s.out = <<>> THEN <<>> ELSE <<<<"out", s.out>>>>
      w == IF s.eo = <<>> THEN w1 ELSE Append(w1, <<"eout", s.eo>>)
      n == Len(w)
      tr == Trace(s)
      got(i) == IF i <= Len(tr) THEN tr[i] ELSE <<"none">>
      bad == {i \in 1..n : got(s.tp + i - 1) # w[i]}
      r == got(s.tp + n)
      same == IF want = <<>> THEN r[2] = "err" /\ r[3][2] \notin {"quit", "abort", "ctx"}
              ELSE r[2] = want[2] /\ r[3] = want[3] /\ (text = Unknown \/ Len(r) = 3 \/ HasText(r[4], text)) IN
  IF Cases[s.pid].cli THEN ExitStatus(s, want, text)
  ELSE IF bad # {} THEN Reject([s EXCEPT !.tp = @ + MinOf(bad) - 1], w[MinOf(bad)])
  ELSE IF r[1] # "res" \/ ~same
  THEN Reject([s EXCEPT !.tp = @ + n], IF want = <<>> THEN <<"res", "err", <<"any error">>>> ELSE IF text = Unknown THEN want ELSE Append(want, text))
  ELSE [s EXCEPT !.mode = "top", !.x = Nil, !.k = <<>>, !.gi = @ + 1, !.fi = 1, !.out = <<>>, !.eo = <<>>, !.can = 0, !.tp = @ + n + 1]
ErrIs(n) == <<"res", "err", <<"s", n>>>>
ErrOutcome(s, x) ==
  LET c == x[2]
      text == IF Len(x) > 2 THEN x[3] ELSE Unknown
      cell == IF c[1] = "p" THEN Cell(s, c[2]) ELSE <<"none">> IN
  CASE cell[1] = "inst" -> Outcome(s, ErrIs("plain"), text)
    [] cell[1] = "cond" /\ cell[2] # "?" -> Outcome(s, ErrIs(cell[2]), Unknown)
    [] cell[1] = "cond" /\ Len(cell[3]) = 2 /\ cell[3][1] = "host" -> Outcome(s, <<"res", "err", <<"s", "host", cell[3][2]>>>>, Unknown)
    [] cell[1] = "cond" -> Outcome(s, <<>>, Unknown)
    [] OTHER -> Outcome(s, ErrIs("plain"), text)

\* The error which a condition becomes when no handler took care of it: its text is what report-condition writes.
Report(s, cond, saved) ==
  LET cell == IF cond[1] = "p" THEN Cell(s, cond[2]) ELSE <<"none">> IN
  IF cell[1] = "cond" \/ (cell[1] = "inst" /\ cell[2] = "<simple-error>" /\ DOMAIN cell[3] # {"format-string", "format-arguments"})
  THEN Un([s EXCEPT !.hs = saved], <<"err", cond>>)
  ELSE LET st == NewPtr(s)
           s1 == [Alloc(s, <<"os", <<>>, TRUE>>) EXCEPT !.hs = <<>>] IN
       Apply(Push(s1, <<"rep", cond, st, saved>>), s.fns["report-condition"], <<cond, st>>)

RECURSIVE UnStep(_)
UnStep(s0) ==
  LET x == s0.x IN
  IF s0.k = <<>> THEN
    CASE x[1] = "err" -> ErrOutcome(s0, x)
      [] x[1] = "quit" -> Outcome(s0, ErrIs("quit"), Unknown)
      [] x[1] = "abort" -> Outcome(s0, ErrIs("abort"), <<97, 98, 111, 114, 116>>)
      [] OTHER -> Drop(s0, "exit " \o x[1])
  ELSE
  LET f == s0.k[1]
      s == Pop(s0) IN
  CASE f[1] = "blk" -> (IF x[1] = "ret" /\ x[2] = f[2] THEN Ret(s, x[3]) ELSE UnStep(s))
    [] f[1] = "cat" -> (IF x[1] = "thr" /\ Same(s, x[2], f[2], "eql") THEN Ret(s, x[3]) ELSE UnStep(s))
    [] f[1] = "tb" -> (IF x[1] = "go" /\ x[2] = f[2] THEN TagGo(s, f[2], AfterTag(s, f[4], x[3]), f[4], f[5]) ELSE UnStep(s))
    [] f[1] = "up" -> Progn(Push([s EXCEPT !.ncl = @ + 1], <<"upc", x>>), f[2], f[3])
    [] f[1] = "upc" -> (IF x[1] \in {"ret", "thr", "go"} THEN CtlErr(s) ELSE IF x[1] = "cc" THEN Drop(s, "continue from a cleanup") ELSE UnStep(s))
    [] f[1] \in {"wh", "hsr"} -> UnStep([s EXCEPT !.hs = f[2]])
    [] f[1] = "ie" -> (LET s1 == [s EXCEPT !.hs = f[2]] IN IF x[1] = "err" THEN Ret(s1, Nil) ELSE UnStep(s1))
    [] f[1] = "rep" -> (LET s1 == [s EXCEPT !.hs = f[4]] IN
                        CASE x[1] = "err" ->
                               (LET c == IF x[2][1] = "p" THEN Cell(s, x[2][2]) ELSE <<"none">> IN
                                IF c[1] = "cond" /\ c[2] = "<undefined-function>" /\ c[3] # <<>> /\ c[3][1] = Sym("report-condition")
                                THEN Un(s1, IF Printable(s, f[2]) THEN <<"err", f[2], Pr(s, f[2], FALSE)>> ELSE <<"err", f[2]>>)
                                ELSE Un(s1, <<"err", x[2]>>))
                          [] x[1] \in {"quit", "abort"} -> UnStep(s1)
                          [] OTHER -> Drop(s, "exit from report-condition"))
    [] f[1] = "dyn" -> UnStep([s EXCEPT !.dyn = f[2]])
    [] f[1] = "wofc" -> UnStep(CloseS(s, f[2]))
    [] f[1] = "wsir" -> UnStep([s EXCEPT !.si = f[2]])
    [] f[1] = "hret" ->
         (IF x[1] # "cc" THEN UnStep([s EXCEPT !.hs = f[5]])
          ELSE IF x[2] # f[2] THEN Drop(s, "continue another condition")
          ELSE LET ct == f[3]
                   s1 == [s EXCEPT !.hs = f[5]] IN
            CASE ct[1] = "no" -> CtlErr(Push([s EXCEPT !.hs = f[4]], <<"hsr", f[5]>>))
              [] ct[1] = "val" -> Ret(s1, x[3])
              [] ct[1] = "cv" -> (IF InstanceP(s, x[3], ct[2]) THEN Ret(s1, x[3]) ELSE Un(s1, <<"err", f[2]>>))
              [] ct[1] = "te" -> (IF ct[2] \in {"<", ">", "<=", ">="} THEN Drop(s, "continued") ELSE IF ct[5] = "<list>" /\ (x[3][1] = "str" \/ IsArr(s, x[3])) THEN Drop(s, "continue with a sequence")
                                  ELSE IF ~InstanceP(s, x[3], ct[5]) THEN Un(s1, <<"err", f[2]>>)
                                  ELSE IF ct[4] = 0 THEN Drop(s, "continue with a part") ELSE Bi(s1, ct[2], [ct[3] EXCEPT ![ct[4]] = x[3]]))
              [] OTHER -> Drop(s, "continued"))
    [] OTHER -> UnStep(s)

SigStep(s) ==
  LET cond == s.x[1]
      cont == s.x[2]
      rem == s.x[3]
      saved == s.x[4] IN
  IF rem = <<>> THEN Report(s, cond, saved)
  ELSE Apply(Push([s EXCEPT !.hs = rem[2]], <<"hret", cond, cont, rem[2], saved>>), rem[1], <<cond>>)

\* the scope which the World of this call adds to the global one (see harness/drive)
HostVar(n, a, env) == <<"v", Sym(n), a, env>>
HostFn(n, env) == <<"f", Sym(n), <<"fn", "host-f">>, env>>
ViewEnv(s) ==
  LET vs == Cases[s.pid].views
      v == IF s.gi <= Len(vs) THEN vs[s.gi] ELSE 0
      xy == HostVar("host-x", 1, HostVar("host-y", 2, <<>>)) IN
  CASE v = 0 -> <<>>
    [] v = 1 -> xy
    [] v = 2 -> HostVar("host-x", 3, xy)
    [] v = 3 -> HostFn("host-f", <<>>)
    [] OTHER -> HostFn("car", HostFn("host-f", xy))
\* A call of which only this is specified: it returns, a value or an error, and what it writes is text.
AnyCall(s) ==
  LET I == {i \in s.tp..Len(Trace(s)) : Trace(s)[i][1] = "res"}
      B == {i \in s.tp..Len(Trace(s)) : Trace(s)[i][1] \in {"crash", "hang", "cut"}} IN
  IF \E b \in B : Trace(s)[b][1] = "cut" /\ (I = {} \/ b < MinOf(I)) THEN Drop(s, "cut")
  ELSE IF I = {} \/ (\E b \in B : b < MinOf(I)) THEN Reject([s EXCEPT !.tp = Len(Trace(s))], <<"res", "a value or an error">>)
  ELSE LET e == MinOf(I)
           r == Trace(s)[e]
           O == {i \in s.tp..e : Trace(s)[i][1] = "out"}
           E == {i \in s.tp..e : Trace(s)[i][1] = "eout"} IN
    IF ~(r[2] = "val" \/ (r[2] = "err" /\ (r[3][2] # "ctx" \/ Cases[s.pid].timed))) THEN Reject([s EXCEPT !.tp = e], <<"res", "a value or an error">>)
    ELSE [s EXCEPT !.mode = "top", !.x = Nil, !.gi = @ + 1, !.fi = 1, !.tp = e + 1,
                   !.bol = IF O = {} THEN @ ELSE AtBol(Trace(s)[MaxOf(O)][2], @), !.ebol = IF E = {} THEN @ ELSE AtBol(Trace(s)[MaxOf(E)][2], @)]
TopStep(s) ==
  LET gs == Cases[s.pid].groups IN
  IF s.gi > Len(gs) THEN
    IF Cases[s.pid].hasfiles /\ s.tp = Len(Trace(s)) THEN
      LET e == Trace(s)[s.tp]
          I == {i \in 1..Len(s.fs) : ~\E j \in 1..Len(e[2]) : e[2][j][1] = s.fs[i][1] /\ (s.fs[i][2] = <<-1>> \/ e[2][j][2] = s.fs[i][2])} IN
      IF e[1] = "files" /\ e[3] = s.nopen /\ Len(e[2]) = Len(s.fs) /\ I = {} THEN (IF PrintT(ToJson(<<"ACC", Cases[s.pid].id, s.steps>>)) THEN [s EXCEPT !.mode = "done"] ELSE s)
      ELSE Reject(s, <<"files", s.fs, s.nopen>>)
    ELSE IF s.tp = Len(Trace(s)) + 1 /\ ~Cases[s.pid].hasfiles THEN (IF PrintT(ToJson(<<"ACC", Cases[s.pid].id, s.steps>>)) THEN [s EXCEPT !.mode = "done"] ELSE s)
    ELSE Reject(s, <<"end of trace">>)
  ELSE IF gs[s.gi] = <<<<"any">>>> THEN AnyCall(s)
  ELSE IF gs[s.gi] = <<<<"sx">>>> THEN Outcome(s, <<>>, Unknown) \* text which is no sequence of forms
  ELSE IF s.fi > Len(gs[s.gi]) THEN
    IF s.x = <<"?">> THEN Drop(s, "unspecified value")
    ELSE IF AnyCond(s, s.x) THEN Drop(s, "unspecified condition") ELSE Outcome(s, <<"res", "val", Ext(s, s.x)>>, Unknown)
  ELSE Ev([s EXCEPT !.fi = @ + 1], gs[s.gi][s.fi], ViewEnv(s))

\* ---------------------------------------------------------------- cancellation
\* The element <<"cancel">> of the trace: the context of the call of Interpret is cancelled here. From then on the
\* machine may stop at any step: nothing catches that, no cleanup form has to run, and the bindings, handlers and
\* streams of the outermost level are in force again. It has to stop within MaxAfter evaluations of compound forms;
\* a call which is finished before has its ordinary outcome.
MaxAfter == 40
Window == 80
Cancelled(s) == s.can > 0 /\ s.mode \in {"ev", "rt", "un", "sig", "top"} /\ s.steps <= s.ws + Window
                /\ s.tp <= Len(Trace(s)) /\ Trace(s)[s.tp][1] \in {"out", "eout", "res"}
RECURSIVE Unwound(_, _)
Unwound(s, k) == IF k = <<>> THEN [s EXCEPT !.k = <<>>, !.hs = <<>>, !.dyn = <<>>, !.ncl = s.nup]
                 ELSE CASE k[1][1] = "wofc" -> Unwound(CloseS(s, k[1][2]), k[2])
                        [] k[1][1] = "wsir" -> Unwound([s EXCEPT !.si = k[1][2]], k[2])
                        [] OTHER -> Unwound(s, k[2])
StartsWith(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p
CtxEnd(s0) ==
  LET tr == Trace(s0)
      got(i) == IF i <= Len(tr) THEN tr[i] ELSE <<"none">>
      o == IF got(s0.tp)[1] = "out" THEN got(s0.tp)[2] ELSE <<>>
      i1 == IF got(s0.tp)[1] = "out" THEN s0.tp + 1 ELSE s0.tp
      e == IF got(i1)[1] = "eout" THEN got(i1)[2] ELSE <<>>
      i2 == IF got(i1)[1] = "eout" THEN i1 + 1 ELSE i1
      s == Unwound(s0, s0.k) IN
  IF ~StartsWith(o, s.out) THEN Reject(s0, <<"out", s.out>>)
  ELSE IF ~StartsWith(e, s.eo) THEN Reject(s0, <<"eout", s.eo>>)
  ELSE IF got(i2) # <<"res", "err", <<"s", "ctx">>>> THEN Reject([s0 EXCEPT !.tp = i2], <<"res", "err", <<"s", "ctx">>>>)
  ELSE [s EXCEPT !.mode = "top", !.x = Nil, !.gi = @ + 1, !.fi = 1, !.out = <<>>, !.eo = <<>>, !.can = 0, !.cut = s0.steps, !.tp = i2 + 1,
                 !.bol = AtBol(o, s.bol), !.ebol = AtBol(e, s.ebol)]
\* the result of the current call in the trace
ResAt(s) == LET I == {i \in s.tp..Len(Trace(s)) : Trace(s)[i][1] \in {"res", "hang", "crash"}} IN IF I = {} THEN <<"none">> ELSE Trace(s)[MinOf(I)]
CtxRes(s) == LET r == ResAt(s) IN r[1] = "res" /\ r[2] = "err" /\ r[3] = <<"s", "ctx">>

Step(s00) ==
  LET s0 == IF s00.mode = "top" /\ s00.fi = 1 /\ s00.tp <= Len(Trace(s00)) /\ Trace(s00)[s00.tp][1] = "cancel"
            THEN [s00 EXCEPT !.tp = @ + 1, !.can = 1, !.ws = s00.steps] ELSE s00
      s == [s0 EXCEPT !.steps = @ + 1, !.can = IF @ > 0 /\ s0.mode = "ev" THEN @ + 1 ELSE @] IN
  CASE s.mode = "drop" -> (IF PrintT(ToJson(<<"DROP", Cases[s.pid].id, s.x, s.steps>>)) THEN [s EXCEPT !.mode = "done"] ELSE s)
    [] s.steps > Cases[s.pid].fuel -> Drop(s, "fuel")
    [] Len(s.hp) > 5000 -> Drop(s, "heap")
    \* the implementation stopped earlier (see Cancelled), or it went on for too long
    [] s.can > 0 /\ s.tp <= Len(Trace(s)) /\ Trace(s)[s.tp][1] # "ev" /\ s.steps > s.ws + Window /\ CtxRes(s) -> [s EXCEPT !.mode = "done"]
    [] s.can > MaxAfter -> Reject(s, <<"res", "err", <<"s", "ctx">>>>)
    [] s.tp <= Len(Trace(s)) /\ Trace(s)[s.tp] = <<"cut">> -> Drop(s, "long run")
    [] s.mode = "rt" -> (IF s.k = <<>> THEN [s EXCEPT !.mode = "top"] ELSE RtStep(s))
    [] s.mode = "ev" -> EvStep(s)
    [] s.mode = "un" -> UnStep(s)
    [] s.mode = "sig" -> SigStep(s)
    [] s.mode = "top" -> TopStep(s)
    [] OTHER -> Drop(s, "?")

InitGen(n) == IF n = 1 THEN <<"gen", "initialize-object", 1, TRUE, <<<<(<<"<object>">>), <<"<object>">>, <<"ini">>>>>>>>
              ELSE <<"gen", "report-condition", 2, FALSE, <<<<(<<"<simple-error>", "<object>">>), <<>>, <<"rep">>>>>>>>
GlobalConsts == "pi" :> <<"F", <<56, 56, 52, 50, 55, 57, 55, 49, 57, 48, 48, 51, 53, 53, 53>>, -48>> @@ "most-positive-fixnum" :> <<"I", <<57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 55>>>> @@ "most-negative-fixnum" :> <<"I", <<45, 57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 56>>>>
InitState(p) ==
  LET n == Len(Cases[p].cells) IN
  [pid |-> p, steps |-> 0, mode |-> "top", x |-> Nil, env |-> <<>>, k |-> <<>>, hs |-> <<>>, dyn |-> <<>>,
   dg |-> [z \in {} |-> Nil], gv |-> (IF Cases[p].cli THEN "*posix-argv*" :> Cases[p].argv ELSE [z \in {} |-> Nil]) @@ GlobalConsts, cls |-> [z \in {} |-> Nil],
   fns |-> ("initialize-object" :> <<"p", n + 1>>) @@ ("report-condition" :> <<"p", n + 2>>),
   st |-> <<IntV(1), IntV(2), IntV(3)>>, hp |-> <<InitGen(1), InitGen(2), <<"is", Cases[p].stdin, 1, "std", <<>>>>>>,
   fs |-> Cases[p].files, nopen |-> 0, si |-> <<"p", n + 3>>, eo |-> <<>>, ebol |-> TRUE, can |-> 0, ws |-> 0, cut |-> 0, tp |-> 1, act |-> 0, gi |-> 1, fi |-> 1,
   out |-> <<>>, bol |-> TRUE, gs |-> 0, props |-> <<>>, nup |-> 0, ncl |-> 0]

Init == m \in {InitState(p) : p \in 1..Len(Cases)}
Next == \/ m.mode # "done" /\ m' = Step(m)
        \/ Cancelled(m) /\ CtxRes(m) /\ m' = CtxEnd([m EXCEPT !.steps = @ + 1])
Spec == Init /\ [][Next]_m

View == <<m.pid, m.steps, m.cut>>

-----------------------------------------------------------------------------
\* Properties of the machine, checked in every state of every explored behaviour
RECURSIVE HsOf(_, _)
\* the handlers which the frames say are in force
Between == m.mode = "top"
\* C02: every unwind-protect which was entered has started its cleanup when control is back at top level
CleanupsDone == Between => m.nup = m.ncl
\* C03/C04: no dynamic binding and no handler outlives its form
NothingLeft == Between => m.dyn = <<>> /\ m.hs = <<>> /\ m.k = <<>>
\* the dynamic bindings in force are the ones of the dynamic-let frames
RECURSIVE DynDepth(_)
DynDepth(d) == IF d = <<>> THEN 0 ELSE 1 + DynDepth(d[3])
HsOf(k, h) == IF k = <<>> THEN h = <<>>
              ELSE CASE k[1][1] = "wh" -> h # <<>> /\ h[2] = k[1][2] /\ HsOf(k[2], k[1][2])
                     [] k[1][1] = "ie" -> h = <<>> /\ HsOf(k[2], k[1][2])
                     [] k[1][1] = "hsr" -> HsOf(k[2], k[1][2])
                     [] k[1][1] = "rep" -> h = <<>> /\ HsOf(k[2], k[1][4])
                     [] k[1][1] = "hret" -> h = k[1][4] /\ HsOf(k[2], k[1][5])
                     [] OTHER -> HsOf(k[2], h)
HandlersInForce == m.mode \in {"ev", "rt", "un"} => HsOf(m.k, m.hs)
\* a pending exit has its target in the continuation
ExitHasTarget == m.mode = "un" => CASE m.x[1] \in {"ret", "go"} -> ActIn(m.k, m.x[2])
                                    [] m.x[1] = "thr" -> CatIn(m, m.k, m.x[2])
                                    [] OTHER -> TRUE
=============================================================================

------------------------------ MODULE LispLib -------------------------------
(* The built-in functions of gmnlisp which are ordinary functions:           *)
(* Bi(m, f, a) is the state after applying the function named f to the       *)
(* argument values a in state m. Results outside of what is specified        *)
(* (overflows, inexact floats, ...) make the state "drop".                    *)
EXTENDS LispData, Regex

Big == 1073741823
BigF == 67108863

\* <<min, max>> numbers of arguments (-1: any)
Arity ==
     [f \in {"+", "*", "append", "list", "vector", "string-append"} |-> <<0, -1>>]
  @@ [f \in {"-", "/", "=", "<", ">", "<=", ">="} |-> <<1, -1>>]
  @@ [f \in {"eq", "eql", "equal", "equalp", "max", "min"} |-> <<1, -1>>]
  @@ [f \in {"/=", "cons", "assoc", "member", "set-car", "set-cdr", "mod", "rem", "nth", "nthcdr",
             "char=", "char/=", "char<", "char<=", "char>", "char>=",
             "string=", "string/=", "string<", "string<=", "string>", "string>=",
             "gethash", "remhash", "subclassp", "property", "remove-property", "format-char", "format-float", "file-length", "the", "assure", "signal-condition", "throw", "=~", "=~i"} |-> <<2, 2>>]
  @@ [f \in {"set-gethash", "subseq", "set-property", "format-integer", "format-object", "subst"} |-> <<3, 3>>]
  @@ [f \in {"car", "cdr", "rest", "first", "second", "third", "caar", "cadr", "cddr", "caddr", "cdddr", "cadddr",
             "atom", "not", "null", "consp", "listp", "symbolp", "stringp", "numberp", "integerp", "floatp", "characterp", "functionp",
             "generic-function-p", "basic-array-p", "basic-array*-p", "general-array*-p",
             "reverse", "nreverse", "last", "length", "array-dimensions", "1+", "1-", "zerop", "plusp", "minusp", "oddp", "evenp",
             "floor", "ceiling", "truncate", "round", "sqrt", "arithmetic-error-operation", "clrhash", "hash-table-count", "class-of",
             "domain-error-object", "domain-error-expected-class", "undefined-entity-name", "undefined-entity-namespace",
             "arithmetic-error-operands", "simple-error-format-string", "simple-error-format-arguments",
             "create-string-input-stream", "get-output-stream-string", "open-input-file", "open-output-file", "probe-file", "load", "host-f", "return", "eval", "macroexpand", "close", "parse-number", "wildcard"} |-> <<1, 1>>]
  @@ [f \in {"gensym", "make-hash-table", "create-string-output-stream", "quit", "exit", "abort", "standard-output", "standard-input", "error-output"} |-> <<0, 0>>]
  @@ [f \in {"create-array", "create-string"} |-> <<1, 2>>]
  @@ [f \in {"string-index", "char-index"} |-> <<2, 3>>]
  @@ [f \in {"elt", "aref", "create-list", "format", "swap-elt", "mapcar", "mapc", "mapcan", "maplist", "mapl", "mapcon"} |-> <<2, -1>>]
  @@ [f \in {"set-aref"} |-> <<3, -1>>]
  @@ [f \in {"read-char", "read-line", "read"} |-> <<0, 3>>]
  @@ [f \in {"create", "error", "command"} |-> <<1, -1>>]
  @@ [f \in {"cerror"} |-> <<2, -1>>]
  @@ [f \in {"tr"} |-> <<0, -1>>]
  @@ [f \in {"host-fail"} |-> <<1, 1>>]
Builtins == DOMAIN Arity
IsBuiltin(f) == f \in Builtins

-----------------------------------------------------------------------------
\* Numbers
F16(v) == IF v[1] = "f" THEN v[2] ELSE v[2] * 16
InRange(v) == IF v[1] = "f" THEN Abs(v[2]) <= Big ELSE Abs(v[2]) <= Big
FloatOK(v) == IF v[1] = "f" THEN Abs(v[2]) <= Big ELSE Abs(v[2]) <= BigF
NumClass(v) == IF IsIntV(v) THEN "<integer>" ELSE "<float>"
TDiv(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) # (b < 0) THEN -q ELSE q
TRem(a, b) == a - b * TDiv(a, b)
FMod(a, b) == LET r == TRem(a, b) IN IF r # 0 /\ (r < 0) # (b < 0) THEN r + b ELSE r
MulOK(a, b) == a = 0 \/ b = 0 \/ Abs(a) <= Big \div Abs(b)
NoVal == <<"none">>

\* a value, or <<"none">> if the numbers are too big for that
SmallOp(op, x, y) ==
  LET ints == x[1] = "i" /\ y[1] = "i" IN
  IF WideTag(x) \/ WideTag(y) \/ ~InRange(x) \/ ~InRange(y) \/ (~ints /\ ~(FloatOK(x) /\ FloatOK(y))) THEN NoVal
  ELSE CASE op = "+" -> (IF ints THEN IntV(x[2] + y[2]) ELSE <<"f", F16(x) + F16(y)>>)
         [] op = "-" -> (IF ints THEN IntV(x[2] - y[2]) ELSE <<"f", F16(x) - F16(y)>>)
         [] op = "*" -> (IF ints THEN IF MulOK(x[2], y[2]) THEN IntV(x[2] * y[2]) ELSE NoVal
                         ELSE IF ~MulOK(F16(x), F16(y)) THEN NoVal
                         ELSE LET p == F16(x) * F16(y) IN
                              IF Abs(p) % 16 # 0 \/ (p = 0 /\ (F16(x) < 0 \/ F16(y) < 0)) THEN NoVal
                              ELSE <<"f", TDiv(p, 16)>>)
         [] OTHER -> (IF ints THEN IntV(TDiv(x[2], y[2]))
                      ELSE IF Abs(F16(x)) > BigF THEN NoVal
                      ELSE LET p == F16(x) * 16 IN
                           IF Abs(p) % Abs(F16(y)) # 0 \/ (p = 0 /\ F16(y) < 0) THEN NoVal
                           ELSE <<"f", TDiv(p, F16(y))>>)
\* a value, or <<"none">> if the result is not specified: more than 64 bits or an infinite float
NumOp(op, x, y) == LET r == SmallOp(op, x, y) IN IF r # NoVal THEN r ELSE LET w == NumArith(op, x, y) IN IF NumRes(w) THEN w ELSE NoVal
NumLess(x, y) == IF x[1] = "i" /\ y[1] = "i" THEN x[2] < y[2]
                 ELSE IF ~WideTag(x) /\ ~WideTag(y) /\ FloatOK(x) /\ FloatOK(y) THEN F16(x) < F16(y) ELSE NumLt(x, y)

\* the condition holds the operands and the operation
RaiseDivZero(m, f, x, y, cont) ==
  LET base == TopAddr(m) IN
  Raise([m EXCEPT !.hp = @ \o ListCells(base, <<x, y>>, Nil)], "<division-by-zero>", <<<<"p", base + 1>>, <<"fn", f>>>>, cont)

\* + - * / from the i-th argument on, acc being the value of the ones before
RECURSIVE Arith(_, _, _, _, _)
Arith(m, f, a, i, acc) ==
  IF i > Len(a) THEN Ret(m, acc)
  ELSE IF ~IsNum(acc) THEN
    IF acc[1] = "str" /\ f = "+" THEN
      (IF a[i][1] = "str" THEN Arith(m, f, a, i + 1, <<"str", acc[2] \o a[i][2]>>) ELSE TypeErr(m, f, a, i, "<string>"))
    ELSE IF acc[1] = "c" THEN Drop(m, "char arithmetic")
    ELSE PlainErr(m)
  ELSE IF ~IsNum(a[i]) THEN TypeErr(m, f, a, i, NumClass(acc))
  ELSE IF f = "/" /\ NumZero(a[i]) THEN RaiseDivZero(m, f, acc, a[i], IF i = Len(a) THEN <<"val">> ELSE <<"dr">>)
  ELSE LET r == NumOp(f, acc, a[i]) IN IF r = NoVal THEN Drop(m, "range") ELSE Arith(m, f, a, i + 1, r)

\* lexicographic order of code points
RECURSIVE CpsLess(_, _)
CpsLess(s, t) ==
  IF t = <<>> THEN FALSE ELSE IF s = <<>> THEN TRUE
  ELSE IF Head(s) # Head(t) THEN Head(s) < Head(t) ELSE CpsLess(Tail(s), Tail(t))

\* < > <= >= : each adjacent pair is compared
RECURSIVE Compare(_, _, _, _, _)
Compare(m, f, a, i, res) ==
  IF i >= Len(a) THEN Ret(m, Bool(res))
  ELSE LET sw == f = ">" \/ f = "<="
           li == IF sw THEN i + 1 ELSE i
           ri == IF sw THEN i ELSE i + 1
           l == a[li]
           r == a[ri]
           neg == f = "<=" \/ f = ">="
       IN IF IsNum(l) THEN
            IF ~IsNum(r) THEN TypeErr(m, f, a, ri, NumClass(l))
            ELSE Compare(m, f, a, i + 1, res /\ (NumLess(l, r) # neg))
          ELSE IF l[1] = "str" THEN
            IF r[1] # "str" THEN TypeErr(m, f, a, ri, "<string>")
            ELSE Compare(m, f, a, i + 1, res /\ (CpsLess(l[2], r[2]) # neg))
          ELSE PlainErr(m)

DivLike(m, f, a) ==
  LET x == a[1]
      y == a[2] IN
  IF ~IsNum(x) THEN TypeErr(m, f, a, 1, "<float>")
  ELSE IF ~IsNum(y) THEN TypeErr(m, f, a, 2, "<float>")
  ELSE IF NumZero(y) THEN RaiseDivZero(m, f, x, y, <<"val">>)
  ELSE IF x[1] = "i" /\ y[1] = "i" THEN Ret(m, IntV(IF f = "mod" THEN FMod(x[2], y[2]) ELSE TRem(x[2], y[2])))
  ELSE IF IsIntV(x) /\ IsIntV(y) THEN Ret(m, IF f = "mod" THEN IModF(x, y) ELSE IDivT(x, y)[2])
  ELSE LET xd == NumDec(x)
           yd == NumDec(y)
           r == FRemD(xd, yd) IN
       Ret(m, IF f = "mod" /\ ~FZero(r) /\ xd[1] # yd[1] THEN FAddD(FDec(r), yd) ELSE r)

\* floor, ceiling, truncate, round of n/16
NumNeg(v) == IF WideTag(v) THEN v[2][1] = 45 /\ ~NumZero(v) ELSE v[2] < 0
NumPos(v) == ~NumNeg(v) /\ ~NumZero(v)
FloorD(n) == n \div 16
RoundD(n) == LET q == n \div 16
                 r == n % 16 IN IF r < 8 THEN q ELSE IF r > 8 THEN q + 1 ELSE IF q % 2 = 0 THEN q ELSE q + 1
ToInt(f, n) == CASE f = "floor" -> FloorD(n)
                 [] f = "ceiling" -> -FloorD(-n)
                 [] f = "truncate" -> TDiv(n, 16)
                 [] OTHER -> RoundD(n)

RECURSIVE MaxMin(_, _, _, _, _)
\* j: the index of the best one so far
MaxMin(m, f, a, i, j) ==
  IF i > Len(a) THEN Ret(m, a[j])
  ELSE LET li == IF f = "max" THEN j ELSE i
           ri == IF f = "max" THEN i ELSE j
           l == a[li]
           r == a[ri]
       IN IF IsNum(l) THEN (IF ~IsNum(r) THEN TypeErr(m, f, a, ri, NumClass(l)) ELSE MaxMin(m, f, a, i + 1, IF NumLess(l, r) THEN i ELSE j))
          ELSE IF l[1] = "str" THEN (IF r[1] = "str" THEN Drop(m, "strings") ELSE TypeErr(m, f, a, ri, "<string>"))
          ELSE IF l[1] = "c" THEN Drop(m, "characters")
          ELSE PlainErr(m)

NumGroup == {"+", "-", "*", "/", "=", "/=", "<", ">", "<=", ">=", "mod", "rem", "1+", "1-", "max", "min",
             "zerop", "plusp", "minusp", "oddp", "evenp", "floor", "ceiling", "truncate", "round", "sqrt"}
NumBi(m, f, a) ==
  CASE f \in {"+", "*"} -> (IF a = <<>> THEN Ret(m, IF f = "+" THEN IntV(0) ELSE IntV(1)) ELSE IF ~IsNum(a[1]) /\ Len(a) = 1 THEN Drop(m, "one non-number") ELSE Arith(m, f, a, 2, a[1]))
    [] f = "-" -> (IF Len(a) = 1 THEN IF IsNum(a[1]) THEN Arith(m, f, <<IntV(0), a[1]>>, 2, IntV(0)) ELSE Drop(m, "one non-number") ELSE Arith(m, f, a, 2, a[1]))
    [] f = "/" -> (IF Len(a) = 1 THEN Drop(m, "one argument") ELSE Arith(m, f, a, 2, a[1]))
    [] f = "sqrt" -> (IF ~IsNum(a[1]) THEN TypeErr(m, f, a, 1, "<float>")
                      ELSE IF NumLess(a[1], IntV(0)) THEN DomErr(m, a[1], "<number>")
                      ELSE Ret(m, FSqrtD(NumDec(a[1]))))
    [] f \in {"<", ">", "<=", ">="} -> Compare(m, f, a, 1, TRUE)
    [] f = "=" -> Ret(m, Bool(\A i \in 1..(Len(a)-1) : Same(m, a[i], a[i+1], "equalp")))
    [] f = "/=" -> Ret(m, Bool(~Same(m, a[1], a[2], "equalp")))
    [] f \in {"mod", "rem"} -> DivLike(m, f, a)
    [] f = "1+" -> Arith(m, "+", <<a[1], IntV(1)>>, 2, a[1])
    [] f = "1-" -> Arith(m, "-", <<a[1], IntV(1)>>, 2, a[1])
    [] f \in {"max", "min"} -> (IF Len(a) = 1 /\ ~IsNum(a[1]) THEN Drop(m, "one non-number") ELSE MaxMin(m, f, a, 2, 1))
    [] f = "zerop" -> Ret(m, Bool(IsNum(a[1]) /\ NumZero(a[1])))
    [] f = "plusp" -> Ret(m, Bool(IsNum(a[1]) /\ NumPos(a[1])))
    [] f = "minusp" -> Ret(m, Bool(IsNum(a[1]) /\ NumNeg(a[1])))
    [] f = "oddp" -> Ret(m, Bool(IF a[1][1] = "I" THEN ~IEven(a[1]) ELSE a[1][1] = "i" /\ Abs(a[1][2]) % 2 = 1))
    [] f = "evenp" -> Ret(m, Bool(IF a[1][1] = "I" THEN IEven(a[1]) ELSE a[1][1] = "i" /\ Abs(a[1][2]) % 2 = 0))
    [] OTHER -> (IF IsIntV(a[1]) THEN Ret(m, a[1]) ELSE IF a[1][1] = "f" THEN Ret(m, IntV(ToInt(f, a[1][2])))
                 ELSE IF a[1][1] = "F" THEN LET r == FToInt(a[1], f) IN IF r = NoNum THEN Drop(m, "range") ELSE Ret(m, r) ELSE PlainErr(m))

-----------------------------------------------------------------------------
\* Type predicates
PredGroup == {"atom", "not", "null", "consp", "listp", "symbolp", "stringp", "numberp", "integerp", "floatp", "characterp", "functionp",
              "generic-function-p", "basic-array-p", "basic-array*-p", "general-array*-p"}
PredBi(m, f, v) ==
  CASE f = "atom" -> ~IsCons(m, v)
    [] f \in {"not", "null"} -> v = Nil
    [] f = "consp" -> IsCons(m, v)
    [] f = "listp" -> v = Nil \/ IsCons(m, v)
    [] f = "symbolp" -> IsSym(v)
    [] f = "stringp" -> v[1] = "str"
    [] f = "numberp" -> IsNum(v)
    [] f = "integerp" -> IsIntV(v)
    [] f = "floatp" -> IsFltV(v)
    [] f = "characterp" -> v[1] = "c"
    [] f = "functionp" -> IsFn(m, v)
    [] f = "generic-function-p" -> v[1] = "p" /\ Cell(m, v[2])[1] = "gen"
    [] f = "basic-array-p" -> v[1] = "str" \/ IsArr(m, v)
    [] OTHER -> IsArr(m, v) /\ Len(ArrDims(m, v)) >= 2

-----------------------------------------------------------------------------
\* Lists and sequences
RECURSIVE NthCell(_, _, _)
\* the rest of a list after n cells
NthCell(m, v, n) == IF n <= 0 \/ ~IsCons(m, v) THEN v ELSE NthCell(m, Cdr(m, v), n - 1)
ListIdx(m, l, n) == LET c == NthCell(m, l, n) IN IF IsCons(m, c) THEN Car(m, c) ELSE Nil
RECURSIVE Addrs(_, _)
Addrs(m, v) == IF IsCons(m, v) THEN <<v[2]>> \o Addrs(m, Cdr(m, v)) ELSE <<>>
RevSeq(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
RECURSIVE FindMember(_, _, _)
FindMember(m, x, l) == IF ~IsCons(m, l) THEN l ELSE IF Same(m, x, Car(m, l), "eql") THEN l ELSE FindMember(m, x, Cdr(m, l))
InHeap(m, v) == v[1] = "p" /\ v[2] > Len(Code(m))
HIdx(m, a) == a - Len(Code(m))
SetCell(m, a, c) == [m EXCEPT !.hp[HIdx(m, a)] = c]
IsVec(m, v) == IsArr(m, v) /\ Len(ArrDims(m, v)) = 1
RECURSIVE AppendAll(_, _, _, _)
\* <<elements of the lists a[i]..a[Len-1], ok>>
AppendAll(m, a, i, acc) ==
  IF i >= Len(a) THEN <<acc, TRUE>>
  ELSE IF IsProper(m, a[i]) THEN AppendAll(m, a, i + 1, acc \o ToSeq(m, a[i])) ELSE <<acc, FALSE>>
DoAppend(m, a) ==
  IF a = <<>> THEN Ret(m, Nil)
  ELSE IF Len(a) = 1 THEN Ret(m, a[1])
  ELSE LET r == AppendAll(m, a, 1, <<>>) IN
       IF ~r[2] THEN PlainErr(m) ELSE RetListT(m, r[1], a[Len(a)])
RECURSIVE AssocIn(_, _, _)
\* <<"v",value>>, <<"bad">> (not a cons in the list) or <<"end">> (not a list)
AssocIn(m, key, l) ==
  IF l = Nil THEN <<"v", Nil>>
  ELSE IF ~IsCons(m, l) THEN <<"end">>
  ELSE IF ~IsCons(m, Car(m, l)) THEN <<"bad">>
  ELSE IF Same(m, key, Car(m, Car(m, l)), "eql") THEN <<"v", Car(m, l)>>
  ELSE AssocIn(m, key, Cdr(m, l))

CarPath(f) == CASE f \in {"car", "first"} -> <<"a">> [] f \in {"cdr", "rest"} -> <<"d">>
                [] f = "caar" -> <<"a", "a">> [] OTHER -> <<>>
\* cadr, caddr ... are elt and nthcdr
EltPos(f) == CASE f \in {"second", "cadr"} -> 1 [] f \in {"third", "caddr"} -> 2 [] f = "cadddr" -> 3 [] OTHER -> 0

DoElt(m, f, a, s, idx, i) ==
  \* s: sequence, idx: index value, i: position of the index in a
  IF idx[1] # "i" THEN TypeErr(m, f, a, i, "<integer>")
  ELSE LET n == idx[2] IN
    IF IsArr(m, s) THEN
      LET d == ArrDims(m, s) IN
      IF d = <<>> THEN Drop(m, "no dimension")
      ELSE IF n < 0 \/ n >= d[1] THEN PlainErr(m)
      ELSE IF Len(d) = 1 THEN Ret(m, ArrElems(m, s)[n + 1])
      ELSE RetNew(m, <<"sub", Tail(d), ArrBase(m, s), ArrOff(m, s) + n * Prod(Tail(d))>>)
    ELSE IF n < 0 THEN PlainErr(m)
    ELSE IF s[1] = "str" THEN IF n >= Len(s[2]) THEN PlainErr(m) ELSE Ret(m, <<"c", s[2][n + 1]>>)
    ELSE IF s = Nil \/ (IsCons(m, s) /\ IsProper(m, s)) THEN Ret(m, ListIdx(m, s, n))
    ELSE Drop(m, "elt of no sequence")

Slice(s, st, en) == SubSeq(s, Max(st, 0) + 1, Min(en, Len(s)))
DoSubseq(m, a) ==
  IF a[2][1] # "i" THEN TypeErr(m, "subseq", a, 2, "<integer>")
  ELSE IF a[3][1] # "i" THEN TypeErr(m, "subseq", a, 3, "<integer>")
  ELSE LET s == a[1] IN
    IF s[1] = "str" THEN Ret(m, <<"str", Slice(s[2], a[2][2], a[3][2])>>)
    ELSE IF IsVec(m, s) THEN LET e == Slice(ArrElems(m, s), a[2][2], a[3][2]) IN RetNew(m, <<"arr", <<Len(e)>>, e>>)
    ELSE IF s = Nil \/ (IsCons(m, s) /\ IsProper(m, s)) THEN RetList(m, Slice(ToSeq(m, s), a[2][2], a[3][2]))
    ELSE IF s[1] = "p" THEN Drop(m, "subseq of no sequence")
    ELSE TypeErr(m, "subseq", a, 1, "<list>")

ListGroup == {"car", "cdr", "rest", "first", "second", "third", "caar", "cadr", "cddr", "caddr", "cdddr", "cadddr",
              "cons", "list", "append", "reverse", "nreverse", "nth", "nthcdr", "last", "length", "member", "assoc", "elt", "subseq",
              "create-list", "set-car", "set-cdr"}
ListBi(m, f, a) ==
  CASE f \in {"car", "first"} -> (IF IsCons(m, a[1]) THEN Ret(m, Car(m, a[1])) ELSE TypeErr(m, f, a, 1, "<cons>"))
    [] f \in {"cdr", "rest"} -> (IF IsCons(m, a[1]) THEN Ret(m, Cdr(m, a[1])) ELSE TypeErr(m, f, a, 1, "<cons>"))
    [] f = "caar" -> (IF ~IsCons(m, a[1]) THEN TypeErr(m, f, a, 0, "<cons>")
                      ELSE IF IsCons(m, Car(m, a[1])) THEN Ret(m, Car(m, Car(m, a[1]))) ELSE TypeErr(m, f, a, 0, "<cons>"))
    [] f \in {"second", "third", "cadr", "caddr", "cadddr"} ->
         (IF a[1] = Nil \/ (IsCons(m, a[1]) /\ IsProper(m, a[1])) THEN Ret(m, ListIdx(m, a[1], EltPos(f))) ELSE Drop(m, "no list"))
    [] f \in {"cddr", "cdddr"} ->
         (IF a[1] = Nil \/ (IsCons(m, a[1]) /\ IsProper(m, a[1])) THEN Ret(m, NthCell(m, a[1], IF f = "cddr" THEN 2 ELSE 3)) ELSE Drop(m, "no list"))
    [] f = "nth" -> DoElt(m, f, a, a[2], a[1], 1)
    [] f = "nthcdr" -> (IF a[1][1] # "i" THEN Drop(m, "nthcdr")
                        ELSE IF a[2] = Nil \/ (IsCons(m, a[2]) /\ IsProper(m, a[2])) THEN Ret(m, NthCell(m, a[2], a[1][2])) ELSE Drop(m, "no list"))
    [] f = "cons" -> RetNew(m, <<"cons", a[1], a[2]>>)
    [] f = "list" -> RetList(m, a)
    [] f = "append" -> DoAppend(m, a)
    [] f = "reverse" -> (IF IsProper(m, a[1]) THEN RetList(m, RevSeq(ToSeq(m, a[1]))) ELSE PlainErr(m))
    [] f = "nreverse" ->
         (IF a[1] = Nil THEN Ret(m, Nil)
          ELSE IF ~IsCons(m, a[1]) THEN TypeErr(m, f, a, 0, "<cons>")
          ELSE IF ~IsProper(m, a[1]) THEN Drop(m, "improper")
          ELSE LET as == Addrs(m, a[1]) IN
               IF \E i \in 1..Len(as) : as[i] <= Len(Code(m)) THEN Drop(m, "constant")
               ELSE LET upd(i) == <<"cons", Cell(m, as[i])[2], IF i = 1 THEN Nil ELSE <<"p", as[i-1]>>>>
                        hp2 == [j \in 1..Len(m.hp) |-> IF \E i \in 1..Len(as) : HIdx(m, as[i]) = j
                                                       THEN upd(CHOOSE i \in 1..Len(as) : HIdx(m, as[i]) = j) ELSE m.hp[j]]
                    IN Ret([m EXCEPT !.hp = hp2], <<"p", as[Len(as)]>>))
    [] f = "last" -> (IF a[1] = Nil THEN Ret(m, Nil)
                      ELSE IF IsProper(m, a[1]) THEN LET s == ToSeq(m, a[1]) IN Ret(m, s[Len(s)])
                      ELSE TypeErr(m, f, a, 0, "<cons>"))
    [] f = "length" -> (IF a[1][1] = "str" THEN Ret(m, IntV(Len(a[1][2])))
                        ELSE IF IsVec(m, a[1]) THEN Ret(m, IntV(ArrDims(m, a[1])[1]))
                        ELSE IF IsProper(m, a[1]) THEN Ret(m, IntV(Len(ToSeq(m, a[1]))))
                        ELSE IF IsCons(m, a[1]) THEN (IF TailOf(m, a[1])[1] = "str" \/ IsArr(m, TailOf(m, a[1])) THEN Drop(m, "tail") ELSE TypeErr(m, f, a, 0, "<list>"))
                        ELSE TypeErr(m, f, a, 1, "<list>"))
    [] f = "member" -> (IF a[2][1] = "str" THEN Drop(m, "string")
                        ELSE LET r == FindMember(m, a[1], a[2]) IN
                             IF r = Nil \/ IsCons(m, r) THEN Ret(m, r)
                             ELSE IF r[1] = "str" THEN Drop(m, "string")
                             ELSE TypeErr(m, f, a, IF IsCons(m, a[2]) THEN 0 ELSE 2, "<list>"))
    [] f = "assoc" -> (LET r == AssocIn(m, a[1], a[2]) IN
                       IF r[1] = "v" THEN Ret(m, r[2]) ELSE IF r[1] = "bad" THEN TypeErr(m, f, a, 0, "<cons>") ELSE PlainErr(m))
    [] f = "elt" -> (IF Len(a) = 2 THEN DoElt(m, f, a, a[1], a[2], 2) ELSE Drop(m, "elt with several indices"))
    [] f = "subseq" -> DoSubseq(m, a)
    [] f = "create-list" -> (IF Len(a) # 2 THEN Drop(m, "create-list")
                             ELSE IF a[1][1] # "i" THEN TypeErr(m, f, a, 1, "<integer>")
                             ELSE IF a[1][2] > 64 THEN Drop(m, "big")
                             ELSE RetList(m, [i \in 1..Max(a[1][2], 0) |-> a[2]]))
    [] f \in {"set-car", "set-cdr"} ->
         (IF ~IsCons(m, a[2]) THEN TypeErr(m, f, a, 2, "<cons>")
          ELSE IF ~InHeap(m, a[2]) THEN Drop(m, "constant")
          ELSE LET c == Cell(m, a[2][2]) IN
               Ret(SetCell(m, a[2][2], IF f = "set-car" THEN <<"cons", a[1], c[3]>> ELSE <<"cons", c[2], a[1]>>), a[1]))
    [] OTHER -> Drop(m, f)

-----------------------------------------------------------------------------
\* Characters and strings
RECURSIVE ConcatStr(_, _)
ConcatStr(a, i) == IF i > Len(a) THEN <<>> ELSE a[i][2] \o ConcatStr(a, i + 1)
CmpBy(f, lt, eq) ==
  CASE f \in {"=", "string=", "char="} -> eq
    [] f \in {"string/=", "char/="} -> ~eq
    [] f \in {"string<", "char<"} -> lt
    [] f \in {"string<=", "char<="} -> lt \/ eq
    [] f \in {"string>", "char>"} -> ~lt /\ ~eq
    [] OTHER -> ~lt
MatchAt(s, t, i) == i + Len(t) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(t) - 1) = t
\* least position i >= st (from 0) such that P holds, or -1
MinOf(S) == CHOOSE i \in S : \A j \in S : i <= j
MaxOf(S) == CHOOSE i \in S : \A j \in S : j <= i

StrGroup == {"string-append", "create-string", "string-index", "char-index",
             "string=", "string/=", "string<", "string<=", "string>", "string>=",
             "char=", "char/=", "char<", "char<=", "char>", "char>="}
StrBi(m, f, a) ==
  CASE f = "string-append" ->
         (LET bad == {i \in 1..Len(a) : a[i][1] # "str"} IN
          IF bad = {} THEN Ret(m, <<"str", ConcatStr(a, 1)>>) ELSE TypeErr(m, f, a, MinOf(bad), "<string>"))
    [] f = "create-string" ->
         (IF a[1][1] # "i" THEN TypeErr(m, f, a, 1, "<integer>")
          ELSE IF Len(a) = 2 /\ a[2][1] # "c" THEN TypeErr(m, f, a, 2, "<character>")
          ELSE IF a[1][2] < 0 THEN DomErr(m, a[1], "<integer>")
          ELSE IF a[1][2] > 20000 THEN Drop(m, "big")
          ELSE Ret(m, <<"str", [i \in 1..a[1][2] |-> IF Len(a) = 2 THEN a[2][2] ELSE 32]>>))
    [] f = "char-index" ->
         (IF a[1][1] # "c" THEN TypeErr(m, f, a, 1, "<character>")
          ELSE IF a[2][1] # "str" THEN TypeErr(m, f, a, 2, "<string>")
          ELSE IF Len(a) = 3 /\ a[3][1] # "i" THEN TypeErr(m, f, a, 3, "<integer>")
          ELSE IF Len(a) = 3 /\ a[3][2] < 0 THEN Drop(m, "negative start")
          ELSE LET st == IF Len(a) = 3 THEN a[3][2] ELSE 0
                   S == {i \in (st+1)..Len(a[2][2]) : a[2][2][i] = a[1][2]} IN
               Ret(m, IF S = {} THEN Nil ELSE IntV(MinOf(S) - 1)))
    [] f = "string-index" ->
         (IF a[1][1] # "str" THEN TypeErr(m, f, a, 1, "<string>")
          ELSE IF Len(a) = 3 /\ a[3][1] # "i" THEN TypeErr(m, f, a, 3, "<integer>")
          ELSE IF Len(a) = 3 /\ a[3][2] < 0 THEN DomErr(m, a[3], "<integer>")
          ELSE IF a[2][1] # "str" THEN TypeErr(m, f, a, 2, "<string>")
          ELSE LET st == IF Len(a) = 3 THEN a[3][2] ELSE 0
                   S == {i \in (st+1)..(Len(a[2][2])+1) : MatchAt(a[2][2], a[1][2], i)} IN
               IF st > Len(a[2][2]) THEN Drop(m, "start beyond the end")
               ELSE Ret(m, IF S = {} THEN Nil ELSE IntV(MinOf(S) - 1)))
    [] f \in {"char=", "char/=", "char<", "char<=", "char>", "char>="} ->
         (IF a[1][1] # "c" THEN TypeErr(m, f, a, 1, "<character>")
          ELSE IF a[2][1] # "c" THEN TypeErr(m, f, a, 2, "<character>")
          ELSE Ret(m, Bool(CmpBy(f, a[1][2] < a[2][2], a[1][2] = a[2][2]))))
    [] OTHER ->
         (IF a[1][1] # "str" THEN TypeErr(m, f, a, 1, "<string>")
          ELSE IF a[2][1] # "str" THEN TypeErr(m, f, a, 2, "<string>")
          ELSE Ret(m, Bool(CmpBy(f, CpsLess(a[1][2], a[2][2]), a[1][2] = a[2][2]))))

-----------------------------------------------------------------------------
\* Arrays
ArrGroup == {"vector", "create-array", "aref", "set-aref", "array-dimensions"}
\* the sub-array or element selected by subscripts: <<"v", dims left, offset>>, <<"range", i>>, <<"type", i>>
RECURSIVE Select(_, _, _, _)
Select(dims, off, idx, i) ==
  IF i > Len(idx) THEN <<"v", dims, off>>
  ELSE IF idx[i][1] # "i" THEN <<"type", i>>
  ELSE IF idx[i][2] < 0 \/ idx[i][2] >= dims[1] THEN <<"range", i>>
  ELSE Select(Tail(dims), off + idx[i][2] * Prod(Tail(dims)), idx, i + 1)
ArrBi(m, f, a) ==
  CASE f = "vector" -> RetNew(m, <<"arr", <<Len(a)>>, a>>)
    [] f = "create-array" ->
         (IF ~IsProper(m, a[1]) THEN PlainErr(m)
          ELSE LET d == ToSeq(m, a[1])
                   bad == {i \in 1..Len(d) : d[i][1] # "i" \/ d[i][2] <= 0 \/ d[i][2] > 50} IN
               IF d = <<>> THEN Drop(m, "no dimension")
               ELSE IF bad = {} THEN
                 LET dims == [i \in 1..Len(d) |-> d[i][2]] IN
                 IF Len(d) > 4 \/ Prod(dims) > 200 THEN Drop(m, "big")
                 ELSE RetNew(m, <<"arr", dims, [i \in 1..Prod(dims) |-> IF Len(a) = 2 THEN a[2] ELSE Nil]>>)
               ELSE LET i == MinOf(bad) IN
                    IF d[i][1] # "i" THEN TypeErr(m, f, a, 0, "<integer>")
                    ELSE IF d[i][2] <= 0 THEN DomErr(m, d[i], "<integer>") ELSE Drop(m, "big"))
    [] f = "aref" ->
         (IF ~IsArr(m, a[1]) THEN TypeErr(m, f, a, 1, "<array>")
          ELSE IF Len(a) - 1 > Len(ArrDims(m, a[1])) THEN PlainErr(m)
          ELSE LET r == Select(ArrDims(m, a[1]), ArrOff(m, a[1]), Tail(a), 1) IN
               IF r[1] = "type" THEN TypeErr(m, f, a, r[2] + 1, "<integer>")
               ELSE IF r[1] = "range" THEN PlainErr(m)
               ELSE IF r[2] = <<>> THEN Ret(m, Cell(m, ArrBase(m, a[1]))[3][r[3] + 1])
               ELSE RetNew(m, <<"sub", r[2], ArrBase(m, a[1]), r[3]>>))
    [] f = "set-aref" ->
         (IF ~IsArr(m, a[2]) THEN TypeErr(m, f, a, 2, "<array>")
          ELSE IF Len(a) - 2 > Len(ArrDims(m, a[2])) THEN PlainErr(m)
          ELSE LET r == Select(ArrDims(m, a[2]), ArrOff(m, a[2]), SubSeq(a, 3, Len(a)), 1)
                   base == ArrBase(m, a[2]) IN
               IF r[1] = "type" THEN TypeErr(m, f, a, r[2] + 2, "<integer>")
               ELSE IF r[1] = "range" THEN DomErr(m, a[r[2] + 2], "<integer>")
               ELSE IF base <= Len(Code(m)) THEN Drop(m, "constant")
               ELSE IF r[2] = <<>> THEN Ret([m EXCEPT !.hp[HIdx(m, base)][3][r[3] + 1] = a[1]], a[1])
               ELSE IF ~IsArr(m, a[1]) THEN TypeErr(m, f, a, 1, "<array>")
               ELSE LET e == ArrElems(m, a[1]) IN
                    IF Len(e) # Prod(r[2]) THEN DomErr(m, a[1], "<array>")
                    ELSE LET old == m.hp[HIdx(m, base)][3]
                             new == [i \in 1..Len(old) |-> IF i > r[3] /\ i <= r[3] + Len(e) THEN e[i - r[3]] ELSE old[i]] IN
                         Ret([m EXCEPT !.hp[HIdx(m, base)][3] = new], a[1]))
    [] OTHER -> (IF IsArr(m, a[1]) THEN RetList(m, [i \in 1..Len(ArrDims(m, a[1])) |-> IntV(ArrDims(m, a[1])[i])]) ELSE TypeErr(m, f, a, 1, "<array>"))

-----------------------------------------------------------------------------
\* Hash tables: <<"hash", <<<<key,value>>,...>>>> and properties m.props: <<<<symbol,name,value>>,...>>
HashGroup == {"make-hash-table", "gethash", "set-gethash", "remhash", "clrhash", "hash-table-count", "property", "set-property", "remove-property"}
HashKey(v) == v[1] \in {"str", "s", "g", "i", "f", "c", "k", "I", "F"}
IsHash(m, v) == v[1] = "p" /\ Cell(m, v[2])[1] = "hash"
HFind(s, key) == {i \in 1..Len(s) : s[i][1] = key \/ (IsFltV(key) /\ IsFltV(s[i][1]) /\ FZero(key) /\ FZero(s[i][1]))}
DropIdx(s, I) == SelectSeq([i \in 1..Len(s) |-> <<i, s[i]>>], LAMBDA p : p[1] \notin I)
Without(s, I) == LET r == DropIdx(s, I) IN [i \in 1..Len(r) |-> r[i][2]]
RaiseSimple(m, cont) == \* an error made with (error ...)
  Signal([m EXCEPT !.hp = Append(@, <<"inst", "<simple-error>", [x \in {} |-> Nil]>>)], <<"p", TopAddr(m) + 1>>, cont)
HashBi(m, f, a) ==
  CASE f = "make-hash-table" -> RetNew(m, <<"hash", <<>>>>)
    [] f \in {"property", "set-property", "remove-property"} ->
         (LET s == IF f = "set-property" THEN a[2] ELSE a[1]
              n == IF f = "set-property" THEN a[3] ELSE a[2]
              I == {i \in 1..Len(m.props) : m.props[i][1] = s /\ m.props[i][2] = n} IN
          IF ~IsSym(s) \/ ~IsSym(n) THEN Drop(m, "no symbol")
          ELSE CASE f = "property" -> (IF I = {} THEN RaiseSimple(m, NoCont) ELSE Ret(m, m.props[CHOOSE i \in I : TRUE][3]))
                 [] f = "set-property" -> Ret([m EXCEPT !.props = Append(Without(@, I), <<s, n, a[1]>>)], <<"?">>)
                 [] OTHER -> Ret([m EXCEPT !.props = Without(@, I)], <<"?">>))
    [] OTHER ->
       (LET ti == IF f = "set-gethash" THEN 3 ELSE IF f \in {"clrhash", "hash-table-count"} THEN 1 ELSE 2
            ki == IF f = "set-gethash" THEN 2 ELSE 1
            t == a[ti] IN
        IF ~IsHash(m, t) THEN TypeErr(m, f, a, ti, "<hashtable>")
        ELSE LET s == Cell(m, t[2])[2] IN
          IF f = "hash-table-count" THEN Ret(m, IntV(Len(s)))
          ELSE IF f = "clrhash" THEN Ret(SetCell(m, t[2], <<"hash", <<>>>>), Nil)
          ELSE IF ~HashKey(a[ki]) THEN PlainErr(m)
          ELSE LET I == HFind(s, a[ki]) IN
            CASE f = "gethash" -> Ret(m, IF I = {} THEN Nil ELSE s[CHOOSE i \in I : TRUE][2])
              [] f = "remhash" -> Ret(SetCell(m, t[2], <<"hash", Without(s, I)>>), Nil)
              [] OTHER -> Ret(SetCell(m, t[2], <<"hash", Append(Without(s, I), <<a[2], a[1]>>)>>), a[1]))

-----------------------------------------------------------------------------
\* Classes and conditions
CondIs(m, v, class) == v[1] = "p" /\ Cell(m, v[2])[1] = "cond" /\ SubEq(m, ClassOf(m, v), class)
ClassGroup == {"class-of", "subclassp", "the", "assure", "domain-error-object", "domain-error-expected-class", "undefined-entity-name",
               "undefined-entity-namespace", "arithmetic-error-operands", "arithmetic-error-operation", "simple-error-format-string", "simple-error-format-arguments"}
CondPart(m, f, a, class, i) ==
  IF ~CondIs(m, a[1], class) THEN TypeErr(m, f, a, 1, class)
  ELSE LET info == Cell(m, a[1][2])[3] IN IF Len(info) < i THEN Drop(m, "unknown") ELSE Ret(m, info[i])
ClassBi(m, f, a) ==
  CASE f = "class-of" -> Ret(m, <<"cl", ClassOf(m, a[1])>>)
    [] f = "subclassp" -> (IF a[1][1] # "cl" \/ a[2][1] # "cl" THEN PlainErr(m) ELSE Ret(m, Bool(Inherits(m, a[1][2], a[2][2]))))
    [] f \in {"the", "assure"} -> (IF a[1][1] # "cl" THEN DomErr(m, a[1], "<class>")
                                   ELSE IF InstanceP(m, a[2], a[1][2]) THEN Ret(m, a[2]) ELSE DomErr(m, a[2], a[1][2]))
    [] f = "domain-error-object" -> CondPart(m, f, a, "<domain-error>", 1)
    [] f = "domain-error-expected-class" ->
         (LET r == CondPart(m, f, a, "<domain-error>", 2) IN IF r.mode = "rt" THEN [r EXCEPT !.x = <<"cl", @>>] ELSE r)
    [] f = "undefined-entity-name" -> CondPart(m, f, a, "<undefined-entity>", 1)
    [] f = "undefined-entity-namespace" -> CondPart(m, f, a, "<undefined-entity>", 2)
    [] f = "arithmetic-error-operands" -> CondPart(m, f, a, "<arithmetic-error>", 1)
    [] f = "arithmetic-error-operation" -> CondPart(m, f, a, "<arithmetic-error>", 2)
    [] OTHER -> (LET v == a[1] IN
         IF v[1] = "p" /\ Cell(m, v[2])[1] = "inst" /\ Cell(m, v[2])[2] = "<simple-error>"
         THEN LET s == Cell(m, v[2])[3]
                  n == IF f = "simple-error-format-string" THEN "format-string" ELSE "format-arguments" IN
              IF n \in DOMAIN s THEN Ret(m, s[n]) ELSE Drop(m, "unbound slot")
         ELSE Drop(m, "no simple error"))

-----------------------------------------------------------------------------
\* convert
\* characters which may occur in what Go takes for a float
FloatChars == (48..57) \cup {43, 45, 46, 95} \cup {97, 98, 99, 100, 101, 102, 105, 110, 112, 116, 120, 121, 65, 66, 67, 68, 69, 70, 73, 78, 80, 84, 88, 89}
ConvSym(m, cps) ==
  LET syms == Cases[m.pid].syms
      S == {n \in DOMAIN syms : syms[n] = cps} IN
  IF cps = <<>> \/ RdLower(cps) \in {<<110, 105, 108>>, <<116>>} THEN Drop(m, "symbol")
  ELSE IF IsAscii(cps) THEN Ret(m, Sym(NameOf(cps))) ELSE IF S # {} THEN Ret(m, Sym(CHOOSE n \in S : TRUE)) ELSE Drop(m, "symbol")
ParseErr(m, v, class) == Raise(m, "<parse-error>", <<v, <<"cl", class>>>>, <<"dr">>)
Convert(m, v, class) ==
  CASE v[1] = "c" -> (CASE class = "<character>" -> Ret(m, v) [] class = "<integer>" -> Ret(m, IntV(v[2])) [] class = "<symbol>" -> ConvSym(m, <<v[2]>>) [] OTHER -> PlainErr(m))
    [] v[1] = "str" ->
       (CASE class = "<string>" -> Ret(m, v)
          [] class = "<list>" -> RetList(m, [i \in 1..Len(v[2]) |-> <<"c", v[2][i]>>])
          [] class = "<general-vector>" -> RetNew(m, <<"arr", <<Len(v[2])>>, [i \in 1..Len(v[2]) |-> <<"c", v[2][i]>>]>>)
          [] class = "<integer>" ->
             (LET r == IF RdDigits10(RdUnsigned(v[2])) THEN RdInt(v[2], 10) ELSE <<"big">> IN
              IF r[1] = "big" THEN ParseErr(m, v, "<integer>") ELSE Ret(m, r))
          [] class = "<float>" ->
             (LET t == v[2]
                  r == IF RdDigits10(RdUnsigned(t)) THEN FOfDec(t[1] = 45, RdStrip(RdUnsigned(t)), 0)
                       ELSE IF RdFloatParts(t) # <<>> THEN RdFloat(t, RdFloatParts(t)) ELSE <<"?">> IN
              IF r = <<"?">> \/ r = Inf THEN (IF t = <<>> \/ \E i \in 1..Len(t) : t[i] \notin FloatChars THEN ParseErr(m, v, "<float>") ELSE Drop(m, "float")) ELSE Ret(m, r))
          [] class = "<symbol>" -> ConvSym(m, v[2])
          [] OTHER -> PlainErr(m))
    [] IsFltV(v) -> (CASE class = "<float>" -> Ret(m, v) [] class = "<integer>" -> (LET r == FToInt(v, "truncate") IN IF r = NoNum THEN Drop(m, "range") ELSE Ret(m, r))
                        [] class = "<string>" -> Ret(m, <<"str", FloatCps(v)>>) [] OTHER -> PlainErr(m))
    [] IsIntV(v) -> (CASE class = "<integer>" -> Ret(m, v)
                        [] class = "<float>" -> Ret(m, FOfInt(v))
                        [] class = "<string>" -> Ret(m, <<"str", ICps(v, 10)>>)
                        [] class = "<character>" -> (IF v[1] = "i" /\ (v[2] \in 0..55295 \/ v[2] \in 57344..1114111) THEN Ret(m, <<"c", v[2]>>) ELSE Drop(m, "character"))
                        [] OTHER -> PlainErr(m))
    [] IsCons(m, v) -> (IF class = "<list>" THEN Ret(m, v)
                        ELSE IF class = "<general-vector>" THEN (IF IsProper(m, v) THEN LET s == ToSeq(m, v) IN RetNew(m, <<"arr", <<Len(s)>>, s>>) ELSE Drop(m, "improper"))
                        ELSE PlainErr(m))
    [] IsArr(m, v) -> (IF Len(ArrDims(m, v)) = 1 /\ class = "<list>" THEN RetList(m, ArrElems(m, v)) ELSE PlainErr(m))
    [] v[1] = "s" -> (IF class = "<string>" THEN (IF SymKnown(m, v[2]) THEN Ret(m, <<"str", SymCps(m, v[2])>>) ELSE Drop(m, "symbol name"))
                      ELSE IF v = Nil /\ class \in {"<list>", "<general-vector>"} THEN Drop(m, "nil") ELSE PlainErr(m))
    [] OTHER -> PlainErr(m)

-----------------------------------------------------------------------------
\* Output. The text so far and whether the destination is at the beginning of a line.
\* A result of formatting is <<"ok", cps>>, <<"err">> (an error, after writing the cps) or <<"drop">>
RECURSIVE Reps(_, _)
Reps(c, n) == IF n <= 0 THEN <<>> ELSE <<c>> \o Reps(c, n - 1)
AtBol(cps, bol) == IF cps = <<>> THEN bol ELSE cps[Len(cps)] = 10
Upper(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c

\* parameters of a directive: <<"ok", params, next position, args left>>
RECURSIVE DirParams(_, _, _, _)
RECURSIVE ReadNum(_, _, _)
ReadNum(s, i, acc) == IF i <= Len(s) /\ s[i] \in 48..57 /\ acc < 100000 THEN ReadNum(s, i + 1, acc * 10 + s[i] - 48) ELSE <<acc, i>>
DirParams(s, i, args, acc) ==
  LET more(val, j, rest) ==
        IF j <= Len(s) /\ s[j] = 44 THEN DirParams(s, j + 1, rest, Append(acc, val)) ELSE <<"ok", Append(acc, val), j, rest>>
  IN IF i > Len(s) THEN <<"drop">>
     ELSE IF s[i] \in 48..57 THEN LET r == ReadNum(s, i, 0) IN more(r[1], r[2], args)
     ELSE IF s[i] = 39 THEN (IF i + 1 <= Len(s) THEN more(s[i + 1], i + 2, args) ELSE <<"err">>)
     ELSE IF s[i] \in {86, 118} THEN
       (IF args = <<>> THEN <<"err">> ELSE IF args[1][1] # "i" THEN <<"drop">> ELSE more(args[1][2], i + 1, Tail(args)))
     ELSE IF s[i] = 35 THEN more(Len(args), i + 1, args)
     ELSE <<"ok", acc, i, args>>

\* floating point numbers in decimal. Decimal digits <<ds, dp>>: 0.d1d2d3... * 10^dp
RECURSIVE StripTrail(_)
StripTrail(ds) == IF ds # <<>> /\ ds[Len(ds)] = 0 THEN StripTrail(SubSeq(ds, 1, Len(ds) - 1)) ELSE ds
DigVals(cps) == [i \in 1..Len(cps) |-> cps[i] - 48]
\* all digits of the number v, which is x = NumDec(v), or (prec < 0) those of the shortest one which is read as v
DecOf(v, x, prec) ==
  IF x[2] = <<>> THEN <<(<<>>), 0>>
  ELSE IF prec < 0 THEN LET s == FShortest(FEnc(FALSE, x[2], x[3])) IN <<DigVals(s[1]), s[2]>>
  ELSE LET c == NCps(IF x[3] < 0 THEN NMul5(x[2], -x[3]) ELSE NShl(x[2], x[3])) IN <<StripTrail(DigVals(c)), Len(c) + Min(x[3], 0)>>
RECURSIVE IncDs(_)
IncDs(ds) == IF ds = <<>> THEN <<1>> \* carry
             ELSE IF ds[Len(ds)] < 9 THEN [ds EXCEPT ![Len(ds)] = @ + 1] ELSE LET r == IncDs(SubSeq(ds, 1, Len(ds) - 1)) IN Append(r, 0)
\* rounded to k digits, ties to even
RoundDs(d, k) ==
  LET ds == d[1] IN
  IF k >= Len(ds) THEN d
  ELSE IF k < 0 THEN <<(<<>>), 0>>
  ELSE LET keep == SubSeq(ds, 1, k)
           tie == ds[k + 1] = 5 /\ Len(ds) = k + 1
           up == IF tie THEN k > 0 /\ ds[k] % 2 = 1 ELSE ds[k + 1] >= 5
           r == IF up THEN IncDs(keep) ELSE keep
           dp == IF Len(r) > k THEN d[2] + 1 ELSE d[2]
           t == StripTrail(r) IN
       IF t = <<>> THEN <<(<<>>), 0>> ELSE <<t, dp>>
DsAt(d, j) == IF j >= 1 /\ j <= Len(d[1]) THEN 48 + d[1][j] ELSE 48
FmtF(d, prec) ==
  (IF d[2] > 0 THEN [i \in 1..d[2] |-> DsAt(d, i)] ELSE <<48>>)
  \o (IF prec > 0 THEN <<46>> \o [i \in 1..prec |-> DsAt(d, d[2] + i)] ELSE <<>>)
FmtE(d, prec) ==
  LET x == IF d[1] = <<>> THEN 0 ELSE d[2] - 1
      xs == Digits(Abs(x), 10) IN
  <<DsAt(d, 1)>> \o (IF prec > 0 THEN <<46>> \o [i \in 1..prec |-> DsAt(d, 1 + i)] ELSE <<>>)
  \o <<101, IF x < 0 THEN 45 ELSE 43>> \o (IF Len(xs) < 2 THEN <<48>> ELSE <<>>) \o xs
FmtFloat(v, mark, prec) ==
  LET xd == NumDec(v)
      d0 == DecOf(v, xd, prec)
      p1 == IF prec = 0 THEN 1 ELSE prec
      d == IF prec < 0 THEN d0
           ELSE CASE mark = "f" -> RoundDs(d0, d0[2] + prec) [] mark = "e" -> RoundDs(d0, prec + 1) [] OTHER -> RoundDs(d0, p1)
      nd == Len(d[1])
      body == CASE mark = "f" -> FmtF(d, IF prec < 0 THEN Max(nd - d[2], 0) ELSE prec)
                [] mark = "e" -> FmtE(d, IF prec < 0 THEN Max(nd - 1, 0) ELSE prec)
                [] OTHER ->
                   LET x == d[2] - 1
                       ep == IF prec < 0 THEN 6 ELSE IF p1 > nd /\ nd >= d[2] THEN nd ELSE p1
                       pr == IF prec < 0 THEN nd ELSE p1 IN
                   IF x < -4 \/ x >= ep THEN FmtE(d, Max((IF pr > nd THEN nd ELSE pr) - 1, 0))
                   ELSE FmtF(d, Max((IF pr > d[2] THEN nd ELSE pr) - d[2], 0))
  IN (IF xd[1] THEN <<45>> ELSE <<>>) \o body

Directive(m, c, p, v, out, bol) ==
  \* text of a directive with an argument
  LET radix == CASE c \in {68, 100} -> 10 [] c \in {88, 120} -> 16 [] c \in {79, 111} -> 8 [] c \in {66, 98} -> 2 [] OTHER -> 0 IN
  IF radix > 0 THEN
    IF Len(p) > 2 THEN <<"err", <<>>>>
    ELSE IF IsNum(v) THEN
      LET n == IF IsIntV(v) THEN v ELSE FToInt(v, "truncate")
          body == ICps(n, radix)
          pad == IF Len(p) = 2 /\ p[2] > 0 THEN p[2] ELSE 32 IN
      IF n = NoNum \/ pad \in 55296..57343 \/ pad > 1114111 THEN <<"drop">>
      ELSE <<"ok", (IF p = <<>> THEN <<>> ELSE Reps(pad, p[1] - Len(body))) \o body>>
    ELSE <<"err", <<>>>>
  ELSE IF c \in {65, 97, 83, 115} THEN
    IF ~Printable(m, v) THEN <<"drop">>
    ELSE LET body == Pr(m, v, c \in {83, 115}) IN
      <<"ok", body \o (IF p = <<>> THEN <<>> ELSE Reps(32, p[1] - Len(body)))>>
  ELSE IF c \in {70, 102, 69, 101, 71, 103} THEN
    IF Len(p) > 2 THEN <<"err", <<>>>>
    ELSE IF ~IsNum(v) THEN <<"err", <<>>>>
    ELSE IF Len(p) = 2 /\ p[2] > 400 THEN <<"drop">>
    ELSE LET body == FmtFloat(v, CASE c \in {70, 102} -> "f" [] c \in {69, 101} -> "e" [] OTHER -> "g", IF Len(p) = 2 /\ p[2] >= 0 THEN p[2] ELSE -1) IN
         <<"ok", (IF p = <<>> THEN <<>> ELSE Reps(32, p[1] - Len(body))) \o body>>
  ELSE <<"err", <<>>>>

RECURSIVE Fmt(_, _, _, _, _, _)
Fmt(m, s, i, args, out, bol) ==
  IF i > Len(s) THEN <<"ok", out>>
  ELSE IF s[i] # 126 THEN Fmt(m, s, i + 1, args, Append(out, s[i]), bol)
  ELSE IF i = Len(s) THEN <<"drop">>
  ELSE IF s[i + 1] = 126 THEN Fmt(m, s, i + 2, args, Append(out, 126), bol)
  ELSE LET d == DirParams(s, i + 1, args, <<>>) IN
    IF d[1] = "drop" THEN d
    ELSE IF d[1] = "err" THEN <<"err", out>>
    ELSE IF d[3] > Len(s) \/ (d[2] # <<>> /\ d[2][1] > 3000) THEN <<"drop">>
    ELSE LET c == s[d[3]]
             p == d[2]
             n == IF p = <<>> THEN 1 ELSE p[1] IN
      IF c = 37 THEN Fmt(m, s, d[3] + 1, d[4], out \o Reps(10, n), bol)
      ELSE IF c = 38 THEN Fmt(m, s, d[3] + 1, d[4], out \o Reps(10, IF AtBol(out, bol) THEN n - 1 ELSE n), bol)
      ELSE IF d[4] = <<>> THEN <<"err", out>>
      ELSE LET r == Directive(m, c, p, d[4][1], out, bol) IN
        IF r[1] = "drop" THEN r
        ELSE IF r[1] = "err" THEN <<"err", out \o r[2]>>
        ELSE Fmt(m, s, d[3] + 1, Tail(d[4]), out \o r[2], bol)

\* Streams. <<"os", text, bol>>: string output; <<"is", text, position, kind, file name>>: input from a string
\* ("str"), from a file ("fi"), from standard input ("std"), "closed" or "bad" (after an error);
\* <<"fo", file name, bol, text, open>>: output to a file. m.fs: the files, <<name, text>>;
\* the text is <<-1>> while it is written and not closed.
IsOs(m, v) == v[1] = "p" /\ Cell(m, v[2])[1] = "os"
IsFo(m, v) == v[1] = "p" /\ Cell(m, v[2])[1] = "fo"
IsIs(m, v) == v[1] = "p" /\ Cell(m, v[2])[1] = "is"
DestBol(m, d) == IF d = T \/ d = <<"stdout">> THEN m.bol ELSE IF d = <<"stderr">> THEN m.ebol
                 ELSE IF IsOs(m, d) \/ IsFo(m, d) THEN Cell(m, d[2])[3] ELSE TRUE
Emit(m, d, cps) ==
  IF d = T \/ d = <<"stdout">> THEN [m EXCEPT !.out = @ \o cps, !.bol = AtBol(cps, @)]
  ELSE IF d = <<"stderr">> THEN [m EXCEPT !.eo = @ \o cps, !.ebol = AtBol(cps, @)]
  ELSE IF IsOs(m, d) THEN LET c == Cell(m, d[2]) IN SetCell(m, d[2], <<"os", c[2] \o cps, AtBol(cps, c[3])>>)
  ELSE IF IsFo(m, d) THEN LET c == Cell(m, d[2]) IN SetCell(m, d[2], [c EXCEPT ![3] = AtBol(cps, @), ![4] = @ \o cps])
  ELSE m
OutGroup == {"format", "format-object", "format-integer", "format-float", "format-char", "create-string-output-stream", "get-output-stream-string",
             "standard-output", "standard-input", "error-output", "create-string-input-stream", "read-char", "read-line", "read",
             "open-input-file", "open-output-file", "close", "probe-file", "file-length"}
IsDest(m, d) == d = T \/ d = Nil \/ d \in {<<"stdout">>, <<"stderr">>} \/ IsOs(m, d) \/ (IsFo(m, d) /\ Cell(m, d[2])[5])
Deliver(m, d, r) ==
  CASE r[1] = "drop" -> Drop(m, "format")
    [] r[1] = "err" -> PlainErr(Emit(m, d, r[2]))
    [] OTHER -> (IF d = Nil THEN Ret(m, <<"str", r[2]>>) ELSE Ret(Emit(m, d, r[2]), Nil))

\* reading: at the end an error or the eos value
AtEnd(m, a) == IF Len(a) >= 2 /\ a[2] = Nil THEN Ret(m, IF Len(a) >= 3 THEN a[3] ELSE Nil)
               ELSE Raise(m, "<end-of-stream>", <<>>, <<"val">>)
\* the value of a form which was read: <<state, value>> or <<>>
RECURSIVE FormVal(_, _)
RECURSIVE FormVals(_, _, _)
FormVals(m, fs, acc) == IF fs = <<>> THEN <<m, acc>>
                        ELSE LET r == FormVal(m, Head(fs)) IN IF r = <<>> THEN r ELSE FormVals(r[1], Tail(fs), Append(acc, r[2]))
FormVal(m, f) ==
  CASE f[1] \in {"i", "f", "str", "c", "I", "F"} -> <<m, f>>
    [] f[1] = "nil" -> <<m, Nil>>
    [] f[1] = "t" -> <<m, T>>
    [] f[1] \in {"k", "y"} ->
         (LET tag == IF f[1] = "k" THEN "k" ELSE "s"
              syms == Cases[m.pid].syms
              S == {n \in DOMAIN syms : syms[n] = f[2]} IN
          IF IsAscii(f[2]) THEN <<m, <<tag, NameOf(f[2])>>>> ELSE IF S # {} THEN <<m, <<tag, CHOOSE n \in S : TRUE>>>> ELSE <<>>)
    [] f[1] = "l" ->
         (LET t == FormVal(m, f[3]) IN
          IF t = <<>> THEN t
          ELSE LET e == FormVals(t[1], f[2], <<>>) IN
               IF e = <<>> THEN e
               ELSE LET b == TopAddr(e[1]) IN <<[e[1] EXCEPT !.hp = @ \o ListCells(b, e[2], t[2])], ListPtr(b, e[2], t[2])>>)
    [] f[1] = "a" ->
         (LET e == FormVals(m, f[3], <<>>) IN
          IF e = <<>> THEN e ELSE <<[e[1] EXCEPT !.hp = Append(@, <<"arr", f[2], e[2]>>)], <<"p", TopAddr(e[1]) + 1>>>>)
    [] OTHER -> <<>>
ReadBi(m, f, a) ==
  LET st == IF a = <<>> THEN m.si ELSE a[1] IN
  IF ~IsIs(m, st) THEN (IF st[1] \in {"stdout", "stderr"} \/ (st[1] = "p" /\ Cell(m, st[2])[1] \in {"os", "fo"}) THEN Drop(m, "stream") ELSE PlainErr(m))
  ELSE LET c == Cell(m, st[2])
           s == c[2]
           p == c[3]
           to(q) == SetCell(m, st[2], [c EXCEPT ![3] = q]) IN
    IF c[4] \in {"closed", "bad"} THEN Drop(m, "closed stream")
    ELSE IF f = "read" THEN
      LET r == RdOne(RdInit, s, p) IN
      CASE r[1] = "?" -> Drop(m, "text")
        [] r[1] = "eof" -> AtEnd(to(r[2]), a)
        [] r[1] = "err" -> Raise(SetCell(m, st[2], [c EXCEPT ![4] = "bad"]), "?", <<>>, <<"dr">>)
        [] OTHER -> LET v == FormVal(to(r[3]), r[2]) IN IF v = <<>> THEN Drop(m, "form") ELSE Ret(v[1], v[2])
    ELSE IF p > Len(s) THEN AtEnd(m, a)
    ELSE IF f = "read-char" THEN Ret(to(p + 1), <<"c", s[p]>>)
    ELSE LET nl == {i \in p..Len(s) : s[i] = 10}
             e == IF nl = {} THEN Len(s) + 1 ELSE MinOf(nl)
             t == SubSeq(s, p, e - 1)
             \* a carriage return before the newline belongs to the line end
             t2 == IF nl # {} /\ t # <<>> /\ t[Len(t)] = 13 THEN SubSeq(t, 1, Len(t) - 1) ELSE t IN
         Ret(to(e + 1), <<"str", t2>>)

\* Files
FsIdx(m, n) == {i \in 1..Len(m.fs) : m.fs[i][1] = n}
FsGet(m, n) == m.fs[CHOOSE i \in FsIdx(m, n) : TRUE][2]
FsPut(m, n, t) == [m EXCEPT !.fs = Append(Without(@, FsIdx(m, n)), <<n, t>>)]
NoFile(n) == n = <<>> \/ \E i \in 1..Len(n) : n[i] = 47
OddName(n) == \/ n \in {<<46>>, <<46, 46>>}
              \/ \E i \in 1..Len(n) : n[i] < 32 \/ n[i] > 126
              \/ (n # <<>> /\ n[1] = 47) \/ (Len(n) > 1 /\ n[1] = 46 /\ n[2] = 46) \/ (Len(n) > 1 /\ n[1] = 46 /\ n[2] = 47)
InUse(m, n) == \E i \in 1..Len(m.hp) : \/ (m.hp[i][1] = "is" /\ m.hp[i][4] = "fi" /\ m.hp[i][5] = n)
                                       \/ (m.hp[i][1] = "fo" /\ m.hp[i][5] /\ m.hp[i][2] = n)
\* open a file; the stream is the value
OpenIn(m, n) ==
  IF OddName(n) THEN Drop(m, "file name")
  ELSE IF NoFile(n) \/ FsIdx(m, n) = {} THEN PlainErr(m)
  ELSE IF FsGet(m, n) = <<-1>> THEN Drop(m, "file which is written")
  ELSE RetNew([m EXCEPT !.nopen = @ + 1], <<"is", FsGet(m, n), 1, "fi", n>>)
OpenOut(m, n) ==
  IF OddName(n) THEN Drop(m, "file name")
  ELSE IF NoFile(n) THEN PlainErr(m)
  ELSE IF InUse(m, n) THEN Drop(m, "file which is open")
  ELSE RetNew(FsPut([m EXCEPT !.nopen = @ + 1], n, <<-1>>), <<"fo", n, TRUE, <<>>, TRUE>>)
CloseS(m, v) ==
  LET c == Cell(m, v[2]) IN
  IF c[1] = "is" /\ c[4] = "fi" THEN SetCell([m EXCEPT !.nopen = @ - 1], v[2], [c EXCEPT ![4] = "closed"])
  ELSE IF c[1] = "is" /\ c[4] = "bad" /\ c[5] # <<>> THEN SetCell([m EXCEPT !.nopen = @ - 1], v[2], [c EXCEPT ![4] = "closed"])
  ELSE IF c[1] = "fo" /\ c[5] THEN FsPut(SetCell([m EXCEPT !.nopen = @ - 1], v[2], [c EXCEPT ![5] = FALSE]), c[2], c[4])
  ELSE m
Utf8Len(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
RECURSIVE Bytes(_)
Bytes(cps) == IF cps = <<>> THEN 0 ELSE Utf8Len(Head(cps)) + Bytes(Tail(cps))
FileBi(m, f, a) ==
  IF f = "close" THEN
    (IF IsOs(m, a[1]) \/ a[1][1] \in {"stdout", "stderr"} THEN Drop(m, "close")
     ELSE IF IsIs(m, a[1]) \/ IsFo(m, a[1]) THEN
       LET c == Cell(m, a[1][2]) IN
       IF c[1] = "is" /\ (c[4] \in {"std", "str", "closed"} \/ c[5] = <<>>) THEN Drop(m, "close")
       ELSE IF c[1] = "fo" /\ ~c[5] THEN Drop(m, "close twice")
       ELSE Ret(CloseS(m, a[1]), <<"?">>)
     ELSE Raise(m, "?", <<>>, <<"dr">>))
  ELSE IF a[1][1] # "str" THEN TypeErr(m, f, a, 1, "<string>")
  ELSE LET n == a[1][2] IN
    CASE f = "open-input-file" -> OpenIn(m, n)
      [] f = "open-output-file" -> OpenOut(m, n)
      [] f = "probe-file" -> (IF OddName(n) THEN Drop(m, "file name") ELSE Ret(m, Bool(FsIdx(m, n) # {})))
      [] OTHER -> (IF a[2][1] # "i" THEN TypeErr(m, f, a, 2, "<integer>")
                   ELSE IF a[2][2] <= 0 THEN DomErr(m, a[2], "<integer>")
                   ELSE IF OddName(n) THEN Drop(m, "file name")
                   ELSE IF FsIdx(m, n) = {} THEN Ret(m, Nil)
                   ELSE IF FsGet(m, n) = <<-1>> THEN Drop(m, "file which is written")
                   ELSE Ret(m, IntV((Bytes(FsGet(m, n)) * 8) \div a[2][2])))
BadDest(m, d) == ~IsDest(m, d)
NoDest(m, d) == IF IsFo(m, d) THEN Drop(m, "closed stream") ELSE PlainErr(m)
OutBi(m, f, a) ==
  CASE f = "format" ->
         (IF BadDest(m, a[1]) THEN NoDest(m, a[1])
          ELSE IF a[2][1] # "str" THEN TypeErr(m, f, a, 2, "<string>")
          ELSE Deliver(m, a[1], Fmt(m, a[2][2], 1, SubSeq(a, 3, Len(a)), <<>>, DestBol(m, a[1]))))
    [] f = "format-object" ->
         (IF BadDest(m, a[1]) THEN NoDest(m, a[1])
          ELSE IF ~Printable(m, a[2]) THEN Drop(m, "format")
          ELSE Deliver(m, a[1], <<"ok", Pr(m, a[2], Some(a[3]))>>))
    [] f = "format-integer" ->
         (IF BadDest(m, a[1]) THEN NoDest(m, a[1])
          ELSE IF a[3][1] # "i" THEN TypeErr(m, f, a, 3, "<integer>")
          ELSE IF a[3][2] < 2 \/ a[3][2] > 36 THEN PlainErr(m)
          ELSE IF IsNum(a[2]) THEN
            LET n == IF IsIntV(a[2]) THEN a[2] ELSE FToInt(a[2], "truncate") IN
            IF n = NoNum THEN Drop(m, "range") ELSE Deliver(m, a[1], <<"ok", ICps(n, a[3][2])>>)
          ELSE PlainErr(m))
    [] f = "format-float" ->
         (IF BadDest(m, a[1]) THEN NoDest(m, a[1])
          ELSE IF ~IsNum(a[2]) THEN PlainErr(m)
          ELSE Deliver(m, a[1], <<"ok", FmtFloat(a[2], "f", -1)>>))
    [] f = "format-char" ->
         (IF BadDest(m, a[1]) THEN NoDest(m, a[1])
          ELSE IF a[2][1] # "c" THEN TypeErr(m, f, a, 2, "<character>")
          ELSE Deliver(m, a[1], <<"ok", <<a[2][2]>>>>))
    [] f = "standard-output" -> Ret(m, <<"stdout">>)
    [] f = "error-output" -> Ret(m, <<"stderr">>)
    [] f = "standard-input" -> Ret(m, m.si)
    [] f = "create-string-output-stream" -> RetNew(m, <<"os", <<>>, TRUE>>)
    [] f = "get-output-stream-string" ->
         (IF IsOs(m, a[1]) THEN LET c == Cell(m, a[1][2]) IN Ret(SetCell(m, a[1][2], <<"os", <<>>, c[3]>>), <<"str", c[2]>>)
          ELSE TypeErr(m, f, a, 1, "<string-builder>"))
    [] f = "create-string-input-stream" -> (IF a[1][1] = "str" THEN RetNew(m, <<"is", a[1][2], 1, "str", <<>>>>) ELSE TypeErr(m, f, a, 1, "<string>"))
    [] f \in {"read-char", "read-line", "read"} -> ReadBi(m, f, a)
    [] OTHER -> FileBi(m, f, a)

-----------------------------------------------------------------------------
\* The functions of pkg/
XtGroup == {"subst", "=~", "=~i", "wildcard", "command", "parse-number"}
\* (parse-number text): the number of which text is a literal
ParseNumber(m, a) ==
  LET t == a[1][2]
      low == RdLower(t)
      base == CASE Len(t) < 2 -> 0 [] low[1] # 35 -> 0 [] low[2] = 120 -> 16 [] low[2] = 111 -> 8 [] low[2] = 98 -> 2 [] OTHER -> 0
      d == IF base = 0 THEN t ELSE SubSeq(t, 3, Len(t))
      ok == RdUnsigned(d) # <<>> /\ \A i \in 1..Len(RdUnsigned(d)) : RdDigitVal(RdUnsigned(d)[i]) < (IF base = 0 THEN 10 ELSE base)
      r == IF ok THEN RdInt(d, IF base = 0 THEN 10 ELSE base) ELSE IF RdFloatParts(t) # <<>> THEN RdFloat(t, RdFloatParts(t)) ELSE <<"none">>
  IN IF r[1] = "none" THEN ParseErr(m, a[1], "<number>")
     ELSE IF r[1] \in {"big", "?"} \/ r = <<"F">> \/ r = Inf THEN Drop(m, "number")
     ELSE Ret(m, r)
RECURSIVE Subst(_, _, _, _)
\* <<state, value>>: every part of the tree v which is eql to old replaced
Subst(m, new, old, v) ==
  IF Same(m, v, old, "eql") THEN <<m, new>>
  ELSE IF ~IsCons(m, v) THEN <<m, v>>
  ELSE LET a == Subst(m, new, old, Car(m, v))
           d == Subst(a[1], new, old, Cdr(m, v))
       IN <<[d[1] EXCEPT !.hp = Append(@, <<"cons", a[2], d[2]>>)], <<"p", TopAddr(d[1]) + 1>>>>
\* lists of lists
RECURSIVE RetLists(_, _, _)
RetLists(m, ls, acc) ==
  IF ls = <<>> THEN RetList(m, acc)
  ELSE LET r == RetList(m, Head(ls)) IN RetLists([r EXCEPT !.x = Nil], Tail(ls), Append(acc, r.x))
\* file names: * ? and classes
RECURSIVE Glob(_, _)
Glob(p, n) ==
  IF p = <<>> THEN n = <<>>
  ELSE IF p[1] = 42 THEN Glob(Tail(p), n) \/ (n # <<>> /\ Glob(p, Tail(n)))
  ELSE n # <<>> /\ (p[1] = 63 \/ p[1] = n[1]) /\ Glob(Tail(p), Tail(n))
RECURSIVE SortNames(_)
SortNames(S) == IF S = {} THEN <<>>
                ELSE LET x == CHOOSE x \in S : \A y \in S : x = y \/ CpsLess(x, y) IN <<<<"str", x>>>> \o SortNames(S \ {x})
RECURSIVE Joined(_, _, _)
Joined(m, a, i) == IF i > Len(a) THEN <<>> ELSE (IF i > 2 THEN <<32>> ELSE <<>>) \o Pr(m, a[i], FALSE) \o Joined(m, a, i + 1)
RECURSIVE RxParts(_, _, _)
RxParts(f, s, x) ==
  IF x = <<>> THEN <<>>
  ELSE LET b == x[1] IN
       (IF f = "=~" THEN <<<<"str", IF b[1] = 0 THEN <<>> ELSE SubSeq(s, b[1], b[2] - 1)>>>>
        ELSE IF b[1] = 0 THEN <<IntV(-1), IntV(-1)>>
        ELSE <<IntV(Bytes(SubSeq(s, 1, b[1] - 1))), IntV(Bytes(SubSeq(s, 1, b[2] - 1)))>>)
       \o RxParts(f, s, Tail(x))
XtBi(m, f, a) ==
  CASE f = "parse-number" -> (IF a[1][1] # "str" THEN TypeErr(m, f, a, 1, "<string>") ELSE ParseNumber(m, a))
    [] f = "subst" -> (LET r == Subst(m, a[1], a[2], a[3]) IN Ret(r[1], r[2]))
    [] f \in {"=~", "=~i"} ->
         (IF a[1][1] # "str" THEN TypeErr(m, f, a, 1, "<string>")
          ELSE LET r == RxParse(a[1][2]) IN
            IF r[1] = "drop" THEN Drop(m, "pattern")
            ELSE IF r[1] = "err" THEN PlainErr(m)
            ELSE IF a[2][1] # "str" THEN TypeErr(m, f, a, 2, "<string>")
            ELSE LET s == a[2][2]
                     all == RxAll(r, s)
                 IN RetLists(m, [j \in 1..Len(all) |-> RxParts(f, s, all[j])], <<>>))
    [] f = "wildcard" ->
         (IF a[1][1] # "str" THEN TypeErr(m, f, a, 1, "<string>")
          ELSE LET p == a[1][2] IN
            IF p = <<>> \/ \E i \in 1..Len(p) : p[i] \in {47, 91, 93, 92} \/ p[i] < 32 \/ p[i] > 126 THEN Drop(m, "pattern")
            ELSE IF p \in {<<46>>, <<46, 46>>} \/ ~Cases[m.pid].hasfiles THEN Drop(m, "pattern")
            ELSE RetList(m, SortNames({n \in {m.fs[i][1] : i \in 1..Len(m.fs)} : Glob(p, n)})))
    [] OTHER -> \* command: only the program echo
         (IF a[1] # <<"str", <<101, 99, 104, 111>>>> \/ \E i \in 2..Len(a) : ~(a[i][1] \in {"str", "s", "i"}) THEN Drop(m, "command")
          ELSE IF \E i \in 2..Len(a) : a[i][1] = "str" /\ \E k \in 1..Len(a[i][2]) : a[i][2][k] \in {92, 0, 45} THEN Drop(m, "command")
          ELSE Ret(Emit(m, T, Joined(m, a, 2) \o <<10>>), Nil))

-----------------------------------------------------------------------------
ArityOK(f, n) == LET r == Arity[f] IN n >= r[1] /\ (r[2] < 0 \/ n <= r[2])
\* the value <<"?">> stands for a result which is not specified
\* functions which want a position or a size: one of more than 31 bits is not specified
IdxFns == {"nth", "nthcdr", "elt", "subseq", "create-list", "create-string", "char-index", "string-index", "create-array", "aref", "set-aref", "file-length", "format-integer"}
Bi(m, f, a) ==
  IF \E i \in 1..Len(a) : a[i][1] = "?" THEN Drop(m, "unspecified value")
  ELSE IF f \in IdxFns /\ \E i \in (IF f = "set-aref" \/ f = "format-integer" THEN 3 ELSE 1)..Len(a) : a[i][1] = "I" THEN Drop(m, "size")
  ELSE CASE f \in NumGroup -> NumBi(m, f, a)
    [] f \in PredGroup -> Ret(m, Bool(PredBi(m, f, a[1])))
    [] f \in ListGroup -> ListBi(m, f, a)
    [] f \in {"eq", "eql", "equal"} -> Ret(m, Bool(\A i \in 2..Len(a) : Same(m, a[1], a[i], IF f = "eq" THEN "eql" ELSE f)))
    [] f = "equalp" -> Ret(m, Bool(\A i \in 1..(Len(a)-1) : Same(m, a[i], a[i+1], "equalp")))
    [] f \in StrGroup -> StrBi(m, f, a)
    [] f \in ArrGroup -> ArrBi(m, f, a)
    [] f \in HashGroup -> HashBi(m, f, a)
    [] f \in ClassGroup -> ClassBi(m, f, a)
    [] f \in OutGroup -> OutBi(m, f, a)
    [] f \in XtGroup -> XtBi(m, f, a)
    [] f = "gensym" -> Ret([m EXCEPT !.gs = @ + 1], <<"g", m.gs + 1>>)
    [] OTHER -> Drop(m, "function " \o f)
=============================================================================

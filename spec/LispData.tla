------------------------------ MODULE LispData ------------------------------
(* Values, heap, external encoding, equality and printing of gmnlisp.        *)
(* A value is a tuple whose first element is its kind:                        *)
(*   <<"i",n>> integer   <<"f",n>> float n/16   (more of them: see Num)        *)
(*   <<"str",cps>> string                                                      *)
(*   <<"c",cp>> character <<"s",name>> symbol (nil and t too)                  *)
(*   <<"g",n>> gensym     <<"k",name>> keyword                                 *)
(*   <<"fn",name>> built-in function  <<"cl",name>> class                      *)
(*   <<"stdout">> <<"stderr">> the standard streams for output                 *)
(*   <<"p",a>> object in cell a of the heap                                    *)
(* The cells 1..Len(code) hold the program text (read only), the following     *)
(* ones (m.hp) what the program has allocated.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Reader

Cases == ndJsonDeserialize(IOEnv.CASES)

Nil == <<"s","nil">>
T   == <<"s","t">>
Sym(s) == <<"s", s>>
IntV(n) == <<"i", n>>
Bool(b) == IF b THEN T ELSE Nil
Some(v) == v # Nil

Code(m) == Cases[m.pid].cells
Cell(m, a) == LET c == Code(m) IN IF a <= Len(c) THEN c[a] ELSE m.hp[a - Len(c)]
TopAddr(m) == Len(Code(m)) + Len(m.hp)

Kind(m, v) == IF v[1] = "p" THEN Cell(m, v[2])[1] ELSE v[1]
IsCons(m, v) == v[1] = "p" /\ Cell(m, v[2])[1] = "cons"
Car(m, v) == Cell(m, v[2])[2]
Cdr(m, v) == Cell(m, v[2])[3]
IsSym(v) == v[1] = "s" \/ v[1] = "g"
IsNum(v) == v[1] = "i" \/ v[1] = "f" \/ v[1] = "I" \/ v[1] = "F"
IsFn(m, v) == v[1] = "fn" \/ (v[1] = "p" /\ Cell(m, v[2])[1] \in {"clo", "gen", "hostfn"})

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a

RECURSIVE SeqFrom(_, _, _)
SeqFrom(m, v, acc) == IF IsCons(m, v) THEN SeqFrom(m, Cdr(m, v), Append(acc, Car(m, v))) ELSE acc
\* the elements of a list
ToSeq(m, v) == SeqFrom(m, v, <<>>)
RECURSIVE TailOf(_, _)
TailOf(m, v) == IF IsCons(m, v) THEN TailOf(m, Cdr(m, v)) ELSE v
IsProper(m, v) == TailOf(m, v) = Nil

\* the cells of a new list of the elements of `s` ending with `tail`, allocated from address `base`+1
ListCells(base, s, tail) ==
  [i \in 1..Len(s) |-> <<"cons", s[i], IF i = Len(s) THEN tail ELSE <<"p", base + i + 1>>>>]
ListPtr(base, s, tail) == IF Len(s) = 0 THEN tail ELSE <<"p", base + 1>>

-----------------------------------------------------------------------------
\* Results of a built-in function
Ret(m, v) == [m EXCEPT !.mode = "rt", !.x = v]
RetNew(m, cell) == [m EXCEPT !.hp = Append(@, cell), !.mode = "rt", !.x = <<"p", TopAddr(m) + 1>>]
RetListT(m, s, tail) ==
  [m EXCEPT !.hp = @ \o ListCells(TopAddr(m), s, tail), !.mode = "rt", !.x = ListPtr(TopAddr(m), s, tail)]
RetList(m, s) == RetListT(m, s, Nil)
Drop(m, why) == [m EXCEPT !.mode = "drop", !.x = why]

\* Signal a condition object to the handlers in force
Signal(m, cond, cont) == [m EXCEPT !.mode = "sig", !.x = <<cond, cont, m.hs, m.hs>>]
\* Make a condition of a class and signal it. cont tells what continue-condition would do.
Raise(m, class, info, cont) ==
  Signal([m EXCEPT !.hp = Append(@, <<"cond", class, info>>)], <<"p", TopAddr(m) + 1>>, cont)
NoCont == <<"no">>
\* errors whose class is not specified
PlainErr(m) == Raise(m, "?", <<>>, NoCont)
ProgErr(m) == Raise(m, "<program-error>", <<>>, NoCont)
CtlErr(m) == Raise(m, "<control-error>", <<>>, NoCont)
DomErr(m, obj, class) == Raise(m, "<domain-error>", <<obj, class>>, NoCont)
\* a domain error of the i-th argument (i = 0: of a part of an argument)
TypeErr(m, f, a, i, class) ==
  Raise(m, "<domain-error>", <<IF i = 0 THEN Nil ELSE a[i], class>>, <<"te", f, a, i, class>>)

-----------------------------------------------------------------------------
\* Classes: direct superclasses of the built-in ones
BSup == [x \in {} |-> <<>>]
  @@ ("<object>" :> <<>>)
  @@ ("<built-in-class>" :> <<"<object>">>)
  @@ ("<standard-class>" :> <<"<object>">>)
  @@ ("<number>" :> <<"<object>">>)
  @@ ("<integer>" :> <<"<number>", "<object>">>)
  @@ ("<float>" :> <<"<number>", "<object>">>)
  @@ ("<character>" :> <<"<object>">>)
  @@ ("<string>" :> <<"<object>">>)
  @@ ("<symbol>" :> <<"<object>">>)
  @@ ("<keyword>" :> <<"<object>">>)
  @@ ("<list>" :> <<"<object>">>)
  @@ ("<cons>" :> <<"<list>", "<object>">>)
  @@ ("<null>" :> <<"<symbol>", "<list>", "<object>">>)
  @@ ("<truetype>" :> <<"<symbol>", "<object>">>)
  @@ ("<array>" :> <<"<object>">>)
  @@ ("<hashtable>" :> <<"<object>">>)
  @@ ("<function>" :> <<"<object>">>)
  @@ ("<class>" :> <<"<object>">>)
  @@ ("<string-builder>" :> <<"<object>">>)
  @@ ("<reader>" :> <<"<object>">>)
  @@ ("<input-stream>" :> <<"<object>">>)
  @@ ("<output-file-stream>" :> <<"<object>">>)
  @@ ("<_WriterNode>" :> <<"<object>">>)
  @@ ("<error>" :> <<"<object>">>)
  @@ ("<program-error>" :> <<"<error>", "<object>">>)
  @@ ("<domain-error>" :> <<"<program-error>", "<error>", "<object>">>)
  @@ ("<control-error>" :> <<"<error>", "<object>">>)
  @@ ("<parse-error>" :> <<"<error>", "<object>">>)
  @@ ("<storage-exhausted>" :> <<"<error>", "<object>">>)
  @@ ("<stream-error>" :> <<"<error>", "<object>">>)
  @@ ("<end-of-stream>" :> <<"<stream-error>", "<error>", "<object>">>)
  @@ ("<undefined-entity>" :> <<"<program-error>", "<object>">>)
  @@ ("<unbound-variable>" :> <<"<undefined-entity>", "<object>">>)
  @@ ("<undefined-function>" :> <<"<undefined-entity>", "<object>">>)
  @@ ("<arithmetic-error>" :> <<"<error>", "<object>">>)
  @@ ("<division-by-zero>" :> <<"<arithmetic-error>", "<object>">>)
  @@ ("<floating-point-overflow>" :> <<"<arithmetic-error>", "<object>">>)
  @@ ("<floating-point-underflow>" :> <<"<arithmetic-error>", "<object>">>)
  @@ ("<simple-error>" :> <<"<error>">>)
BClasses == DOMAIN BSup
IsClassName(m, c) == c \in BClasses \/ c \in DOMAIN m.cls
Supers(m, c) == IF c \in BClasses THEN BSup[c] ELSE m.cls[c].sup

\* strict ancestor relation
RECURSIVE Inherits(_, _, _)
Inherits(m, c, d) == LET s == Supers(m, c) IN \E i \in 1..Len(s) : s[i] = d \/ Inherits(m, s[i], d)
SubEq(m, c, d) == c = d \/ Inherits(m, c, d)

ClassOf(m, v) ==
  CASE v[1] = "i" \/ v[1] = "I" -> "<integer>"
    [] v[1] = "f" \/ v[1] = "F" -> "<float>"
    [] v[1] = "c" -> "<character>"
    [] v[1] = "str" -> "<string>"
    [] v = Nil -> "<null>"
    [] v = T -> "<truetype>"
    [] v[1] = "s" \/ v[1] = "g" -> "<symbol>"
    [] v[1] = "k" -> "<keyword>"
    [] v[1] = "fn" -> "<function>"
    [] v[1] \in {"stdout", "stderr"} -> "<_WriterNode>"
    [] v[1] = "cl" -> (IF v[2] \in BClasses /\ v[2] # "<simple-error>" THEN "<built-in-class>" ELSE "<standard-class>")
    [] OTHER -> LET c == Cell(m, v[2]) IN
       CASE c[1] = "cons" -> "<cons>"
         [] c[1] \in {"clo", "gen"} -> "<function>"
         [] c[1] \in {"arr", "sub"} -> "<array>"
         [] c[1] = "hash" -> "<hashtable>"
         [] c[1] = "inst" -> c[2]
         [] c[1] = "cond" -> (IF c[2] = "?" THEN "<error>" ELSE c[2])
         [] c[1] = "os" -> "<string-builder>"
         [] c[1] = "is" -> (IF c[4] \in {"str", "std"} THEN "<reader>" ELSE "<input-stream>")
         [] c[1] = "fo" -> "<output-file-stream>"
         [] OTHER -> "<object>"

InstanceP(m, v, c) == IF c = "<class>" THEN v[1] = "cl" ELSE SubEq(m, ClassOf(m, v), c)

\* position of class d in the depth first walk over the superclasses of c; 1000 if it is not there
RECURSIVE DfsSeq(_, _)
RECURSIVE DfsAll(_, _)
DfsSeq(m, c) == <<c>> \o DfsAll(m, Supers(m, c))
DfsAll(m, s) == IF s = <<>> THEN <<>> ELSE DfsSeq(m, Head(s)) \o DfsAll(m, Tail(s))
Position(s, d) == IF \E i \in 1..Len(s) : s[i] = d THEN CHOOSE i \in 1..Len(s) : s[i] = d /\ \A j \in 1..(i-1) : s[j] # d ELSE 1000

-----------------------------------------------------------------------------
\* Arrays. A sub-array shares the elements of its array.
\* <<"arr", dims, elems>> ; <<"sub", dims, address of the arr, offset>>
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
ArrDims(m, v) == Cell(m, v[2])[2]
ArrBase(m, v) == IF Cell(m, v[2])[1] = "arr" THEN v[2] ELSE Cell(m, v[2])[3]
ArrOff(m, v) == IF Cell(m, v[2])[1] = "arr" THEN 0 ELSE Cell(m, v[2])[4]
IsArr(m, v) == v[1] = "p" /\ Cell(m, v[2])[1] \in {"arr", "sub"}
ArrElems(m, v) == SubSeq(Cell(m, ArrBase(m, v))[3], ArrOff(m, v) + 1, ArrOff(m, v) + Prod(ArrDims(m, v)))

-----------------------------------------------------------------------------
\* External encoding: what the harness records about a value
RECURSIVE Ext(_, _)
ExtSeq(m, s) == [i \in 1..Len(s) |-> Ext(m, s[i])]
Ext(m, v) ==
  IF v[1] = "g" THEN <<"g">>
  ELSE IF v[1] = "fn" THEN <<"fn">>
  ELSE IF v[1] \in {"stdout", "stderr"} THEN <<"st">>
  ELSE IF v[1] # "p" THEN v
  ELSE LET c == Cell(m, v[2]) IN
    CASE c[1] = "cons" -> <<"l", ExtSeq(m, ToSeq(m, v)), Ext(m, TailOf(m, v))>>
      [] c[1] \in {"arr", "sub"} -> <<"a", c[2], ExtSeq(m, ArrElems(m, v))>>
      [] c[1] = "hash" -> <<"h">>
      [] c[1] = "inst" -> <<"o", c[2]>>
      [] c[1] = "cond" -> (IF c[2] = "<simple-error>" THEN <<"o", c[2]>> ELSE <<"e", IF c[2] = "?" THEN "<error>" ELSE c[2]>>)
      [] c[1] \in {"clo", "gen"} -> <<"fn">>
      [] OTHER -> <<"st">>

-----------------------------------------------------------------------------
\* Equality. mode: "eql" "equal" "equalp"
Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
RECURSIVE Same(_, _, _, _)
Same(m, a, b, mode) ==
  IF a = b THEN TRUE
  ELSE IF IsNum(a) /\ IsNum(b) THEN
    IF IsIntV(a) = IsIntV(b) THEN IsFltV(a) /\ FZero(a) /\ FZero(b) ELSE mode = "equalp" /\ NumEqual(a, b)
  ELSE IF mode = "eql" THEN FALSE
  ELSE IF a[1] # b[1] THEN FALSE
  ELSE IF a[1] = "c" THEN mode = "equalp" /\ Lower(a[2]) = Lower(b[2])
  ELSE IF a[1] = "str" THEN
    mode = "equalp" /\ Len(a[2]) = Len(b[2]) /\ \A i \in 1..Len(a[2]) : Lower(a[2][i]) = Lower(b[2][i])
  ELSE IF a[1] # "p" THEN FALSE
  ELSE LET x == Cell(m, a[2])
           y == Cell(m, b[2]) IN
    IF x[1] = "cons" /\ y[1] = "cons" THEN Same(m, x[2], y[2], mode) /\ Same(m, x[3], y[3], mode)
    ELSE IF IsArr(m, a) /\ IsArr(m, b) THEN
      x[2] = y[2] /\ LET s == ArrElems(m, a)
                         t == ArrElems(m, b) IN \A i \in 1..Len(s) : Same(m, s[i], t[i], mode)
    ELSE IF x[1] = "inst" /\ y[1] = "inst" THEN
      x[2] = y[2] /\ DOMAIN x[3] = DOMAIN y[3] /\ \A i \in DOMAIN x[3] : Same(m, x[3][i], y[3][i], mode)
    ELSE FALSE

-----------------------------------------------------------------------------
\* Printed representation, as a sequence of code points
RECURSIVE Digits(_, _)
Digit(d) == IF d < 10 THEN 48 + d ELSE 55 + d
Digits(n, base) == IF n < base THEN <<Digit(n)>> ELSE Append(Digits(n \div base, base), Digit(n % base))
IntCps(n, base) == IF n < 0 THEN <<45>> \o Digits(-n, base) ELSE Digits(n, base)
\* the decimal places of k/16
Frac16 == <<<<48>>, <<48,54,50,53>>, <<49,50,53>>, <<49,56,55,53>>, <<50,53>>, <<51,49,50,53>>, <<51,55,53>>, <<52,51,55,53>>,
            <<53>>, <<53,54,50,53>>, <<54,50,53>>, <<54,56,55,53>>, <<55,53>>, <<56,49,50,53>>, <<56,55,53>>, <<57,51,55,53>>>>
SmallFloatCps(n) == (IF n < 0 THEN <<45>> ELSE <<>>) \o Digits(Abs(n) \div 16, 10) \o <<46>> \o Frac16[(Abs(n) % 16) + 1]
FloatCps(v) == IF v[1] = "f" /\ Abs(v[2]) < 1600000 THEN SmallFloatCps(v[2]) ELSE FCps(v)

\* names of symbols as strings and as code points
AsciiStr == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
AsciiCh == [c \in 32..126 |-> SubSeq(AsciiStr, c - 31, c - 31)]
AsciiCode == [h \in {AsciiCh[c] : c \in 32..126} |-> CHOOSE c \in 32..126 : AsciiCh[c] = h]
IsAscii(cps) == \A i \in 1..Len(cps) : cps[i] \in 32..126
RECURSIVE NameOf(_)
NameOf(cps) == IF cps = <<>> THEN "" ELSE AsciiCh[Head(cps)] \o NameOf(Tail(cps))
SymCps(m, s) == IF s \in DOMAIN Cases[m.pid].syms THEN Cases[m.pid].syms[s] ELSE [i \in 1..Len(s) |-> AsciiCode[SubSeq(s, i, i)]]
SymKnown(m, s) == s \in DOMAIN Cases[m.pid].syms \/ \A i \in 1..Len(s) : SubSeq(s, i, i) \in DOMAIN AsciiCode
\* symbols whose names are not read as such are printed with bars
NeedsBar(cps) ==
  \/ cps = <<>>
  \/ \E i \in 1..Len(cps) : RdSpace(cps[i]) \/ cps[i] \in {40, 41, 124, 34, 39, 59, 96, 44, 92}
  \/ RdWord(cps)[1] # "y"
RECURSIVE Escape(_, _)
Escape(cps, set) == IF cps = <<>> THEN <<>> ELSE (IF Head(cps) \in set THEN <<92, Head(cps)>> ELSE <<Head(cps)>>) \o Escape(Tail(cps), set)
IsLetter(c) == c \in {170, 181, 186} \cup 65536..65547 \cup 65..90 \/ c \in 97..122 \/ c \in 192..214 \/ c \in 216..246 \/ c \in 248..687 \/ c \in 19968..40869 \/ c \in 12353..12438 \/ c \in 945..969
RECURSIVE HexPad(_, _)
HexPad(cps, n) == IF Len(cps) >= n THEN cps ELSE HexPad(<<48>> \o cps, n)
CharCps(c, esc) ==
  IF ~esc THEN <<c>>
  ELSE <<35, 92>> \o
    (CASE c = 9 -> <<116,97,98>>
       [] c = 10 -> <<108,105,110,101,102,101,101,100>>
       [] c = 13 -> <<114,101,116,117,114,110>>
       [] c = 32 -> <<115,112,97,99,101>>
       [] IsLetter(c) -> <<c>>
       [] OTHER -> <<85>> \o HexPad(Digits(c, 16), 4))

RECURSIVE Pr(_, _, _)
RECURSIVE PrElems(_, _, _)
RECURSIVE PrArr(_, _, _, _)
PrElems(m, s, esc) ==
  IF s = <<>> THEN <<>>
  ELSE Pr(m, Head(s), esc) \o (IF Len(s) = 1 THEN <<>> ELSE <<32>> \o PrElems(m, Tail(s), esc))
PrArr(m, dims, s, esc) ==
  IF Len(dims) = 1 THEN <<40>> \o PrElems(m, s, esc) \o <<41>>
  ELSE LET n == Prod(Tail(dims))
           RECURSIVE Rows(_)
           Rows(i) == IF i >= dims[1] THEN <<>>
                      ELSE (IF i > 0 THEN <<32>> ELSE <<>>) \o PrArr(m, Tail(dims), SubSeq(s, i*n+1, (i+1)*n), esc) \o Rows(i+1)
       IN <<40>> \o Rows(0) \o <<41>>
QuoteForm(m, v) == /\ Car(m, v) = Sym("quote") \/ Car(m, v) = Sym("quasiquote")
                   /\ IsCons(m, Cdr(m, v)) /\ Some(Car(m, Cdr(m, v))) /\ Cdr(m, Cdr(m, v)) = Nil
Pr(m, v, esc) ==
  CASE v[1] = "i" -> IntCps(v[2], 10)
    [] v[1] = "I" -> v[2]
    [] v[1] = "f" \/ v[1] = "F" -> FloatCps(v)
    [] v[1] = "c" -> CharCps(v[2], esc)
    [] v[1] = "str" -> (IF esc THEN <<34>> \o Escape(v[2], {34, 92}) \o <<34>> ELSE v[2])
    [] v[1] = "s" -> (LET n == SymCps(m, v[2]) IN IF esc /\ v[2] \notin {"nil", "t"} /\ NeedsBar(n) THEN <<124>> \o Escape(n, {92, 124}) \o <<124>> ELSE n)
    [] v[1] = "k" -> SymCps(m, v[2])
    [] OTHER ->
       LET c == Cell(m, v[2]) IN
       IF c[1] = "cons" THEN
         IF QuoteForm(m, v) THEN (IF c[2] = Sym("quote") THEN <<39>> ELSE <<96>>) \o Pr(m, Car(m, c[3]), esc)
         ELSE IF IsProper(m, v) THEN <<40>> \o PrElems(m, ToSeq(m, v), esc) \o <<41>>
         ELSE <<40>> \o Pr(m, c[2], esc) \o <<32, 46, 32>> \o Pr(m, c[3], esc) \o <<41>>
       ELSE \* array
         <<35>> \o (IF Len(c[2]) = 1 THEN <<>> ELSE Append(Digits(Len(c[2]), 10), 65)) \o PrArr(m, c[2], ArrElems(m, v), esc)
\* values of which the printed representation is specified
RECURSIVE Printable(_, _)
Printable(m, v) ==
  CASE v[1] \in {"i", "c", "str", "I", "f", "F"} -> TRUE
    [] v[1] \in {"s", "k"} -> SymKnown(m, v[2])
    [] v[1] = "p" -> LET c == Cell(m, v[2]) IN
         IF c[1] = "cons" THEN Printable(m, c[2]) /\ Printable(m, c[3])
         ELSE IF IsArr(m, v) THEN LET s == ArrElems(m, v) IN \A i \in 1..Len(s) : Printable(m, s[i])
         ELSE FALSE
    [] OTHER -> FALSE
=============================================================================

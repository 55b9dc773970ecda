------------------------------- MODULE Reader -------------------------------
(* The reader of gmnlisp as a machine which takes one code point at a time.  *)
(*                                                                           *)
(* State r:                                                                  *)
(*   mode   what the reader is in: "sp" between tokens, "tok" a word, "str"  *)
(*          "stre" a string, "bar" "bare" a symbol in bars, "bard" behind    *)
(*          the closing bar, "hash" "num" "numa" behind #, # and digits, and *)
(*          an a, "chr" behind #\, "chrn" in a character name, "chrd" behind *)
(*          a character which is no letter, "lc" "bc" "bch" "bcb" comments,  *)
(*          "err" after an error, "?" after something not specified          *)
(*   buf    the code points of the current token                             *)
(*   n      nesting of block comments                                        *)
(*   stk    open lists, arrays and abbreviations, innermost first            *)
(*   out    the forms which are complete                                     *)
(* Forms: numbers as in Num, <<"big",cps>> (more than 64 bits), <<"str",cps>>  *)
(*   <<"c",cp>> <<"k",cps>> <<"y",cps>> <<"nil">> <<"t">>                    *)
(*   <<"l",elems,tail>> <<"a",dims,elems>>                                   *)
EXTENDS Num

RdInit == [mode |-> "sp", buf |-> <<>>, n |-> 0, stk |-> <<>>, out |-> <<>>]
RdBad(r) == [r EXCEPT !.mode = "err"]
RdUnspec(r) == [r EXCEPT !.mode = "?"]

RdSpace(c) == c \in 9..13 \/ c \in {32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \/ c \in 8192..8202
\* ends a word
RdDelim(c) == RdSpace(c) \/ c \in {40, 41, 39, 96, 44, 34, 59}
RdLetter(c) == c \in {170, 181, 186} \cup 65536..65547 \cup 65..90 \/ c \in 97..122 \/ c \in 192..214 \/ c \in 216..246 \/ c \in 248..687 \/ c \in 19968..40869 \/ c \in 12353..12438 \/ c \in 945..969
RdDigit(c) == c \in 48..57
RdDigitVal(c) == IF RdDigit(c) THEN c - 48 ELSE IF c \in 97..122 THEN c - 87 ELSE IF c \in 65..90 THEN c - 55 ELSE 99
RdLower(cps) == [i \in 1..Len(cps) |-> IF cps[i] \in 65..90 THEN cps[i] + 32 ELSE cps[i]]

-----------------------------------------------------------------------------
\* Words
RECURSIVE RdStrip(_)
RdStrip(d) == IF Len(d) > 1 /\ d[1] = 48 THEN RdStrip(Tail(d)) ELSE d
RECURSIVE RdNat(_, _)
RdNat(d, base) == IF d = <<>> THEN 0 ELSE RdNat(SubSeq(d, 1, Len(d) - 1), base) * base + RdDigitVal(d[Len(d)])
\* the same as a natural of Num
RECURSIVE RdLong(_, _)
RdLong(d, base) == IF base = 10 THEN NParse(d) ELSE IF d = <<>> THEN <<>>
                   ELSE NAdd(NMulS(RdLong(SubSeq(d, 1, Len(d) - 1), base), base), NOf(RdDigitVal(d[Len(d)])))
RdSign(t) == Len(t) > 0 /\ t[1] \in {43, 45}
RdUnsigned(t) == IF RdSign(t) THEN Tail(t) ELSE t
RdAllIn(t, P(_)) == \A i \in 1..Len(t) : P(t[i])
RdDigits10(t) == t # <<>> /\ RdAllIn(t, RdDigit)
RdInt(t, base) ==
  LET neg == t[1] = 45
      d == RdStrip(RdUnsigned(t))
      max == CASE base = 10 -> 9 [] base = 16 -> 7 [] base = 8 -> 10 [] OTHER -> 30
      a == RdLong(d, base)
  IN IF Len(d) <= max THEN <<"i", IF neg THEN -RdNat(d, base) ELSE RdNat(d, base)>>
     ELSE IF Fits64(neg, a) THEN IEnc(neg, a) ELSE <<"big", (IF neg THEN <<45>> ELSE <<>>) \o NCps(a)>>
RdIdx(t, S) == {i \in 1..Len(t) : t[i] \in S}
\* <<mantissa digits, number of them after the point, exponent digits with sign>> of a float, or <<>>
RdFloatParts(t) ==
  LET u == RdUnsigned(t)
      es == RdIdx(u, {101, 69})
      e == IF es = {} THEN 0 ELSE CHOOSE i \in es : \A j \in es : i <= j
      man == IF e = 0 THEN u ELSE SubSeq(u, 1, e - 1)
      ex == IF e = 0 THEN <<>> ELSE SubSeq(u, e + 1, Len(u))
      ps == RdIdx(man, {46})
      p == IF ps = {} THEN 0 ELSE CHOOSE i \in ps : \A j \in ps : i <= j
      ip == IF p = 0 THEN man ELSE SubSeq(man, 1, p - 1)
      fp == IF p = 0 THEN <<>> ELSE SubSeq(man, p + 1, Len(man))
  IN IF /\ RdDigits10(ip) /\ (fp = <<>> \/ RdDigits10(fp)) /\ (p # 0 \/ e # 0)
        /\ (e = 0 \/ RdDigits10(RdUnsigned(ex)))
     THEN <<ip \o fp, Len(fp), ex, p # 0 /\ fp = <<>>>> ELSE <<>>
RdFloat(t, parts) ==
  LET d == RdStrip(parts[1])
      ex == RdUnsigned(parts[3])
      xs == RdStrip(ex)
      x == IF ex = <<>> THEN 0 ELSE IF Len(xs) > 3 THEN 1000 ELSE RdNat(xs, 10) * (IF parts[3][1] = 45 THEN -1 ELSE 1)
      v == FOfDec(t[1] = 45, d, x - parts[2]) \* d * 10^(x - number of decimals)
  IN IF parts[4] THEN <<"?">> \* no digit after the point
     ELSE IF v = Inf \/ Len(xs) > 3 THEN <<"?">> ELSE v
\* <<"?">> unspecified, <<"dot">>, or a form
RdWord(t) ==
  LET low == RdLower(t) IN
  IF t = <<46>> THEN <<"dot">>
  ELSE IF \E i \in 1..Len(t) : t[i] = 92 THEN <<"?">>
  ELSE IF t[1] = 35 THEN
    LET base == CASE Len(t) < 2 -> 0 [] low[2] = 120 -> 16 [] low[2] = 111 -> 8 [] low[2] = 98 -> 2 [] OTHER -> 0
        d == SubSeq(t, 3, Len(t))
    IN IF base = 0 \/ RdUnsigned(d) = <<>> \/ \E i \in 1..Len(RdUnsigned(d)) : RdDigitVal(RdUnsigned(d)[i]) >= base THEN <<"?">> ELSE RdInt(d, base)
  ELSE IF t[1] \in {58, 38} THEN (IF Len(t) = 1 THEN <<"?">> ELSE <<"k", t>>)
  ELSE IF RdDigits10(RdUnsigned(t)) THEN RdInt(t, 10)
  ELSE IF RdFloatParts(t) # <<>> THEN RdFloat(t, RdFloatParts(t))
  ELSE IF low = <<116>> THEN <<"t">>
  ELSE IF low = <<110, 105, 108>> THEN <<"nil">>
  ELSE <<"y", t>>
RdCharName(t) ==
  LET low == RdLower(t) IN
  CASE Len(t) = 1 -> <<"c", t[1]>>
    [] low = <<116, 97, 98>> -> <<"c", 9>>
    [] low \in {<<108,105,110,101,102,101,101,100>>, <<110,101,119,108,105,110,101>>} -> <<"c", 10>>
    [] low = <<114,101,116,117,114,110>> -> <<"c", 13>>
    [] low = <<115,112,97,99,101>> -> <<"c", 32>>
    [] t[1] = 85 /\ \A i \in 2..Len(t) : RdDigitVal(t[i]) < 16 ->
         LET d == RdStrip(Tail(t)) IN
         IF Len(d) > 6 THEN <<"?">> ELSE LET n == RdNat(d, 16) IN IF n > 1114111 \/ n \in 55296..57343 THEN <<"?">> ELSE <<"c", n>>
    [] OTHER -> <<"err">>

-----------------------------------------------------------------------------
\* Forms
RdList(elems, tail) == IF elems = <<>> THEN tail
                       ELSE IF tail[1] = "l" THEN <<"l", elems \o tail[2], tail[3]>> ELSE <<"l", elems, tail>>
RdName(n) == CASE n = "quote" -> <<113,117,111,116,101>>
             [] n = "quasiquote" -> <<113,117,97,115,105,113,117,111,116,101>>
             [] n = "unquote" -> <<117,110,113,117,111,116,101>>
             [] OTHER -> <<102,117,110,99,116,105,111,110>>
\* is the reader between the rows of an array?
RdInArr(r) == r.stk # <<>> /\ r.stk[1][1] = "arr" /\ r.stk[1][2].depth < r.stk[1][2].rank
RdPop(r) == [r EXCEPT !.stk = Tail(@)]
RECURSIVE RdPut(_, _)
RdPut(r, v) ==
  IF r.stk = <<>> THEN [r EXCEPT !.out = Append(@, v)]
  ELSE LET f == r.stk[1] IN
    CASE f[1] = "q" -> RdPut(RdPop(r), RdList(<<<<"y", RdName(f[2])>>, v>>, <<"nil">>))
      [] f[1] = "list" -> (CASE f[3] = 0 -> [r EXCEPT !.stk[1][2] = Append(@, v)]
                             [] f[3] = 1 -> [r EXCEPT !.stk[1][3] = 2, !.stk[1][4] = v]
                             [] OTHER -> RdBad(r))
      [] OTHER -> (IF RdInArr(r) THEN RdBad(r)
                   ELSE [r EXCEPT !.stk[1][2].elems = Append(@, v), !.stk[1][2].cnt[f[2].rank] = @ + 1])
RdOpenArr(r, rank) ==
  IF RdInArr(r) \/ rank < 1 THEN RdBad(r) ELSE IF rank > 9 THEN RdUnspec(r)
  ELSE [r EXCEPT !.stk = <<<<"arr", [rank |-> rank, depth |-> 1, elems |-> <<>>, cnt |-> [i \in 1..rank |-> 0], dim |-> [i \in 1..rank |-> 0], fix |-> [i \in 1..rank |-> FALSE]]>>>> \o @]
RdOpen(r) ==
  IF RdInArr(r) THEN [r EXCEPT !.stk[1][2].cnt[r.stk[1][2].depth] = @ + 1, !.stk[1][2].depth = @ + 1]
  ELSE [r EXCEPT !.stk = <<<<"list", <<>>, 0, <<"nil">>>>>> \o @]
RdClose(r) ==
  IF r.stk = <<>> THEN RdBad(r)
  ELSE LET f == r.stk[1] IN
    CASE f[1] = "q" -> RdBad(r)
      [] f[1] = "list" -> (IF f[3] = 1 THEN RdBad(r) ELSE RdPut(RdPop(r), RdList(f[2], f[4])))
      [] OTHER ->
         LET a == f[2]
             d == a.depth
             a2 == [a EXCEPT !.fix[d] = TRUE, !.dim[d] = a.cnt[d], !.cnt[d] = 0, !.depth = d - 1]
         IN IF a.fix[d] /\ a.dim[d] # a.cnt[d] THEN RdBad(r)
            ELSE IF d = 1 THEN RdPut(RdPop(r), <<"a", a2.dim, a.elems>>)
            ELSE [r EXCEPT !.stk[1] = <<"arr", a2>>]
RdDot(r) == IF r.stk # <<>> /\ r.stk[1][1] = "list" /\ r.stk[1][2] # <<>> /\ r.stk[1][3] = 0 THEN [r EXCEPT !.stk[1][3] = 1] ELSE RdBad(r)
RdAbbrev(r, n) == IF RdInArr(r) THEN RdBad(r) ELSE [r EXCEPT !.stk = <<<<"q", n>>>> \o @]

\* the token in the buffer is complete
RdFinish(r0) ==
  LET r == [r0 EXCEPT !.mode = "sp", !.buf = <<>>]
      t == r0.buf
      v == CASE r0.mode = "tok" -> RdWord(t)
             [] r0.mode = "chrn" -> RdCharName(t)
             [] r0.mode = "chrd" -> <<"c", t[1]>>
             [] r0.mode = "bard" -> (IF RdLower(t) \in {<<110, 105, 108>>, <<116>>} THEN <<"?">> ELSE <<"y", t>>)
             [] OTHER -> <<"?">>
  IN CASE v = <<"?">> -> RdUnspec(r) [] v = <<"err">> -> RdBad(r) [] v = <<"dot">> -> RdDot(r) [] OTHER -> RdPut(r, v)
\* modes in which the next code point may end the token
RdPending(r) == r.mode \in {"tok", "chrn", "chrd", "bard", "hash", "num", "numa"}

RdSp(r, c) ==
  CASE r.mode # "sp" \/ RdSpace(c) -> r
    [] c = 59 -> [r EXCEPT !.mode = "lc"]
    [] c = 40 -> RdOpen(r)
    [] c = 41 -> RdClose(r)
    [] c = 39 -> RdAbbrev(r, "quote")
    [] c = 96 -> RdAbbrev(r, "quasiquote")
    [] c = 44 -> [RdAbbrev(r, "unquote") EXCEPT !.n = 1]
    [] c = 34 -> [r EXCEPT !.mode = "str"]
    [] c = 124 -> [r EXCEPT !.mode = "bar"]
    [] c = 35 -> [r EXCEPT !.mode = "hash"]
    [] c = 92 -> RdUnspec(r)
    [] OTHER -> [r EXCEPT !.mode = "tok", !.buf = <<c>>]
RdHash(r, c) ==
  CASE c = 92 -> [r EXCEPT !.mode = "chr"]
    [] c = 39 -> RdAbbrev([r EXCEPT !.mode = "sp"], "function")
    [] c = 40 -> RdOpenArr([r EXCEPT !.mode = "sp"], 1)
    [] c = 124 -> [r EXCEPT !.mode = "bc", !.n = 1]
    [] RdDigit(c) -> [r EXCEPT !.mode = "num", !.buf = <<c>>]
    [] c \in {120, 88, 111, 79, 98, 66} -> [r EXCEPT !.mode = "tok", !.buf = <<35, c>>]
    [] OTHER -> RdUnspec(r)

\* the reader takes the code point c
RdStep(r0, c) ==
  LET r == [r0 EXCEPT !.n = IF r0.mode = "sp" THEN 0 ELSE @] IN
  CASE r0.mode = "sp" -> (IF r0.n = 1 /\ c = 64 THEN RdUnspec(r) \* ,@
                          ELSE RdSp(r, c))
    [] r.mode = "tok" -> (IF RdDelim(c) THEN RdSp(RdFinish(r), c)
                          ELSE IF c = 124 \/ (r.buf[Len(r.buf)] = 35 /\ c = 35) THEN RdUnspec(r)
                          ELSE [r EXCEPT !.buf = Append(@, c)])
    [] r.mode \in {"chrn", "chrd", "bard"} ->
         (IF RdDelim(c) THEN RdSp(RdFinish(r), c)
          ELSE IF r.mode # "chrn" \/ c \in {124, 35, 92} \/ r.buf[1] > 127 THEN RdUnspec(r)
          ELSE [r EXCEPT !.buf = Append(@, c)])
    [] r.mode = "chr" -> [r EXCEPT !.mode = IF RdLetter(c) THEN "chrn" ELSE "chrd", !.buf = <<c>>]
    [] r.mode = "hash" -> RdHash(r, c)
    [] r.mode = "num" -> (IF RdDigit(c) /\ Len(r.buf) < 3 THEN [r EXCEPT !.buf = Append(@, c)]
                          ELSE IF c \in {97, 65} THEN [r EXCEPT !.mode = "numa"] ELSE RdUnspec(r))
    [] r.mode = "numa" -> (IF c = 40 THEN RdOpenArr([r EXCEPT !.mode = "sp", !.buf = <<>>], RdNat(r.buf, 10)) ELSE RdUnspec(r))
    [] r.mode = "str" -> (CASE c = 92 -> [r EXCEPT !.mode = "stre"]
                            [] c = 34 -> RdPut([r EXCEPT !.mode = "sp", !.buf = <<>>], <<"str", r.buf>>)
                            [] OTHER -> [r EXCEPT !.buf = Append(@, c)])
    [] r.mode = "stre" -> [r EXCEPT !.mode = "str", !.buf = Append(@, c)]
    [] r.mode = "bar" -> (CASE c = 92 -> [r EXCEPT !.mode = "bare"]
                            [] c = 124 -> [r EXCEPT !.mode = "bard"]
                            [] OTHER -> [r EXCEPT !.buf = Append(@, c)])
    [] r.mode = "bare" -> (IF c \in {92, 124} THEN [r EXCEPT !.mode = "bar", !.buf = Append(@, c)] ELSE RdUnspec(r))
    [] r.mode = "lc" -> (IF c = 10 THEN [r EXCEPT !.mode = "sp"] ELSE r)
    [] r.mode = "bc" -> (CASE c = 35 -> [r EXCEPT !.mode = "bch"] [] c = 124 -> [r EXCEPT !.mode = "bcb"] [] OTHER -> r)
    [] r.mode = "bch" -> (CASE c = 124 -> [r EXCEPT !.mode = "bc", !.n = @ + 1] [] c = 35 -> r [] OTHER -> [r EXCEPT !.mode = "bc"])
    [] r.mode = "bcb" -> (CASE c = 35 -> (IF r.n = 1 THEN [r EXCEPT !.mode = "sp", !.n = 0] ELSE [r EXCEPT !.mode = "bc", !.n = @ - 1])
                            [] c = 124 -> r [] OTHER -> [r EXCEPT !.mode = "bc"])
    [] OTHER -> r

\* the text ends here
RdEnd(r0) ==
  LET r == IF RdPending(r0) THEN RdFinish(r0) ELSE r0 IN
  CASE r.mode \in {"err", "?"} -> r.mode
    [] r.mode \in {"sp", "lc"} /\ r.stk = <<>> -> "eof"
    [] OTHER -> "err"
RdForms(r0) == IF RdPending(r0) THEN RdFinish(r0).out ELSE r0.out

\* Reading one form from position p of s: <<"ok", form, next position>>, <<"eof", p>>, <<"err", p>> or <<"?">>
RECURSIVE RdOne(_, _, _)
RdOne(r, s, p) ==
  IF r.mode = "?" THEN <<"?">>
  ELSE IF r.mode = "err" THEN <<"err", p>>
  ELSE IF r.out # <<>> THEN <<"ok", r.out[1], p>>
  ELSE IF p > Len(s) THEN
    (IF RdPending(r) THEN LET q == RdFinish(r) IN
        IF q.mode = "?" THEN <<"?">> ELSE IF q.out # <<>> THEN <<"ok", q.out[1], p>> ELSE <<"err", p>>
     ELSE IF RdEnd(r) = "eof" THEN <<"eof", p>> ELSE <<"err", p>>)
  ELSE IF RdPending(r) /\ r.mode \in {"tok", "chrn", "chrd", "bard"} /\ RdDelim(s[p]) THEN
    \* the delimiter is left to the next reader
    LET q == RdFinish(r) IN IF q.mode \in {"err", "?"} \/ q.out # <<>> THEN RdOne(q, s, p) ELSE RdOne(RdSp(q, s[p]), s, p + 1)
  ELSE RdOne(RdStep(r, s[p]), s, p + 1)
=============================================================================

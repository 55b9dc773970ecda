-------------------------------- MODULE Num ---------------------------------
(* Exact arithmetic on the numbers of gmnlisp: integers of 64 bits and IEEE  *)
(* 754 doubles, on top of TLC's integers of 32 bits.                         *)
(*                                                                           *)
(* Naturals are sequences of digits of base 10000, the lowest first, without *)
(* leading zeros. Numbers are                                                *)
(*   <<"i", n>>     an integer with |n| <= 2147483647                        *)
(*   <<"I", cps>>   any other integer, in decimal                            *)
(*   <<"f", k>>     the float k/16 with |k| <= 2147483647 which is not -0.0  *)
(*   <<"F", cps, e>>  any other float m * 2^e, m being odd and in decimal    *)
(*                  (-0.0 is <<"F", "-0", 0>>)                               *)
(*   <<"inf">>      a float which is too big                                 *)
EXTENDS Integers, Sequences

NB == 10000
RECURSIVE NNorm(_)
NNorm(s) == IF s # <<>> /\ s[Len(s)] = 0 THEN NNorm(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE NOf(_)
NOf(n) == IF n = 0 THEN <<>> ELSE <<n % NB>> \o NOf(n \div NB) \* n >= 0
RECURSIVE NAddC(_, _, _, _, _)
NAddC(a, b, i, c, out) ==
  IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN out ELSE Append(out, c))
  ELSE LET s == (IF i <= Len(a) THEN a[i] ELSE 0) + (IF i <= Len(b) THEN b[i] ELSE 0) + c IN NAddC(a, b, i + 1, s \div NB, Append(out, s % NB))
NAdd(a, b) == NAddC(a, b, 1, 0, <<>>)
RECURSIVE NSubC(_, _, _, _, _)
NSubC(a, b, i, c, out) ==
  IF i > Len(a) THEN NNorm(out)
  ELSE LET s == a[i] - (IF i <= Len(b) THEN b[i] ELSE 0) - c IN NSubC(a, b, i + 1, IF s < 0 THEN 1 ELSE 0, Append(out, IF s < 0 THEN s + NB ELSE s))
NSub(a, b) == NSubC(a, b, 1, 0, <<>>) \* a >= b
RECURSIVE NCmpI(_, _, _)
NCmpI(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE NCmpI(a, b, i - 1)
NCmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE NCmpI(a, b, Len(a))
RECURSIVE NMulC(_, _, _, _, _)
NMulC(a, s, i, c, out) ==
  IF i > Len(a) THEN out \o NOf(c) ELSE LET p == a[i] * s + c IN NMulC(a, s, i + 1, p \div NB, Append(out, p % NB))
NMulS(a, s) == IF s = 0 THEN <<>> ELSE NMulC(a, s, 1, 0, <<>>) \* s <= 131072
RECURSIVE NMul(_, _)
NMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
              ELSE LET r == NMul(a, Tail(b)) IN NAdd(NMulS(a, b[1]), IF r = <<>> THEN <<>> ELSE <<0>> \o r)
RECURSIVE NDivC(_, _, _, _, _)
NDivC(a, s, i, r, out) ==
  IF i = 0 THEN <<NNorm(out), r>> ELSE LET x == r * NB + a[i] IN NDivC(a, s, i - 1, x % s, <<x \div s>> \o out)
NDivS(a, s) == NDivC(a, s, Len(a), 0, <<>>) \* <<quotient, remainder as a number>>, s <= 131072
\* the greatest d in lo..hi with d * b <= r
RECURSIVE NQuot(_, _, _, _)
NQuot(b, r, lo, hi) ==
  IF lo = hi THEN lo ELSE LET d == (lo + hi + 1) \div 2 IN IF NCmp(NMulS(b, d), r) <= 0 THEN NQuot(b, r, d, hi) ELSE NQuot(b, r, lo, d - 1)
RECURSIVE NDivL(_, _, _, _, _)
NDivL(a, b, i, r, out) ==
  IF i = 0 THEN <<NNorm(out), r>>
  ELSE LET x == NNorm(<<a[i]>> \o r)
           d == IF NCmp(x, b) < 0 THEN 0 ELSE NQuot(b, x, 1, NB - 1)
       IN NDivL(a, b, i - 1, IF d = 0 THEN x ELSE NSub(x, NMulS(b, d)), <<d>> \o out)
NDivMod(a, b) == IF Len(b) = 1 THEN LET q == NDivS(a, b[1]) IN <<q[1], NOf(q[2])>> ELSE NDivL(a, b, Len(a), <<>>, <<>>)
RECURSIVE NShl(_, _)
NShl(a, k) == IF k = 0 THEN a ELSE IF k >= 16 THEN NShl(NMulS(a, 65536), k - 16) ELSE NMulS(a, 2 ^ k)
RECURSIVE NMul5(_, _)
NMul5(a, k) == IF k = 0 THEN a ELSE IF k >= 7 THEN NMul5(NMulS(a, 78125), k - 7) ELSE NMulS(a, 5 ^ k)
RECURSIVE NPow10(_)
NPow10(k) == IF k >= 4 THEN <<0>> \o NPow10(k - 4) ELSE <<10 ^ k>> \* k >= 0
\* n times 10^k
RECURSIVE NShl10(_, _)
NShl10(a, k) == IF k >= 4 THEN NShl10(<<0>> \o a, k - 4) ELSE NMulS(a, 10 ^ k)
RECURSIVE NBitsS(_)
NBitsS(n) == IF n = 0 THEN 0 ELSE 1 + NBitsS(n \div 2)
RECURSIVE NBits(_)
NBits(a) == IF Len(a) <= 2 THEN NBitsS(IF a = <<>> THEN 0 ELSE IF Len(a) = 1 THEN a[1] ELSE a[1] + NB * a[2]) ELSE 16 + NBits(NDivS(a, 65536)[1])
\* <<a \div 2^k, a % 2^k>>
NShr(a, k) == IF k <= 16 THEN LET q == NDivS(a, 2 ^ k) IN <<q[1], NOf(q[2])>> ELSE NDivMod(a, NShl(<<1>>, k))
NEven(a) == a = <<>> \/ a[1] % 2 = 0
RECURSIVE NDig(_, _)
NDig(n, k) == IF k = 0 THEN <<>> ELSE Append(NDig(n \div 10, k - 1), 48 + (n % 10))
RECURSIVE NDigs(_)
NDigs(a) == IF a = <<>> THEN <<>> ELSE NDigs(Tail(a)) \o NDig(a[1], 4)
RECURSIVE NStrip0(_)
NStrip0(d) == IF Len(d) > 1 /\ d[1] = 48 THEN NStrip0(Tail(d)) ELSE d
NCps(a) == IF a = <<>> THEN <<48>> ELSE NStrip0(NDigs(a)) \* in decimal
RECURSIVE NCpsIn(_, _)
NCpsIn(a, base) == LET q == NDivS(a, base)
                       d == IF q[2] < 10 THEN 48 + q[2] ELSE 55 + q[2] IN IF q[1] = <<>> THEN <<d>> ELSE Append(NCpsIn(q[1], base), d)
\* the natural of decimal digits
RECURSIVE NVal(_)
NVal(d) == IF d = <<>> THEN 0 ELSE NVal(SubSeq(d, 1, Len(d) - 1)) * 10 + d[Len(d)] - 48
RECURSIVE NRead(_)
NRead(d) == IF d = <<>> THEN <<>> ELSE LET k == IF Len(d) > 4 THEN 4 ELSE Len(d) IN <<NVal(SubSeq(d, Len(d) - k + 1, Len(d)))>> \o NRead(SubSeq(d, 1, Len(d) - k))
NParse(d) == NNorm(NRead(d))
MaxSmall == <<3647, 4748, 21>>
NSmall(a) == NCmp(a, MaxSmall) <= 0
NInt(a) == IF a = <<>> THEN 0 ELSE a[1] + NB * (IF Len(a) = 1 THEN 0 ELSE a[2] + NB * (IF Len(a) = 2 THEN 0 ELSE a[3])) \* NSmall(a)

-----------------------------------------------------------------------------
\* Integers: <<negative, natural>>
NumAbs(n) == IF n < 0 THEN -n ELSE n
WideTag(v) == v[1] = "I" \/ v[1] = "F"
IsIntV(v) == v[1] = "i" \/ v[1] = "I"
IsFltV(v) == v[1] = "f" \/ v[1] = "F"
IDec(v) == IF v[1] = "i" THEN <<v[2] < 0, NOf(NumAbs(v[2]))>> ELSE LET neg == v[2][1] = 45 IN <<neg, NParse(IF neg THEN Tail(v[2]) ELSE v[2])>>
IEnc(neg, a) == IF NSmall(a) THEN <<"i", IF neg THEN -NInt(a) ELSE NInt(a)>> ELSE <<"I", (IF neg THEN <<45>> ELSE <<>>) \o NCps(a)>>
Max64 == <<5807, 5477, 368, 3372, 922>> \* 9223372036854775807
Fits64(neg, a) == LET c == NCmp(a, Max64) IN c <= 0 \/ (neg /\ NCmp(NSub(a, <<1>>), Max64) <= 0)
NoNum == <<"none">>
IRes(neg, a) == IF Fits64(neg, a) THEN IEnc(neg, a) ELSE NoNum
SAdd(xn, x, yn, y) == \* <<negative, natural>>
  IF xn = yn THEN <<xn, NAdd(x, y)>>
  ELSE LET c == NCmp(x, y) IN IF c = 0 THEN <<FALSE, <<>>>> ELSE IF c > 0 THEN <<xn, NSub(x, y)>> ELSE <<yn, NSub(y, x)>>
IAdd(x, y) == LET a == IDec(x)
                  b == IDec(y)
                  r == SAdd(a[1], a[2], b[1], b[2]) IN IRes(r[1], r[2])
INeg(y) == LET b == IDec(y) IN IEnc(~b[1] /\ b[2] # <<>>, b[2])
ISub(x, y) == LET a == IDec(x)
                  b == IDec(y)
                  r == SAdd(a[1], a[2], ~b[1], b[2]) IN IRes(r[1], r[2])
IMul(x, y) == LET a == IDec(x)
                  b == IDec(y)
                  p == NMul(a[2], b[2]) IN IRes(a[1] # b[1] /\ p # <<>>, p)
\* <<quotient, remainder>> of the truncating division
IDivT(x, y) == LET a == IDec(x)
                   b == IDec(y)
                   q == NDivMod(a[2], b[2]) IN <<IRes(a[1] # b[1] /\ q[1] # <<>>, q[1]), IEnc(a[1] /\ q[2] # <<>>, q[2])>>
IZero(v) == v = <<"i", 0>>
INegative(v) == IDec(v)[1]
IModF(x, y) == LET r == IDivT(x, y)[2] IN IF ~IZero(r) /\ INegative(r) # INegative(y) THEN IAdd(r, y) ELSE r
ILess(x, y) == LET a == IDec(x)
                   b == IDec(y) IN
               IF a[1] # b[1] THEN a[1] ELSE IF a[1] THEN NCmp(b[2], a[2]) < 0 ELSE NCmp(a[2], b[2]) < 0
IEven(x) == NEven(IDec(x)[2])
ICps(v, base) == LET a == IDec(v) IN (IF a[1] THEN <<45>> ELSE <<>>) \o (IF base = 10 THEN NCps(a[2]) ELSE IF a[2] = <<>> THEN <<48>> ELSE NCpsIn(a[2], base))

-----------------------------------------------------------------------------
\* Floats: <<negative, natural, exponent of 2>>
Inf == <<"inf">>
FDec(v) == IF v[1] = "f" THEN <<v[2] < 0, NOf(NumAbs(v[2])), -4>>
           ELSE LET neg == v[2][1] = 45 IN <<neg, NParse(IF neg THEN Tail(v[2]) ELSE v[2]), v[3]>>
RECURSIVE FEnc(_, _, _)
FEnc(neg, a, e) == \* a float which is exactly a * 2^e
  IF a = <<>> THEN (IF neg THEN <<"F", <<45, 48>>, 0>> ELSE <<"f", 0>>)
  ELSE IF e >= -4 /\ e < 32 /\ NSmall(NShl(a, e + 4)) THEN LET k == NInt(NShl(a, e + 4)) IN <<"f", IF neg THEN -k ELSE k>>
  ELSE IF a[1] % 16 = 0 /\ e < -8 THEN FEnc(neg, NDivS(a, 16)[1], e + 4)
  ELSE IF a[1] % 2 = 0 THEN FEnc(neg, NDivS(a, 2)[1], e + 1)
  ELSE <<"F", (IF neg THEN <<45>> ELSE <<>>) \o NCps(a), e>>
\* the float nearest to a * 2^e, or to a bit more than that if st (a has 55 bits at least then)
FRound(neg, a, e, st) ==
  LET sh0 == NBits(a) - 53
      sh == IF sh0 < -1074 - e THEN -1074 - e ELSE sh0
      q == NShr(a, sh)
      half == NShl(<<1>>, sh - 1)
      c == NCmp(q[2], half)
      r == IF c > 0 \/ (c = 0 /\ (st \/ ~NEven(q[1]))) THEN NAdd(q[1], <<1>>) ELSE q[1]
  IN IF a = <<>> \/ sh <= 0 THEN (IF NBits(a) + e > 1024 THEN Inf ELSE FEnc(neg, a, e))
     ELSE IF NBits(r) + e + sh > 1024 THEN Inf ELSE FEnc(neg, r, e + sh)
FMin(a, b) == IF a < b THEN a ELSE b
FAddD(x, y) == \* on <<negative, natural, exponent>>
  LET e == FMin(x[3], y[3])
      r == SAdd(x[1], NShl(x[2], x[3] - e), y[1], NShl(y[2], y[3] - e))
  IN IF r[2] = <<>> THEN FEnc(x[1] /\ y[1], <<>>, 0) ELSE FRound(r[1], r[2], e, FALSE)
FNegD(x) == <<~x[1], x[2], x[3]>>
FMulD(x, y) == FRound(x[1] # y[1], NMul(x[2], y[2]), x[3] + y[3], FALSE)
FQuo(neg, a, b, e) == \* a / b * 2^e
  IF a = <<>> THEN FEnc(neg, <<>>, 0)
  ELSE LET k0 == 56 + NBits(b) - NBits(a)
           k == IF k0 < 0 THEN 0 ELSE k0
           q == NDivMod(NShl(a, k), b)
       IN FRound(neg, q[1], e - k, q[2] # <<>>)
FDivD(x, y) == FQuo(x[1] # y[1], x[2], y[2], x[3] - y[3])
RECURSIVE NSqrtI(_, _)
\* Newton's method from above
NSqrtI(a, x) == LET y == NDivS(NAdd(x, NDivMod(a, x)[1]), 2)[1] IN IF NCmp(y, x) >= 0 THEN x ELSE NSqrtI(a, y)
NSqrt(a) == IF a = <<>> THEN <<>> ELSE NSqrtI(a, NShl(<<1>>, (NBits(a) + 1) \div 2))
FSqrtD(x) == \* of a float which is not negative
  IF x[2] = <<>> THEN FEnc(x[1], <<>>, 0)
  ELSE LET k0 == 114 - NBits(x[2])
           k1 == IF k0 < 0 THEN 0 ELSE k0
           k == IF (x[3] - k1) % 2 = 0 THEN k1 ELSE k1 + 1
           a == NShl(x[2], k)
           r == NSqrt(a)
       IN FRound(FALSE, r, (x[3] - k) \div 2, NMul(r, r) # a)
FLessD(x, y) ==
  IF x[2] = <<>> /\ y[2] = <<>> THEN FALSE
  ELSE IF x[2] = <<>> THEN ~y[1] ELSE IF y[2] = <<>> THEN x[1]
  ELSE IF x[1] # y[1] THEN x[1]
  ELSE LET e == FMin(x[3], y[3])
           c == NCmp(NShl(x[2], x[3] - e), NShl(y[2], y[3] - e))
       IN IF x[1] THEN c > 0 ELSE c < 0
FEqD(x, y) == ~FLessD(x, y) /\ ~FLessD(y, x)
\* an integer as a float
FOfInt(v) == LET a == IDec(v) IN FRound(a[1], a[2], 0, FALSE)
NumDec(v) == FDec(IF IsIntV(v) THEN FOfInt(v) ELSE v)
FZero(v) == FDec(v)[2] = <<>>
\* an integer next to a float: "floor" "ceiling" "truncate" "round"
FToInt(v, how) ==
  LET x == FDec(v)
      q == IF x[3] >= 0 THEN <<NShl(x[2], x[3]), <<>>>> ELSE NShr(x[2], -x[3])
      half == NShl(<<1>>, -x[3] - 1)
      c == NCmp(q[2], half)
      up == /\ q[2] # <<>>
            /\ CASE how = "floor" -> x[1]
                 [] how = "ceiling" -> ~x[1]
                 [] how = "truncate" -> FALSE
                 [] OTHER -> c > 0 \/ (c = 0 /\ ~NEven(q[1]))
      r == IF up THEN NAdd(q[1], <<1>>) ELSE q[1]
  IN IF x[3] > 70 THEN NoNum ELSE IRes(x[1] /\ r # <<>>, r)
\* the remainder of the truncating division of floats, which is exact
FRemD(x, y) ==
  LET e == FMin(x[3], y[3])
      r == NDivMod(NShl(x[2], x[3] - e), NShl(y[2], y[3] - e))[2]
  IN FEnc(x[1], r, e)

-----------------------------------------------------------------------------
\* The float which decimal digits d times 10^sc denotes
FOfDec(neg, d, sc) ==
  LET a == NParse(d) IN
  IF a = <<>> THEN FEnc(neg, <<>>, 0)
  ELSE IF Len(d) + sc > 320 THEN Inf ELSE IF Len(d) + sc < -340 THEN FEnc(neg, <<>>, 0)
  ELSE IF sc >= 0 THEN FRound(neg, NShl10(a, sc), 0, FALSE)
  ELSE FQuo(neg, a, NPow10(-sc), 0)

RECURSIVE FZeros(_)
FZeros(n) == IF n <= 0 THEN <<>> ELSE <<48>> \o FZeros(n - 1)
\* The shortest decimal which is read as that float: <<digits, position of the point>>, value 0.d1d2.. * 10^position
RECURSIVE FTrail(_)
FTrail(d) == IF Len(d) > 1 /\ d[Len(d)] = 48 THEN FTrail(SubSeq(d, 1, Len(d) - 1)) ELSE d
\* is what follows the first n digits less than, equal to or more than one half: -1, 0, 1
DHalf(d, n) == IF d[n+1] # 53 THEN (IF d[n+1] < 53 THEN -1 ELSE 1) ELSE IF \A i \in (n+2)..Len(d) : d[i] = 48 THEN 0 ELSE 1
\* the natural with the digits d rounded to its first n
NRoundTo(d, n) ==
  IF n >= Len(d) THEN NParse(d)
  ELSE LET p == NParse(SubSeq(d, 1, n))
           h == DHalf(d, n)
       IN NShl10(IF h > 0 \/ (h = 0 /\ ~NEven(p)) THEN NAdd(p, <<1>>) ELSE p, Len(d) - n)
RECURSIVE FTry(_, _, _, _, _)
FTry(d, lo, hi, incl, n) ==
  IF n >= Len(d) THEN NParse(d)
  ELSE LET p == NParse(SubSeq(d, 1, n))
           c1 == NShl10(p, Len(d) - n)
           c2 == NShl10(NAdd(p, <<1>>), Len(d) - n)
           a == NCmp(lo, c1)
           b == NCmp(c2, hi)
           ok1 == a < 0 \/ (incl /\ a = 0)
           ok2 == b < 0 \/ (incl /\ b = 0)
       IN IF ok1 /\ ok2 THEN NRoundTo(d, n) ELSE IF ok1 THEN c1 ELSE IF ok2 THEN c2 ELSE FTry(d, lo, hi, incl, n + 1)
FShortest(v) ==
  LET x == FDec(v)
      up0 == 53 - NBits(x[2])
      up == IF x[3] - up0 < -1074 THEN x[3] + 1074 ELSE up0
      m == IF up >= 0 THEN NShl(x[2], up) ELSE NShr(x[2], -up)[1]
      e == x[3] - up - 2 \* the value is 4m * 2^e
      low == IF NBits(m) = 53 /\ NCmp(m, NShl(<<1>>, 52)) = 0 THEN 1 ELSE 2
      k == IF e < 0 THEN -e ELSE 0 \* everything times 10^k
      sc(a) == IF e < 0 THEN NMul5(a, k) ELSE NShl(a, e)
      m4 == NMulS(m, 4)
      val == sc(m4)
      d == NCps(FTry(NCps(val), sc(NSub(m4, <<low>>)), sc(NAdd(m4, <<2>>)), NEven(m), 1))
  IN <<FTrail(d), Len(d) - k>>
FExpCps(x) == LET a == NumAbs(x) IN (IF x < 0 THEN <<45>> ELSE <<43>>) \o (IF a < 10 THEN <<48, 48 + a>> ELSE NCps(NOf(a)))
\* the printed representation of a float
FCps(v) ==
  IF FZero(v) THEN (IF FDec(v)[1] THEN <<45>> ELSE <<>>) \o <<48, 46, 48>>
  ELSE LET s == FShortest(v)
           d == s[1]
           p == s[2]
           body == IF p - 1 < -4 \/ p - 1 >= 6
                   THEN <<d[1]>> \o (IF Len(d) = 1 THEN <<>> ELSE <<46>> \o Tail(d)) \o <<101>> \o FExpCps(p - 1)
                   ELSE IF p <= 0 THEN <<48, 46>> \o FZeros(-p) \o d
                   ELSE IF p >= Len(d) THEN d \o FZeros(p - Len(d)) \o <<46, 48>>
                   ELSE SubSeq(d, 1, p) \o <<46>> \o SubSeq(d, p + 1, Len(d))
       IN (IF FDec(v)[1] THEN <<45>> ELSE <<>>) \o body
\* with n places after the point
FFix(v, n) ==
  LET x == FDec(v)
      k == IF x[3] < 0 THEN -x[3] ELSE 0
      a == IF x[3] < 0 THEN NMul5(x[2], k) ELSE NShl(x[2], x[3]) \* value * 10^k
      da == FZeros(k - n + 1 - Len(NCps(a))) \o NCps(a)
      r == IF k <= n THEN NShl10(a, n - k)
           ELSE LET p == NParse(SubSeq(da, 1, Len(da) - k + n))
                    h == DHalf(da, Len(da) - k + n)
                IN IF h > 0 \/ (h = 0 /\ ~NEven(p)) THEN NAdd(p, <<1>>) ELSE p
      d0 == NCps(r)
      d == FZeros(n + 1 - Len(d0)) \o d0
  IN (IF x[1] THEN <<45>> ELSE <<>>) \o SubSeq(d, 1, Len(d) - n) \o (IF n = 0 THEN <<>> ELSE <<46>> \o SubSeq(d, Len(d) - n + 1, Len(d)))
\* with an exponent and n places after the point
FSci(v, n) ==
  LET x == FDec(v)
      k == IF x[3] < 0 THEN -x[3] ELSE 0
      a == IF x[3] < 0 THEN NMul5(x[2], k) ELSE NShl(x[2], x[3])
      d0 == NCps(NRoundTo(NCps(a), n + 1))
      d == SubSeq(d0 \o FZeros(n + 1), 1, n + 1)
      p == Len(d0) - k - 1
  IN (IF x[1] THEN <<45>> ELSE <<>>) \o
     (IF x[2] = <<>> THEN <<48, 46>> \o FZeros(n) \o <<101, 43, 48, 48>> ELSE <<d[1]>> \o (IF n = 0 THEN <<>> ELSE <<46>> \o Tail(d)) \o <<101>> \o FExpCps(p))

-----------------------------------------------------------------------------
\* Numbers of both kinds; <<"none">> or <<"inf">> when the result is not specified
NumArith(op, x, y) ==
  IF IsIntV(x) /\ IsIntV(y) THEN
    (CASE op = "+" -> IAdd(x, y) [] op = "-" -> ISub(x, y) [] op = "*" -> IMul(x, y) [] OTHER -> IDivT(x, y)[1])
  ELSE LET a == NumDec(x)
           b == NumDec(y) IN
    CASE op = "+" -> FAddD(a, b) [] op = "-" -> FAddD(a, FNegD(b)) [] op = "*" -> FMulD(a, b) [] OTHER -> FDivD(a, b)
NumLt(x, y) == IF IsIntV(x) /\ IsIntV(y) THEN ILess(x, y) ELSE FLessD(NumDec(x), NumDec(y))
NumEqual(x, y) == IF IsIntV(x) /\ IsIntV(y) THEN x = y ELSE FEqD(NumDec(x), NumDec(y))
NumZero(v) == IF IsIntV(v) THEN IZero(v) ELSE FZero(v)
NumRes(r) == r # NoNum /\ r # Inf
=============================================================================

------------------------------- MODULE Regex --------------------------------
(* Regular expressions as =~ and =~i understand them (a subset of Go's): the *)
(* text of a pattern, a sequence of code points, is parsed into a tree, and   *)
(* RxAll gives all the matches of it in a string, leftmost first, each one    *)
(* the first one a backtracking search finds, with the parts its groups       *)
(* matched. A pattern outside of the subset has the status "drop", one which  *)
(* is wrong "err".                                                            *)
(* Trees: <<"ch", c>> <<"any">> <<"set", neg, {<<lo, hi>>}>> <<"cat", s>>     *)
(* <<"alt", s>> <<"star", t, greedy>> <<"plus", t, greedy>> <<"opt", t, greedy>> *)
(* <<"grp", n, t>> <<"bol">> <<"eol">>                                        *)
EXTENDS Integers, Sequences

RxDigit == {<<48, 57>>}
RxWord == {<<48, 57>>, <<65, 90>>, <<95, 95>>, <<97, 122>>}
RxSpace == {<<9, 10>>, <<12, 13>>, <<32, 32>>}
RxMax == 1114111
RxIn(c, S) == \E r \in S : c >= r[1] /\ c <= r[2]
RxPunct(c) == c \in (33..47) \cup (58..64) \cup (91..96) \cup (123..126)
\* what \c means: a tree, or <<"drop">>
RxEsc(c) == CASE c = 100 -> <<"set", FALSE, RxDigit>> [] c = 68 -> <<"set", TRUE, RxDigit>>
              [] c = 119 -> <<"set", FALSE, RxWord>> [] c = 87 -> <<"set", TRUE, RxWord>>
              [] c = 115 -> <<"set", FALSE, RxSpace>> [] c = 83 -> <<"set", TRUE, RxSpace>>
              [] c = 110 -> <<"ch", 10>> [] c = 116 -> <<"ch", 9>> [] c = 114 -> <<"ch", 13>>
              [] RxPunct(c) -> <<"ch", c>>
              [] OTHER -> <<"drop">>
RxOk(t, i, n) == <<"ok", t, i, n>>
RxBad(st) == <<st, <<>>, 0, 0>>

RECURSIVE RxSet(_, _, _, _, _)
\* the rest of a class [...], S being the ranges so far, first: nothing has been read yet
RxSet(p, i, neg, S, first) ==
  IF i > Len(p) THEN RxBad("err")
  ELSE IF p[i] = 93 /\ ~first THEN RxOk(<<"set", neg, S>>, i + 1, 0)
  ELSE IF p[i] = 91 THEN RxBad("drop")
  ELSE IF p[i] = 92 THEN
    (IF i = Len(p) THEN RxBad("err")
     ELSE LET e == RxEsc(p[i+1]) IN
          IF e[1] = "drop" \/ (e[1] = "set" /\ e[2]) THEN RxBad("drop")
          ELSE IF i + 2 <= Len(p) /\ p[i+2] = 45 /\ ~(i + 3 <= Len(p) /\ p[i+3] = 93) THEN RxBad("drop")
          ELSE RxSet(p, i + 2, neg, S \cup (IF e[1] = "ch" THEN {<<e[2], e[2]>>} ELSE e[3]), FALSE))
  ELSE IF i + 2 <= Len(p) /\ p[i+1] = 45 /\ p[i+2] # 93 THEN
    (IF p[i] = 45 \/ p[i+2] \in {92, 91, 45} THEN RxBad("drop")
     ELSE IF p[i+2] < p[i] THEN RxBad("err")
     ELSE RxSet(p, i + 3, neg, S \cup {<<p[i], p[i+2]>>}, FALSE))
  ELSE IF p[i] = 45 /\ ~first /\ ~(i + 1 <= Len(p) /\ p[i+1] = 93) THEN RxBad("drop")
  ELSE RxSet(p, i + 1, neg, S \cup {<<p[i], p[i]>>}, FALSE)

RECURSIVE RxNull(_)
RxNull(t) == CASE t[1] \in {"star", "opt", "bol", "eol"} -> TRUE
               [] t[1] = "plus" -> RxNull(t[2])
               [] t[1] = "grp" -> RxNull(t[3])
               [] t[1] = "cat" -> \A j \in 1..Len(t[2]) : RxNull(t[2][j])
               [] t[1] = "alt" -> \E j \in 1..Len(t[2]) : RxNull(t[2][j])
               [] OTHER -> FALSE
RxQ(c) == c \in {42, 43, 63}
\* quantifiers after the tree r[2]
RxQuant(p, r) ==
  IF r[1] # "ok" \/ r[3] > Len(p) \/ ~(RxQ(p[r[3]]) \/ p[r[3]] = 123) THEN r
  ELSE IF p[r[3]] = 123 THEN RxBad("drop")
  ELSE LET lazy == r[3] < Len(p) /\ p[r[3]+1] = 63
           nx == r[3] + (IF lazy THEN 2 ELSE 1)
           op == CASE p[r[3]] = 42 -> "star" [] p[r[3]] = 43 -> "plus" [] OTHER -> "opt"
       IN IF nx <= Len(p) /\ (RxQ(p[nx]) \/ p[nx] = 123) THEN (IF RxQ(p[nx]) THEN RxBad("err") ELSE RxBad("drop"))
          ELSE IF RxNull(r[2]) THEN RxBad("drop")
          ELSE RxOk(<<op, r[2], ~lazy>>, nx, r[4])

RECURSIVE RxAlt(_, _, _, _), RxSeq(_, _, _, _), RxAtom(_, _, _)
\* n: the number of groups so far
RxAtom(p, i, n) ==
  LET c == p[i] IN
  CASE c = 40 ->
         (IF i + 1 <= Len(p) /\ p[i+1] = 63
          THEN (IF i + 2 <= Len(p) /\ p[i+2] = 58
                THEN LET r == RxAlt(p, i + 3, n, <<>>) IN
                     IF r[1] # "ok" THEN r ELSE IF r[3] > Len(p) THEN RxBad("err") ELSE RxOk(r[2], r[3] + 1, r[4])
                ELSE RxBad("drop"))
          ELSE LET r == RxAlt(p, i + 1, n + 1, <<>>) IN
               IF r[1] # "ok" THEN r ELSE IF r[3] > Len(p) THEN RxBad("err") ELSE RxOk(<<"grp", n + 1, r[2]>>, r[3] + 1, r[4]))
    [] c = 91 -> (LET neg == i < Len(p) /\ p[i+1] = 94
                      r == RxSet(p, IF neg THEN i + 2 ELSE i + 1, neg, {}, TRUE) IN IF r[1] # "ok" THEN r ELSE RxOk(r[2], r[3], n))
    [] c = 92 -> (IF i = Len(p) THEN RxBad("err") ELSE LET e == RxEsc(p[i+1]) IN IF e[1] = "drop" THEN RxBad("drop") ELSE RxOk(e, i + 2, n))
    [] c = 46 -> RxOk(<<"any">>, i + 1, n)
    [] c = 94 -> RxOk(<<"bol">>, i + 1, n)
    [] c = 36 -> RxOk(<<"eol">>, i + 1, n)
    [] RxQ(c) -> RxBad("err")
    [] c = 123 -> RxBad("drop")
    [] OTHER -> RxOk(<<"ch", c>>, i + 1, n)
RxSeq(p, i, n, acc) ==
  IF i > Len(p) \/ p[i] \in {41, 124} THEN RxOk(<<"cat", acc>>, i, n)
  ELSE LET r == RxQuant(p, RxAtom(p, i, n)) IN IF r[1] # "ok" THEN r ELSE RxSeq(p, r[3], r[4], Append(acc, r[2]))
RxAlt(p, i, n, acc) ==
  LET r == RxSeq(p, i, n, <<>>) IN
  IF r[1] # "ok" THEN r
  ELSE IF r[3] <= Len(p) /\ p[r[3]] = 124 THEN RxAlt(p, r[3] + 1, r[4], Append(acc, r[2]))
  ELSE RxOk(IF acc = <<>> THEN r[2] ELSE <<"alt", Append(acc, r[2])>>, r[3], r[4])
\* <<status, tree, -, number of groups>>
RxParse(p) == LET r == RxAlt(p, 1, 0, <<>>) IN IF r[1] # "ok" THEN r ELSE IF r[3] <= Len(p) THEN RxBad("err") ELSE r

RxNo == <<FALSE>>
RECURSIVE RxM(_, _, _, _)
\* st: the trees which must match one after the other from s[i] on; cap: the bounds of the groups
RxM(st, s, i, cap) ==
  IF st = <<>> THEN <<TRUE, i, cap>>
  ELSE LET t == Head(st)
           r == Tail(st)
           First(a, b) == LET x == RxM(a, s, i, cap) IN IF x[1] THEN x ELSE RxM(b, s, i, cap)
           Prefer(g, a, b) == IF g THEN First(a, b) ELSE First(b, a)
       IN CASE t[1] = "ch" -> (IF i <= Len(s) /\ s[i] = t[2] THEN RxM(r, s, i + 1, cap) ELSE RxNo)
            [] t[1] = "any" -> (IF i <= Len(s) /\ s[i] # 10 THEN RxM(r, s, i + 1, cap) ELSE RxNo)
            [] t[1] = "set" -> (IF i <= Len(s) /\ RxIn(s[i], t[3]) # t[2] THEN RxM(r, s, i + 1, cap) ELSE RxNo)
            [] t[1] = "cat" -> RxM(t[2] \o r, s, i, cap)
            [] t[1] = "alt" -> (IF Len(t[2]) = 1 THEN RxM(<<t[2][1]>> \o r, s, i, cap)
                                ELSE First(<<t[2][1]>> \o r, <<<<"alt", Tail(t[2])>>>> \o r))
            [] t[1] = "star" -> Prefer(t[3], <<t[2], t>> \o r, r)
            [] t[1] = "plus" -> RxM(<<t[2], <<"star", t[2], t[3]>>>> \o r, s, i, cap)
            [] t[1] = "opt" -> Prefer(t[3], <<t[2]>> \o r, r)
            [] t[1] = "grp" -> RxM(<<<<"open", t[2]>>, t[3], <<"shut", t[2]>>>> \o r, s, i, cap)
            [] t[1] = "open" -> RxM(r, s, i, [cap EXCEPT ![t[2]][1] = i])
            [] t[1] = "shut" -> RxM(r, s, i, [cap EXCEPT ![t[2]][2] = i])
            [] t[1] = "bol" -> (IF i = 1 THEN RxM(r, s, i, cap) ELSE RxNo)
            [] OTHER -> (IF i = Len(s) + 1 THEN RxM(r, s, i, cap) ELSE RxNo)
RECURSIVE RxFrom(_, _, _, _)
\* the leftmost match from s[i] on: <<>> or <<bounds of all, bounds of group 1, ...>>; bounds <<0, 0>>: no part in the match
RxFrom(t, n, s, i) ==
  IF i > Len(s) + 1 THEN <<>>
  ELSE LET x == RxM(<<t>>, s, i, [j \in 1..n |-> <<0, 0>>]) IN
       IF x[1] THEN <<<<i, x[2]>>>> \o x[3] ELSE RxFrom(t, n, s, i + 1)
RECURSIVE RxLoop(_, _, _, _, _)
\* an empty match right after a match does not count
RxLoop(t, n, s, pos, last) ==
  IF pos > Len(s) + 1 THEN <<>>
  ELSE LET x == RxFrom(t, n, s, pos) IN
       IF x = <<>> THEN <<>>
       ELSE IF x[1][2] = pos THEN (IF x[1][1] = last THEN <<>> ELSE <<x>>) \o RxLoop(t, n, s, pos + 1, x[1][2])
       ELSE <<x>> \o RxLoop(t, n, s, x[1][2], x[1][2])
RxAll(r, s) == RxLoop(r[2], r[4], s, 1, 0)
=============================================================================

------------------------------ MODULE ReaderGen ------------------------------
(* Every text over an alphabet up to a length, or the texts of a file, and   *)
(* what the reader makes of them.                                            *)
EXTENDS Reader, TLC, Json, IOUtils

Conf == ndJsonDeserialize(IOEnv.CASES)[1]
Alphabet == {Conf.alphabet[i] : i \in 1..Len(Conf.alphabet)}
MaxLen == Conf.len
Texts == Conf.texts

VARIABLES id, t, r
vars == <<id, t, r>>

Verdict == <<RdForms(r), RdEnd(r)>>
Say == PrintT(ToJson(<<id, t, Verdict[1], Verdict[2]>>))
Dead == r.mode \in {"err", "?"}

Init == /\ id \in 0..Len(Texts)
        /\ t = (IF id = 0 THEN <<>> ELSE Texts[id])
        /\ r = IF id = 0 THEN RdInit ELSE
             LET RECURSIVE Go(_, _)
                 Go(q, i) == IF i > Len(t) THEN q ELSE Go(RdStep(q, t[i]), i + 1) IN Go(RdInit, 1)
Next == /\ id = 0 /\ Len(t) < MaxLen /\ r.mode # "?"
        /\ \E c \in Alphabet : t' = Append(t, c) /\ r' = RdStep(r, c)
        /\ UNCHANGED id
Spec == Init /\ [][Next]_vars
View == <<id, t>>

\* What is read does not depend on the text behind it: forms are only added
Kept == [][Len(r.out) <= Len(r'.out) /\ SubSeq(r'.out, 1, Len(r.out)) = r.out]_vars
\* an error or the end of what is specified stays
Stays == [][(r.mode = "err" => r'.mode = "err")]_vars
\* every complete form outside of any other is in r.out; frames are well formed
WellFormed == \A i \in 1..Len(r.stk) : r.stk[i][1] \in {"list", "q", "arr"} /\ (r.stk[i][1] = "list" => r.stk[i][3] \in 0..2)
\* reading form by form gives the same as reading the text as a whole
RECURSIVE OneByOne(_, _)
OneByOne(p, acc) == LET x == RdOne(RdInit, t, p) IN
  CASE x[1] = "ok" -> OneByOne(x[3], Append(acc, x[2]))
    [] OTHER -> <<acc, x[1]>>
Same == RdEnd(r) = "?" \/ OneByOne(1, <<>>) = Verdict
Told == Say
=============================================================================

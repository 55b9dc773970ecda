------------------------------- MODULE Lin --------------------------------
(* Global variables are shared by all the Worlds. Worlds which run at the same *)
(* time in goroutines of their own may interleave in any way, but what each of *)
(* them observes must be explained by one order of all the reads and writes    *)
(* which keeps the order of every World (sequential consistency). A behaviour  *)
(* of this specification is such an order; a recorded history is accepted when  *)
(* some behaviour takes every World to the end of its operations.              *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
\* Cases[p].init: the values at the beginning; Cases[p].worlds[w]: operations <<kind, register, value, observed>>
\* "set": (setq g v), observed is the value of the form
\* "get": observed is the value of g
\* "two": the registers are read one after the other
\* "push": (setq g (cons v g)): a read, then a write
\* "add": (setq g (+ g v))
VARIABLES pid, pos, reg, tmp
vars == <<pid, pos, reg, tmp>>

Nil == <<"s", "nil">>
None == <<"none">>
ConsExt(k, o) == IF o = Nil THEN <<"l", <<k>>, Nil>> ELSE <<"l", <<k>> \o o[2], Nil>>
Ops(w) == Cases[pid].worlds[w]
Worlds == 1..Len(Cases[pid].worlds)
More(w) == pos[w] <= Len(Ops(w))
Op(w) == Ops(w)[pos[w]]

Init == /\ pid \in 1..Len(Cases)
        /\ pos = [w \in 1..Len(Cases[pid].worlds) |-> 1]
        /\ tmp = [w \in 1..Len(Cases[pid].worlds) |-> None]
        /\ reg = Cases[pid].init
Done(w) == pos' = [pos EXCEPT ![w] = @ + 1]
Write(w, r, v) == reg' = [reg EXCEPT ![r] = v] /\ tmp' = [tmp EXCEPT ![w] = None] /\ Done(w)
Hold(w, v) == tmp' = [tmp EXCEPT ![w] = v] /\ UNCHANGED <<reg, pos>>
Step(w) ==
  LET o == Op(w)
      new == IF o[1] = "push" THEN ConsExt(o[3], tmp[w]) ELSE <<"i", tmp[w][2] + o[3][2]>> IN
  /\ More(w)
  /\ UNCHANGED pid
  /\ CASE o[1] = "set" -> o[4] = o[3] /\ Write(w, o[2], o[3])
       [] o[1] = "get" -> o[4] = reg[o[2]] /\ Done(w) /\ UNCHANGED <<reg, tmp>>
       [] o[1] = "two" -> IF tmp[w] = None THEN Hold(w, reg[1])
                          ELSE o[4] = <<"l", <<tmp[w], reg[2]>>, Nil>> /\ Done(w) /\ tmp' = [tmp EXCEPT ![w] = None] /\ UNCHANGED reg
       [] OTHER -> IF tmp[w] = None THEN Hold(w, reg[o[2]]) ELSE o[4] = new /\ Write(w, o[2], new)
Next == \E w \in Worlds : Step(w)
Spec == Init /\ [][Next]_vars

\* told when a behaviour explains the whole history
AllDone == \A w \in Worlds : ~More(w)
Told == AllDone => PrintT(ToJson(<<"ACC", Cases[pid].id>>))
\* a World holds a value only in the middle of an operation which reads and then writes or reads again
Middle == \A w \in Worlds : tmp[w] # None => More(w) /\ Op(w)[1] \in {"two", "push", "add"}
=============================================================================

------------------------------ MODULE Isolation ------------------------------
(* Several flows (users of instances of decoders, stores and estimators) run  *)
(* in one process; a schedule interleaves their operations.  An instance's    *)
(* outcome is a function of the operations on that instance alone: operation  *)
(* k of flow f has the outcome it has when f runs in a process of its own.    *)
EXTENDS Integers, Sequences, TLC
IStart(c) == [ref |-> [f \in 1..c.n |-> <<>>], at |-> [f \in 1..c.n |-> 0],
              whole |-> [f \in 1..c.n |-> FALSE]]
\* solo: operation of a flow alone in a fresh process
\* begin: a fresh process / new instances for every flow
\* step: operation of a flow in the interleaving, end: the flow is over
IDo(s, e) ==
  CASE e.op = "solo" -> [st |-> [s EXCEPT !.ref[e.f] = Append(@, e.out)], out |-> e.out]
    [] e.op = "begin" -> [st |-> [s EXCEPT !.at = [f \in DOMAIN @ |-> 0]], out |-> <<>>]
    [] e.op = "step" ->
         LET k == s.at[e.f] + 1 IN
         [st |-> [s EXCEPT !.at[e.f] = k],
          out |-> IF k <= Len(s.ref[e.f]) THEN s.ref[e.f][k] ELSE [none |-> TRUE]]
    [] e.op = "end" -> [st |-> s, out |-> [n |-> Len(s.ref[e.f])]]
ISets == {}
IInv(s) == \A f \in DOMAIN s.at : s.at[f] >= 0
==============================================================================

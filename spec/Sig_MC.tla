-------------------------------- MODULE Sig_MC -------------------------------
(* All satellites, all numbers, all observation codes: names and codes are    *)
(* distinct.  The state walks through every satellite and code once.          *)
EXTENDS Sig
Attrs == {"A","B","C","D","E","I","L","M","N","P","Q","S","W","X","Y","Z"}
Order == SetToSortSeq(Sats, LAMBDA a, b : a[1]*1000 + a[2] < b[1]*1000 + b[2])
MSt(c) == [i |-> 0, names |-> {}, codes |-> {}]
MCEv(s) == IF s.i < NSat THEN {[op |-> "n"]} ELSE IF s.i = NSat THEN {[op |-> "c", s |-> k] : k \in 1..7} ELSE {}
MCDo(s, e) ==
  [st |-> IF e.op = "n"
          THEN [s EXCEPT !.i = @ + 1, !.names = @ \cup {Name(Order[s.i + 1][1], Order[s.i + 1][2])}]
          ELSE [s EXCEPT !.i = NSat + e.s,
                 !.codes = {<<ty, b, a>> \in {"C", "L", "D", "S"} \X (1..9) \X Attrs : Valid(e.s, b, a)}]]
Ok(s) ==
  /\ Cardinality(s.names) = IF s.i < NSat THEN s.i ELSE NSat
  /\ Cardinality({Code(x[1], x[2], x[3]) : x \in s.codes}) = Cardinality(s.codes)
  /\ s.i > NSat => \A b \in DOMAIN Bands[s.i - NSat] : Bands[s.i - NSat][b].a \subseteq Attrs
MCCf == {[x |-> 0]}
MCBnd(s) == TRUE
StepP(s, e, t) == TRUE
VARIABLES xcfg, xs
INSTANCE Explore WITH Start <- MSt, Do <- MCDo, Inv <- Ok,
  MCCfgs <- MCCf, MCEvents <- MCEv, MCBound <- MCBnd, StepInv <- StepP
==============================================================================

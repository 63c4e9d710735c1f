------------------------------ MODULE CSSR_Trace -----------------------------
(* Binding of CSSR to traces recorded from the implementation.               *)
EXTENDS CSSR, TraceIO

CDo(st, e) ==
  CASE e.op = "buffer" ->
         LET r == Buffer(st, e.msgs) IN
         [st |-> r.st,
          out |-> ObsGlobal(r.st) @@ [ret |-> IF r.go THEN -1 ELSE 0]]
    [] e.op = "atm" ->
         LET r == Buffer(st, e.msgs) IN
         [st |-> r.st, out |-> ObsAtm(r.st, e.net)]
    [] e.op = "stat" ->
         [st |-> st, out |-> [ok |-> IF Complete(st, e.net, e.lp = 1) THEN 1 ELSE 0]]
    [] e.op = "valid" ->
         LET x == Expire(st, e.t) IN [st |-> x, out |-> ObsGlobal(x)]

CSets == GlobalSets \cup {"ci", "dst", "sq"}
CInv(st) == TRUE
==============================================================================

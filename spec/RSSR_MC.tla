------------------------------- MODULE RSSR_MC -------------------------------
(* Two constellations, two epochs: orbit, clock, combined and code-bias      *)
(* messages in any order.  The value of satellite s at epoch t is V(t, s).   *)
EXTENDS RSSR, IOUtils
V(t, s) == 1000 * t + (s % 1000) + 100 * (s \div 1000)
G == {1013, 1007}
E == {3002}
Rows(sys) == IF sys = 1 THEN <<1013, 1007>> ELSE <<3002>>
O(t, sys) == [i \in DOMAIN Rows(sys) |->
   <<Rows(sys)[i], t, V(t, Rows(sys)[i]), 2, 3, 4, 5, 6>>]
C(t, sys) == [i \in DOMAIN Rows(sys) |-> <<Rows(sys)[i], V(t, Rows(sys)[i]), 1, -1>>]
B(t, sys) == [i \in DOMAIN Rows(sys) |->
   [s |-> Rows(sys)[i], y |-> 0, dy |-> 0, g |-> <<<<2, V(t, Rows(sys)[i]), 0, 0, -1>>>>]]
Ev(k, t, sys) == [op |-> "ssr", k |-> k, sys |-> sys, t |-> 30 * t, iod |-> t,
   via |-> "rtcm", orows |-> IF k \in {"orb", "comb"} THEN O(t, sys) ELSE <<>>,
   crows |-> IF k \in {"clk", "comb"} THEN C(t, sys) ELSE <<>>,
   sats |-> IF k = "cb" THEN B(t, sys) ELSE <<>>, yaw |-> 0]
MCEv(s) == {Ev(k, t, sys) : k \in {"orb", "clk", "comb", "cb"}, t \in {1, 2},
                             sys \in {1, 3}}
MCDo(s, e) == [st |-> Ssr(s, e)]
MCCf == {[x |-> 0]}
MCBnd(s) == TRUE
RightSat(s) ==
  /\ RInv(s)
  /\ \A x \in s.orb : x[3] = V(x[2], x[1])
     /\ <<x[1], "orb", 30 * x[2]>> \in s.t0
  /\ \A x \in s.clk : \E t \in {1, 2} : x[2] = V(t, x[1]) /\ <<x[1], "clk", 30*t>> \in s.t0
\* a message of an epoch leaves the other satellites of that epoch alone
StepP(s, e, n) ==
  /\ e.k # "clk" /\ e.k # "comb" => n.clk = s.clk
  /\ e.k \in {"clk", "comb"} /\ s.T["clk"] = e.t =>
       \A x \in s.clk : x[1] \div 1000 # e.sys => x \in n.clk
  /\ \A i \in 1..Len(e.orows) : OrbRow(e.orows[i]) \in n.orb
  /\ \A i \in 1..Len(e.crows) : ClkRow(e.crows[i]) \in n.clk
VARIABLES xcfg, xs
INSTANCE Explore WITH Start <- RStart, Do <- MCDo, Inv <- RightSat,
  MCCfgs <- MCCf, MCEvents <- MCEv, MCBound <- MCBnd, StepInv <- StepP
==============================================================================

------------------------------ MODULE RawNav_MC -------------------------------
(* The assembly rules on small data: two issues (data sets) from one or two  *)
(* satellites, parts in any order with any loss or repetition.  The field    *)
(* x<p> of part p tells satellite and issue, so an emitted ephemeris shows   *)
(* where its parts come from.                                                *)
EXTENDS RawNav, IOUtils
V(s, i) == 10 * s + i
F(m, s, i, p) ==
  CASE m = "inav" -> (("x" \o ToString(p)) :> V(s, i)) @@ [iod |-> i] @@
          IF p = 5 THEN [wn |-> 0, tow |-> 0] ELSE [svid |-> s, toe |-> 0, toc |-> 0]
    [] m = "lnav" -> (("x" \o ToString(p)) :> V(s, i)) @@
          (IF p = 1 THEN [iodc |-> i + 256, tow |-> 0, wn |-> 0, toc |-> 0]
           ELSE [iode |-> i, toe |-> 0])
    [] m = "cnav" -> (("x" \o ToString(p)) :> V(s, i)) @@
          (CASE p = 1 -> [toe |-> i, tow |-> 0, wn |-> 0]
             [] p = 2 -> [toe |-> i]
             [] p = 3 -> [toc |-> i, mt |-> 30, top |-> 0, wnop |-> 0])
    \* issue i is broadcast in frame i
    [] m = "d1" -> (("x" \o ToString(p)) :> V(s, i)) @@
          (CASE p = 1 -> [sow |-> 30 * i, wn |-> 0, toc |-> 0]
             [] p = 2 -> [sow |-> 30 * i + 6, toeh |-> 0]
             [] p = 3 -> [sow |-> 30 * i + 12, toel |-> 0])
Ps(m) == IF m = "inav" THEN 1..5 ELSE 1..3
\* states: the configuration and the specification's state
MCStart(c) == [c |-> c, S |-> RStart(c)]
MCEv(x) == {[op |-> "sub", m |-> x.c.m, s |-> 1000 + k, p |-> p, w |-> 0, t |-> 0,
             src |-> 0, f |-> F(x.c.m, k, i, p)] :
              k \in 1..x.c.n, i \in 1..x.c.k, p \in Ps(x.c.m)}
MCDo(x, e) == [st |-> [x EXCEPT !.S = RNext(x.S, e)]]
MCCf == {[m |-> "inav", n |-> 1, k |-> 3], [m |-> "lnav", n |-> 2, k |-> 2],
         [m |-> "cnav", n |-> 2, k |-> 2], [m |-> "d1", n |-> 2, k |-> 2]}
MCBnd(x) == TRUE
\* an ephemeris consists of the parts of one issue of the satellite it names
StepP(x, e, n) ==
  LET r == Emitted(Parts(n.S, e.m, e.s), e)
      ps == IF e.m = "inav" THEN 1..4 ELSE Ps(e.m)  \* word 5 has no issue
  IN  r.ok = 1 => \E i \in 1..x.c.k :
        \A p \in ps : r.f["x" \o ToString(p)] = V(e.s - 1000, i)
VInv(x) == RInv(x.S) /\ \A y \in x.S : \A p \in DOMAIN y[3] :
   y[3][p]["x" \o ToString(p)] \div 10 = y[2] - 1000
VARIABLES xcfg, xs
INSTANCE Explore WITH Start <- MCStart, Do <- MCDo, Inv <- VInv,
  MCCfgs <- MCCf, MCEvents <- MCEv, MCBound <- MCBnd, StepInv <- StepP
==============================================================================

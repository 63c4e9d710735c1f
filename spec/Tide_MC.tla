------------------------------- MODULE Tide_MC -------------------------------
(* Stations and bodies in many directions: the tide of one body is the same  *)
(* for turns of both about the axis, a body on the other side of the earth   *)
(* raises nearly the same tide, and a body overhead lifts the station.       *)
EXTENDS Tide
Z == [lat |-> <<10000, 0>>, lon |-> <<10000, 0>>, k2 |-> 0, rr |-> 0]
Lats == {<<10000, 0>>, <<8000, 6000>>, <<6000, -8000>>, <<0, 10000>>, <<2800, 9600>>}
Lons == {<<10000, 0>>, <<0, 10000>>, <<-10000, 0>>, <<-6000, 8000>>, <<2800, -9600>>}
Ev1 == {[op |-> "tide", lat |-> p, lon |-> l, perm |-> b, gmst |-> g, sun |-> Z,
         moon |-> [lat |-> q, lon |-> m, k2 |-> 35800, rr |-> 166]] :
          p \in Lats, l \in Lons, q \in {<<10000, 0>>, <<9600, 2800>>, <<9600, -2800>>},
          m \in Lons, b \in BOOLEAN, g \in {<<10000, 0>>, <<0, 10000>>}}
MCEv(s) == Ev1
MCCf == {[x |-> 0]}
MCStart(c) == [n |-> 0]
MCDo(s, e) == [st |-> [s EXCEPT !.n = 1]]
MCBnd(s) == s.n < 1
T(d) == <<-d[2], d[1]>>              \* a quarter turn
Neg(d) == <<-d[1], -d[2]>>
StepP(s, e, n) ==
  LET d == Disp(e)
      r == Disp([e EXCEPT !.lon = T(@), !.moon.lon = T(@),
                          !.gmst = <<e.gmst[2], -e.gmst[1]>>])
      o == Disp([e EXCEPT !.moon.lon = Neg(@), !.moon.lat = <<@[1], -@[2]>>])
      u == Unit(e.lat, e.lon)
  IN /\ Abs(r[1] + d[2]) <= 12 /\ Abs(r[2] - d[1]) <= 12 /\ Abs(r[3] - d[3]) <= 12
     /\ \A k \in 1..3 : Abs(o[k] - d[k]) <= 400
     /\ ~e.perm /\ e.moon.lat = e.lat /\ e.moon.lon = e.lon => Dot(d, u) > 15000
VARIABLES xcfg, xs
INSTANCE Explore WITH Start <- MCStart, Do <- MCDo, Inv <- TideInv,
  MCCfgs <- MCCf, MCEvents <- MCEv, MCBound <- MCBnd, StepInv <- StepP
==============================================================================

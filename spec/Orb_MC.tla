------------------------------- MODULE Orb_MC --------------------------------
(* All quarters of anomaly and perigee, eccentricities, inclinations, nodes  *)
(* and kinds of satellites, with and without harmonics: the position is at   *)
(* the distance of the orbit's radius and, of a circle, opposite after half  *)
(* a turn.                                                                   *)
EXTENDS Orb
Base == [op |-> "kep", sat |-> 1005, sqa |-> 5150, ecc |-> 0, k |-> 0, w |-> 0, mode |-> 0,
  adot |-> 50, crc |-> 0, crs |-> 0, cuc |-> 0, cus |-> 0, cic |-> 0, cis |-> 0, idot |-> 0,
  dt |-> 0, inc |-> <<2800, 9600>>, node |-> <<10000, 0>>, geo |-> FALSE,
  rot |-> <<10000, 0>>, af0 |-> 0, af1 |-> 0, af2 |-> 0, q |-> 0, odot |-> 0, toe |-> 7200,
  deln |-> 30, delnd |-> 10]
Hs == {<<0, 0, 0, 0, 0, 0, 0, 0>>, <<5000, 0, 9000, 0, 8000, 0, 0, 0>>,
       <<0, -4000, 0, 7000, 0, -6000, 900, 3600>>}
Set(e, h) == [e EXCEPT !.crc = h[1], !.crs = h[2], !.cuc = h[3], !.cus = h[4],
                       !.cic = h[5], !.cis = h[6], !.idot = h[7], !.dt = h[8]]
Kep == {Set([Base EXCEPT !.ecc = x, !.k = k, !.w = w, !.inc = i, !.node = o, !.sat = y,
                         !.geo = (y = 4003), !.mode = m], h) :
          x \in {0, 28}, k \in 0..3, w \in 0..3, h \in Hs, m \in {0, 1},
          i \in {<<10000, 0>>, <<2800, 9600>>, <<0, 10000>>}, o \in {<<10000, 0>>, <<-2800, 9600>>},
          y \in {1005, 3011, 4003, 4020}}
MCEv(s) == Kep
MCCf == {[x |-> 0]}
MCStart(c) == OrbStart(c) @@ [n |-> 0]
MCDo(s, e) == [st |-> [s EXCEPT !.n = 1]]
MCBnd(s) == s.n < 1
Km(x) == Rnd(x, 100000)
Sq(p) == (Km(p[1]) * Km(p[1])) + (Km(p[2]) * Km(p[2])) + (Km(p[3]) * Km(p[3]))
StepP(s, e, n) ==
  LET p == Pos(e)
      r == Km(Mul(10 * e.sqa * e.sqa, Nue(e)))
      o == Pos([e EXCEPT !.k = (@ + 2) % 4])
  IN /\ Abs(Sq(p) - (r * r)) <= 6 * r
     /\ e.ecc = 0 => \A k \in 1..3 : Abs(p[k] + o[k]) <= 20000
     /\ Near3(Pos([e EXCEPT !.w = (@ + 2) % 4, !.k = (@ + 2) % 4]), p, 3) \/ e.ecc # 0
VARIABLES xcfg, xs
INSTANCE Explore WITH Start <- MCStart, Do <- MCDo, Inv <- OrbInv,
  MCCfgs <- MCCf, MCEvents <- MCEv, MCBound <- MCBnd, StepInv <- StepP
==============================================================================

------------------------------- MODULE Sta_MC --------------------------------
(* The store under all orders of messages of three families: station,        *)
(* network residuals, regional atmosphere (two grids, two constellations,    *)
(* polynomials and/or residuals).  A message changes nothing else than what  *)
(* it is about, and what it is about does not depend on what came before.    *)
EXTENDS Sta
P(a) == <<<<a, 1>>, <<-a, 9999>>, <<0, a>>>>
StaEv == {[op |-> "msg", mode |-> m, mt |-> mt,
           f |-> [ref |-> r, pos |-> P(r), non |-> r % 2, h |-> 10 * r, np |-> r + 5,
                  desc |-> <<65, r>>, setup |-> r, ser |-> <<66, r>>, rtyp |-> <<r>>,
                  fw |-> <<>>, rser |-> <<255>>,
                  mask |-> <<1, r % 2, 0, 1>>, b |-> <<r, -r, 7, 8>>]] :
          m \in {"full", "scan", "skip"}, mt \in StaMsgs, r \in {1, 2}}
NetEv == {[op |-> "msg", mode |-> "full", mt |-> y[1],
           f |-> [ref |-> 1, r |-> [k \in DOMAIN q |-> <<y[2] * 1000 + q[k], v, 1, 2, 3, 4>>]]] :
          y \in {<<1030, 1>>, <<1304, 3>>}, q \in {<<>>, <<1>>, <<2>>, <<1, 2>>}, v \in {5, 6}}
AtmT == {[op |-> "msg", mode |-> "full", mt |-> 95,
          f |-> [gid |-> g, rmi |-> r, map |-> <<v, 2, 3, 4, 5, 6>>, ct |-> <<1, 2, 3, 4, 5, -4096>>,
                 ofst |-> 1, n |-> 4, m |-> 0, rh |-> <<v>>, rw |-> <<0>>]] :
         g \in {3}, r \in {0, 1}, v \in {1}}
AtmI == {[op |-> "msg", mode |-> "full", mt |-> y[1],
          f |-> [gid |-> g, pmi |-> pr[1], pgi |-> 0, rmi |-> pr[2], ofst |-> 0, ng |-> 1,
                 rlen |-> 6, sf |-> 2, c |-> [k \in DOMAIN q |-> <<y[2] * 1000 + q[k], 4, 0, 0>>],
                 r |-> [k \in DOMAIN q |-> <<y[2] * 1000 + q[k], <<-3>>>>]]] :
         y \in {<<96, 1>>, <<97, 2>>}, g \in {3, 40}, pr \in {<<1, 0>>, <<0, 1>>, <<1, 1>>},
         q \in {<<1>>, <<2>>}}
MCEv(s) == CASE s.fam = "sta" -> StaEv [] s.fam = "net" -> NetEv
             [] s.fam = "atm" -> AtmT \cup AtmI
MCStart(c) == Start0 @@ [fam |-> c.fam]
MCCf == {[fam |-> x] : x \in {"sta", "net", "atm"}}
MCBnd(s) == /\ Cardinality(s.ion) + Cardinality(s.rsd) < 4
            /\ s.fam # "sta" \/ Cardinality({k \in {"pos", "desc", "glo"} : s[k] # Start0[k]}) < 3
About(e) == CASE e.mt \in {1005, 1006, 1032} -> {"pos", "ref", "non", "h", "np"}
              [] e.mt \in {1007, 1008, 1033} -> {"ref", "desc", "setup", "ser", "rtyp", "fw", "rser"}
              [] e.mt = 1230 -> {"ref", "glo"}
              [] e.mt \in ResMsgs -> {"ref", "res"}
              [] e.mt = 95 -> {"trop"}
              [] e.mt \in 96..100 -> {"ion", "rsd"}
StepP(s, e, n) ==
  /\ e.mode = "skip" => n = s
  /\ \A k \in DOMAIN s \ About(e) : n[k] = s[k]
  /\ e.mt \in ResMsgs =>
       \A x \in s.res : x[1] \notin {e.f.r[k][1] : k \in DOMAIN e.f.r} => x \in n.res
  /\ e.mt \in 96..100 =>
       /\ \A x \in s.ion : (x[1] # e.f.gid \/ SatSys(x[2]) # SysOf[e.mt]) => x \in n.ion
       /\ \A x \in s.rsd : (x[1] # e.f.gid \/ SatSys(x[2]) # SysOf[e.mt]) => x \in n.rsd
       /\ e.f.pmi = 1 => {x[2] : x \in {y \in n.ion : y[1] = e.f.gid /\ SatSys(y[2]) = SysOf[e.mt]}}
                         = {e.f.c[k][1] : k \in DOMAIN e.f.c}
MCInvariant(s) == StaInv(s)
VARIABLES xcfg, xs
INSTANCE Explore WITH Start <- MCStart, Do <- StaDo, Inv <- MCInvariant,
  MCCfgs <- MCCf, MCEvents <- MCEv, MCBound <- MCBnd, StepInv <- StepP
==============================================================================

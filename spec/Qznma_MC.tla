----------------------------- MODULE Qznma_MC --------------------------------
(* A QZSS satellite whose pieces of two RDSs (the second forged) come in any *)
(* order, with genuine and altered parts in any slot; an attacker replays    *)
(* and alters messages of GPS and Galileo.                                   *)
EXTENDS Qznma, IOUtils
Msg(c) == <<<<c, 6>>, <<c, 12>>, <<c, 18>>>>
RdsT == <<[kid |-> 1, sk |-> 1, bad |-> FALSE, m |-> Msg(1)],
          [kid |-> 1, sk |-> 7, bad |-> FALSE, m |-> Msg(2)]>>
PieceE(p, id, t) == [op |-> "piece", sat |-> 5193, part |-> p, id |-> id, tow |-> t]
PartE(c, t) == [op |-> "part", sat |-> 5193, c |-> c, tow |-> t]
Rw(p, d, c) == <<1003, p, d, c>>
LoadE(c) == [op |-> "load", mt |-> 1, rows |-> <<Rw(1, 9, c), Rw(2, 9, c), Rw(3, 9, c)>>]
LoadM == [op |-> "load", mt |-> 1, rows |-> <<Rw(1, 8, 1), Rw(2, 9, 1), Rw(3, 9, 1)>>]
LoadG == [op |-> "load", mt |-> 5, rows |-> [k \in 1..5 |-> <<3003, k, 9, 4>>]]
R0 == [sat |-> 1003, mt |-> 1, iod |-> 9, kid |-> 1, sk |-> 1, bad |-> FALSE, m |-> <<1, 1, 1>>]
RG == [R0 EXCEPT !.sat = 3003, !.mt = 5, !.m = <<4, 4, 4, 4, 4>>]
L6E(a, b) == [op |-> "l6", vendor |-> 3, rds |-> <<a, b>>]
Em == "EMIT" \in DOMAIN IOEnv /\ IOEnv.EMIT = "1"
GE == {LoadE(1), LoadE(2), LoadM, LoadG, L6E(R0, RG), L6E([R0 EXCEPT !.sk = 7], R0),
       L6E([R0 EXCEPT !.bad = TRUE], [R0 EXCEPT !.m = <<2, 2, 2>>, !.sk = 7]),
       [op |-> "l6", vendor |-> 2, rds |-> <<R0, RG>>]}
QE == {PieceE(p, i, t) : p \in 1..3, i \in 1..2, t \in {0, 12}} \cup
      {PartE(c, t) : c \in 1..2, t \in {6, 12, 18}}
QS == {PieceE(p, 1, 0) : p \in 1..3} \cup {PieceE(2, 2, 0), PieceE(3, 1, 12)} \cup
      {PartE(1, t) : t \in {6, 12, 18}} \cup {PartE(2, 12)}
MCEv(s) == IF s.cfg.g = 1 THEN GE ELSE IF Em THEN QS ELSE QE
MCDo(s, e) == [st |-> QDo(s, e).st]
MCCf == {[mode |-> 1, keys |-> <<1, 2>>, rds |-> RdsT, g |-> g] : g \in 0..1}
MCBnd(s) == \A r \in s.auth : r[3] < 3
Cnt(s, x) == {r \in s.auth : r[1] = x}
StepP(s, e, n) ==
  \* authenticated only when genuinely signed, and just received
  /\ Cnt(n, 5193) # Cnt(s, 5193) =>
       /\ e.op = "part"
       /\ LET v == n.q[5193] IN <<v.buf[1], v.buf[2], v.buf[3]>> = Msg(1)
  /\ Cnt(n, 1003) # Cnt(s, 1003) =>
       e.op = "l6" /\ <<1003, 1, 9, 1, 1, 1>> \in s.store
  \* a stored message is not replaced
  /\ s.store \subseteq n.store
VARIABLES xcfg, xs
INSTANCE Explore WITH Start <- QStart, Do <- MCDo, Inv <- QInv,
  MCCfgs <- MCCf, MCEvents <- MCEv, MCBound <- MCBnd, StepInv <- StepP
==============================================================================

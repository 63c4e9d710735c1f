------------------------------ MODULE Dfmc_MC --------------------------------
(* Two masks that share satellites at different places, integrity messages   *)
(* of both issues, corrections, ephemeris parts of two issues, expiry.  A    *)
(* correction of satellite x carries V(x); absolute integrity values are     *)
(* V(x) % 14; the corresponding ones of part I and II carry the issue.       *)
EXTENDS Dfmc, IOUtils
Slots(m) == IF m = 1 THEN <<3, 75>> ELSE <<3, 40, 75>>
V(x) == (x % 1000) + 10 * (x \div 1000)
Sat(m, p) == IF p \in 1..Len(Slots(m)) THEN Slot(Slots(m)[p]) ELSE 7001
T == 36000
Seqn(n, F(_)) == [i \in 1..n |-> F(i)]
E0 == <<1, 2, 3, 4, -5, 6, -7, 8, -9, 10>>
MaskE(m) == [op |-> "mask", iodm |-> m, slots |-> Slots(m), t |-> T]
CorrE(k, q) == [op |-> "corr", slot |-> k, iodn |-> 9, t |-> T, t0 |-> 2251 + q,
   v |-> <<V(Slot(k)), 1, 2, 3, 4, 5, 6, 7>>, scale |-> 4, e |-> E0,
   dfrei |-> V(Slot(k)) % 14, rc |-> 3]
I34(m, c) == [op |-> "int34", iodm |-> m, t |-> T,
   ci |-> Seqn(92, LAMBDA p : IF p > 2 THEN 0 ELSE c),
   di |-> Seqn(7, LAMBDA p : V(Sat(m, p)) % 14)]
I35(m) == [op |-> "int35", mt |-> 35, iodm |-> m, t |-> T,
   d |-> Seqn(53, LAMBDA p : V(Sat(m, p)) % 14)]
Eph1E(g) == [op |-> "eph1", sd |-> 3 + g, iodg |-> g, t |-> T,
   v |-> <<g, 1, 2, 0, 3, 0, 4, 0, 5, 6, 7>>]
Eph2E(g) == [op |-> "eph2", iodg |-> g, t |-> T, te |-> 2250, dfrei |-> 5, rc |-> 2,
   scale |-> 2, e |-> E0, v |-> <<0, g, 0, 2, 0, 3>>]
ChkE == [op |-> "chk", t |-> T + 131]
MCAll == {MaskE(m) : m \in 1..2} \cup {CorrE(k, 0) : k \in {3, 75}} \cup {CorrE(3, 1)}
   \cup {CorrE(112, 0)}
   \cup {I34(m, c) : m \in 1..2, c \in 1..3} \cup {I35(m) : m \in 1..2}
   \cup {Eph1E(g) : g \in 1..2} \cup {Eph2E(g) : g \in 1..2} \cup {ChkE}
Em == "EMIT" \in DOMAIN IOEnv /\ IOEnv.EMIT = "1"
MCSub == {MaskE(m) : m \in 1..2} \cup {CorrE(3, 0), CorrE(112, 0)}
   \cup {I34(m, c) : m \in 1..2, c \in {1, 3}} \cup {I34(1, 2)} \cup {I35(2)}
   \cup {Eph1E(1), Eph1E(2), Eph2E(2), ChkE}
MCEv(s) == IF s.k = "PVS" THEN {CorrE(k, q) : k \in {3, 75, 112}, q \in 0..1} \cup {ChkE}
           ELSE IF Em THEN MCSub ELSE MCAll
MCDo(s, e) == [st |-> DNext(s, e)]
MCCf == {[k |-> "L5"], [k |-> "PVS"]}
MCBnd(s) == TRUE
Right(s) ==
  /\ DInv(s)
  /\ \A x \in s.corr : x[3] = 0 - V(x[1])
  /\ s.eph2 # <<>> => s.eph2[2] = s.eph[2]
StepP(s, e, n) ==
  /\ e.op \in {"int34", "int35"} /\ e.iodm # s.iod => n = s
  /\ e.op \in {"int34", "int35"} => [n EXCEPT !.dfrei = s.dfrei] = s
  \* "do not use" is only ended by an explicit value
  /\ e.op = "int34" => \A x \in s.dfrei : x[2] = 15 =>
        (x \in n.dfrei \/ \E i \in DOMAIN e.ci : e.ci[i] = 1)
  /\ e.op = "mask" => n.corr = s.corr /\ n.dfrei = s.dfrei
  /\ e.op = "eph2" /\ e.iodg # s.iodg => n = s
VARIABLES xcfg, xs
INSTANCE Explore WITH Start <- DStart, Do <- MCDo, Inv <- Right,
  MCCfgs <- MCCf, MCEvents <- MCEv, MCBound <- MCBnd, StepInv <- StepP
==============================================================================

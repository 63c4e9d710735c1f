------------------------------ MODULE Slas_MC --------------------------------
(* Two masks that share satellites at different places, one with a reserved  *)
(* slot; two stations; the correction of a satellite of a mask is V(sat), so *)
(* any mix of masks, places or issues shows.                                 *)
EXTENDS Slas, IOUtils
Slots(m) == IF m = 1 THEN <<2, 66>> ELSE <<2, 40, 66, 110>>
V(x) == (x % 1000) + (x \div 1000)
Io(x, d) == (x % 100) + 10 * d
Sat(m, p) == IF p \in 1..Len(Slots(m)) THEN Slot(Slots(m)[p]) ELSE 0
MaskE(m) == [op |-> "mask", iodp |-> m, slots |-> Slots(m), t |-> 0]
IodE(m, d) == [op |-> "iod", iodp |-> m, iodi |-> d, t |-> 0,
  places |-> IF d = 1 THEN <<1, 2, 3>> ELSE <<2>>,
  v |-> IF d = 1 THEN [p \in 1..3 |-> Io(Sat(m, p), d)] ELSE <<Io(Sat(m, 2), d)>>]
CorrE(c, m, d, h, T) == [op |-> "corr", iodp |-> m, iodi |-> d, code |-> c, h |-> h,
  t |-> T, places |-> <<1, 2, 3, 4>>, v |-> [p \in 1..4 |-> V(Sat(m, p))]]
LocE(c) == [op |-> "loc", t |-> 0, rows |-> <<<<63, 1, 1, 1>>, <<c, 8630, 5250, 3>>,
  <<63, 1, 1, 1>>, <<63, 1, 1, 1>>, <<63, 1, 1, 1>>>>]
UseE(c, T) == [op |-> "use", t |-> T, lat |-> IF c = 0 THEN 8620 ELSE 7600,
  lon |-> 5248, cosl |-> 770]
Em == "EMIT" \in DOMAIN IOEnv /\ IOEnv.EMIT = "1"
MCAll == {MaskE(m) : m \in 1..2} \cup {IodE(m, d) : m \in 1..2, d \in 1..2}
  \cup {CorrE(c, m, 1, 0, T) : c \in {0, 1}, m \in 1..2, T \in {0, 60}}
  \cup {CorrE(0, 1, 1, 1, 0), CorrE(1, 1, 2, 0, 0), CorrE(0, 2, 2, 0, 0)}
  \cup {UseE(c, T) : c \in {0, 1}, T \in {60, 150}} \cup {LocE(40)}
MCSub == {MaskE(m) : m \in 1..2} \cup {IodE(1, 1), IodE(2, 1), IodE(2, 2)}
  \cup {CorrE(0, 1, 1, 0, 0), CorrE(1, 1, 1, 0, 60), CorrE(0, 2, 1, 0, 0)}
  \cup {CorrE(0, 1, 1, 1, 0), CorrE(0, 2, 2, 0, 0)}
  \cup {UseE(0, 60), UseE(1, 150), LocE(40)}
MCEv(s) == IF Em THEN MCSub ELSE MCAll
MCDo(s, e) == [st |-> SlNext(s, e)]
MCCf == {[x |-> 0]}
MCBnd(s) == TRUE
Right(s) ==
  /\ SlInv(s)
  /\ \A x \in s.net : x[4] = V(x[2]) /\ x[3] \in {Io(x[2], 1), Io(x[2], 2)}
StepP(s, e, n) ==
  /\ e.op = "iod" /\ e.iodp # s.iodp => n = s
  /\ e.op = "corr" /\ e.h = 0 /\ (e.iodp # s.iodp \/ e.iodi # s.iodi) => n = s
  /\ e.op = "corr" => Others(n, e.code) = Others(s, e.code)
  /\ e.op = "corr" /\ e.h = 1 => ~(\E x \in n.net : x[1] = e.code)
  /\ e.op = "mask" /\ e.iodp = s.iodp => n = s
  /\ e.op = "use" /\ s.iodp >= 0 =>
       \A x \in Usable(s, e) : \E y \in s.net :
          y[1] = Near(s, e) /\ x = SubSeq(y, 2, 5) /\ e.t - y[5] <= Tmax
VARIABLES xcfg, xs
INSTANCE Explore WITH Start <- SlStart, Do <- MCDo, Inv <- Right,
  MCCfgs <- MCCf, MCEvents <- MCEv, MCBound <- MCBnd, StepInv <- StepP
==============================================================================

------------------------------- MODULE Std_MC --------------------------------
(* Carrier smoothing: all sequences of values with gaps, slips and missing   *)
(* values of one satellite.  The smoothed value stays between the extreme    *)
(* deviations of code from phase since the last start, and is the mean of    *)
(* them until the window is full.                                            *)
EXTENDS Std
NS == 4
MCCf == {[smooth |-> 1, rmode |-> 0]}
MCStart(c) == [sm |-> {}, t |-> 0, h |-> <<>>, k |-> 0]
\* deviation of the code in mm, step of the phase, time step
MCEv(s) == {[op |-> "sm", sat |-> 1001, dev |-> d, dl |-> g, dt |-> w] :
              d \in {-900, 0, 1500}, g \in {0, 250, 20000}, w \in {1000, 2000}}
           \cup {[op |-> "sm", sat |-> 1001, dev |-> 0, dl |-> -1, dt |-> 1000]}
MCBnd(s) == s.k < 5
Ph(s) == LET m == Mem(s, 1001) IN IF m = <<>> THEN 5000 ELSE m[3]
\* the code moves with the geometry, the phase slips by 20 m
MCDo(s, e) ==
  LET base == IF s.h = <<>> THEN 5000 ELSE s.h[Len(s.h)][1]
      zero == e.dl = -1
      geo == IF e.dl = 20000 \/ zero THEN base ELSE base + e.dl
      ev == [op |-> "sm", sat |-> 1001, t |-> s.t + e.dt, ns |-> NS,
             p |-> IF zero THEN 0 ELSE geo + e.dev,
             l |-> IF zero THEN 0 ELSE Ph(s) + e.dl]
      m == Mem(s, 1001)
      n == SmNew(s, ev)
      anew == n # <<>> /\ n[1] = 2
  IN [st |-> [sm |-> IF n = <<>> THEN {} ELSE {<<1001, n>>}, t |-> s.t + e.dt, k |-> s.k + 1,
              h |-> IF zero THEN s.h
                    ELSE IF anew THEN <<<<geo, e.dev>>>> ELSE Append(s.h, <<geo, e.dev>>)]]
Devs(s) == {s.h[i][2] : i \in DOMAIN s.h}
SumD(s) == FoldLeft(LAMBDA a, x : a + x[2], 0, s.h)
Right(s) ==
  LET m == Mem(s, 1001)
  IN (m # <<>> /\ m[1] > 1) =>
       LET d == m[2] - 100 * s.h[Len(s.h)][1]
       IN /\ d >= 100 * Min(Devs(s)) - 10 /\ d <= 100 * Max(Devs(s)) + 10
          /\ Len(s.h) < NS => Abs(d - (100 * SumD(s)) \div Len(s.h)) <= 10
          /\ Len(s.h) < NS => m[1] = Len(s.h) + 1
StepP(s, e, n) == TRUE
VARIABLES xcfg, xs
INSTANCE Explore WITH Start <- MCStart, Do <- MCDo, Inv <- Right,
  MCCfgs <- MCCf, MCEvents <- MCEv, MCBound <- MCBnd, StepInv <- StepP
==============================================================================

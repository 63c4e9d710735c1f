-------------------------------- MODULE L6_MC --------------------------------
(* Starts, continuations, two facilities of two vendors, bad preambles.      *)
EXTENDS L6
M(pre, v, f, pt, sid, id) ==
  [pre |-> pre, vendor |-> v, fac |-> f, pt |-> pt, sid |-> sid, id |-> id]
MCEv(s) ==
  {[op |-> "l6", m |-> M(p, v, f, pt, sid, 1 + 2*f + sid)] :
     p \in {0, 1}, v \in {5, 2}, f \in {0, 1}, pt \in {0, 1}, sid \in {0, 1}}
MCDo(s, e) == [st |-> Recv(s, e.m).st]
MCCf == {[x |-> 0]}
MCBnd(s) == Len(s.buf) <= 2 /\ Len(s.prev) <= 2
\* a part is appended only to parts of its own facility, and only after a start
Own(id) == (id - 1) \div 2
MInv(st) == LInv(st)
StepP(s, e, t) ==
  /\ Len(t.buf) > Len(s.buf) => (s.n >= 0 \/ e.m.sid = 1)
  /\ (Len(t.buf) > Len(s.buf) /\ s.fac >= 0) => Facility(e.m) = s.fac
  /\ e.m.pre # 0 => t = s
VARIABLES xcfg, xs
INSTANCE Explore WITH Start <- LStart, Do <- MCDo, Inv <- MInv,
  MCCfgs <- MCCf, MCEvents <- MCEv, MCBound <- MCBnd, StepInv <- StepP
==============================================================================

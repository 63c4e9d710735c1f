------------------------------- MODULE EphF_MC -------------------------------
(* Up to three records out of all combinations of two satellites, two        *)
(* issues, two message types and four reference times, all requests.         *)
EXTENDS Eph
SS == {1003, 2007}
Toes == {0, 1800000, 3600000, 9001000}
MAdd(s) == IF Cardinality(s.recs) >= 2 THEN {} ELSE
  {[op |-> "add", r |-> [id |-> Cardinality(s.recs) + 1, sat |-> x, iode |-> i, toe |-> t, mode |-> m]] :
     x \in SS, i \in {0, 7}, t \in Toes, m \in {0, 1}}
MFind(s) == {[op |-> "find", sat |-> 1003, t |-> t, iode |-> i, mode |-> 0] :
     t \in {900000, 1800000, 9001000}, i \in {-1, 0, 7}}
   \cup {[op |-> "find", sat |-> 2007, t |-> 1800001, iode |-> -1, mode |-> 1]}
MCEv(s) == MAdd(s) \cup MFind(s)
MCDo(s, e) == [st |-> IF e.op = "add" THEN [recs |-> s.recs \cup {e.r}] ELSE s]
MCCf == {[x |-> 0]}
MCBnd(s) == TRUE
\* the property, stated over all records
Right(st) ==
  \A e \in MFind(st) :
    LET C == Candidates(st.recs, e.t, e.sat, e.iode, e.mode, 1000) IN
    /\ \A r \in C : r.sat = e.sat /\ r.mode = e.mode /\ (e.iode >= 0 => r.iode = e.iode)
    /\ \A r \in C, q \in st.recs :
         (e.iode < 0 /\ q.sat = e.sat /\ q.mode = e.mode) => Abs(e.t - r.toe) <= Abs(e.t - q.toe)
    /\ (C = {}) <=> ~ \E q \in st.recs : Fits(q, e.t, e.sat, e.iode, e.mode, 1000)
StepP(s, e, t) == s.recs \subseteq t.recs
VARIABLES xcfg, xs
INSTANCE Explore WITH Start <- FStart, Do <- MCDo, Inv <- Right,
  MCCfgs <- MCCf, MCEvents <- MCEv, MCBound <- MCBnd, StepInv <- StepP
==============================================================================

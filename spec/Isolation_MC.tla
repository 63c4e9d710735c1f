----------------------------- MODULE Isolation_MC -----------------------------
(* Schedules of two flows over a class of stateful objects: each flow creates *)
(* instances (new) and operates on its latest one (op).  The outcome of an    *)
(* operation is all an object can know: the operations it has seen.  What an  *)
(* operation can see in state shared by the instances (a class attribute, a   *)
(* default argument) is s.all; with share = TRUE outcomes depend on it.       *)
EXTENDS Integers, Sequences, TLC
CONSTANT SHARE
MCSt(c) == [own |-> <<<<>>, <<>>>>, cnt |-> <<0, 0>>, all |-> <<>>, outs |-> <<<<>>, <<>>>>,
            ref |-> <<<<>>, <<>>>>]
MCEv(s) == {[op |-> "new", f |-> f] : f \in {1, 2}} \cup {[op |-> "op", f |-> f] : f \in {1, 2}}
MCDo(s, e) ==
  IF e.op = "new"
  THEN [st |-> [s EXCEPT !.own[e.f] = <<>>, !.cnt[e.f] = 0]]
  ELSE LET k == s.cnt[e.f] + 1
           seen == IF SHARE THEN Append(s.all, k) ELSE Append(s.own[e.f], k)
       IN [st |-> [s EXCEPT !.own[e.f] = Append(@, k), !.cnt[e.f] = k,
                            !.all = IF SHARE THEN Append(@, k) ELSE @,
                            !.outs[e.f] = seen,
                            !.ref[e.f] = [i \in 1..k |-> i]]]
MCCf == {[x |-> 0]}
MCBnd(s) == \A f \in {1, 2} : s.cnt[f] <= 3
\* the last outcome of a flow is that of its own operations
MInv(s) == s.outs = s.ref
StepP(s, e, t) == t.outs[3 - e.f] = s.outs[3 - e.f] /\ t.own[3 - e.f] = s.own[3 - e.f]
VARIABLES xcfg, xs
INSTANCE Explore WITH Start <- MCSt, Do <- MCDo, Inv <- MInv,
  MCCfgs <- MCCf, MCEvents <- MCEv, MCBound <- MCBnd, StepInv <- StepP
==============================================================================

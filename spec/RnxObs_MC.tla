------------------------------ MODULE RnxObs_MC ------------------------------
(* Rover and base files of up to three records at distinct times 1..3, each  *)
(* an observation epoch or an event, read one by one or synchronised.        *)
EXTENDS RnxObs, IOUtils
T == 1..3
Files == {f \in [T -> {"no", "obs", "ev"}] : TRUE}
Rec(t, k) == [flag |-> IF k = "obs" THEN 0 ELSE 4, t |-> <<t * 30, 0>>,
              sats |-> IF k = "obs" THEN <<[s |-> 1005, f |-> <<<<20, t, 0>>, <<0, 0, 0>>>>],
                                           [s |-> 3007, f |-> <<<<21, t, 0>>>>]>>
                       ELSE <<>>]
RECURSIVE Seq1(_, _)
Seq1(f, t) == IF t > 3 THEN <<>> ELSE
  (IF f[t] = "no" THEN <<>> ELSE <<Rec(t, f[t])>>) \o Seq1(f, t + 1)
Hdr == <<<<1, <<"C1C", "L1C">>>>, <<3, <<"C1X">>>>>>
MCCf == {[hdr |-> Hdr, req |-> <<<<1, "C", <<"C1C">>>>, <<1, "L", <<"L1C">>>>>>,
          rov |-> Seq1(f, 1), base |-> Seq1(g, 1)] : f \in Files, g \in Files}
MCEv(s) == {[op |-> "next"], [op |-> "sync"]}
MCDo(s, e) == NDo(s, e)
MCBnd(s) == s.i < Len(s.rov)
\* nothing that could be paired is passed over, nothing unequal is paired
StepP(s, e, n) ==
  /\ n.i >= s.i /\ n.j >= s.j
  /\ e.op = "next" => \A k \in (s.i+1)..(n.i-1) : ~IsObs(s.rov[k])
  /\ e.op = "sync" /\ Sync(s).out.t # <<-1, 0>> => Same(Sync(s).out.t, Sync(s).out.tb)
  /\ e.op = "sync" => \A i \in (s.i+1)..Len(s.rov), j \in (s.j+1)..Len(s.base) :
       ~(IsObs(s.rov[i]) /\ IsObs(s.base[j]) /\ s.rov[i].t = s.base[j].t /\ i < n.i)
VARIABLES xcfg, xs
INSTANCE Explore WITH Start <- NStart, Do <- MCDo, Inv <- NInv,
  MCCfgs <- MCCf, MCEvents <- MCEv, MCBound <- MCBnd, StepInv <- StepP
==============================================================================

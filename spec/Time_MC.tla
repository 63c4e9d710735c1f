------------------------------- MODULE Time_MC -------------------------------
(* Every day from 1980-01-06 to 2099-12-31, one after the other: the closed   *)
(* forms of Time.tla agree with counting, at the first, middle and last       *)
(* instant of the day.                                                        *)
EXTENDS Time
MSt(c) == [y |-> 1980, m |-> 1, d |-> 6, n |-> 3657, w |-> 0, wd |-> 0, gw |-> -1024, bw |-> -1356]
MCEv(s) == IF s.y = 2099 /\ s.m = 12 /\ s.d = 31 THEN {} ELSE {[op |-> "day"]}
Next1(s) ==
  LET last == s.d = MLen(s.y, s.m)
      eoy == last /\ s.m = 12
      sat == s.wd = 6
  IN [y |-> IF eoy THEN s.y + 1 ELSE s.y,
      m |-> IF eoy THEN 1 ELSE IF last THEN s.m + 1 ELSE s.m,
      d |-> IF last THEN 1 ELSE s.d + 1, n |-> s.n + 1,
      w |-> IF sat THEN s.w + 1 ELSE s.w, wd |-> (s.wd + 1) % 7,
      gw |-> IF sat THEN s.gw + 1 ELSE s.gw, bw |-> IF sat THEN s.bw + 1 ELSE s.bw]
MCDo(s, e) == [st |-> Next1(s)]
Ms == {0, 1, 43200000, MSD - 1}
Agree(s) ==
  /\ DayNum(s.y, s.m, s.d) = s.n
  /\ Date(s.n) = <<s.y, s.m, s.d>>
  /\ \A k \in Ms :
       LET t == <<s.n, k>> IN
       /\ FromEpo(Epo(t)) = t
       /\ Week("gps", t) = s.w /\ Tow("gps", t) = s.wd*MSD + k
       /\ Week("gst", t) = s.gw /\ Week("bdt", t) = s.bw
       /\ \A q \in {"gps", "gst", "bdt"} : FromWeek(q, Week(q, t), Tow(q, t)) = t
       /\ ToUtc(FromUtc(t)) = t
       /\ LeapsG(FromUtc(t)) = LeapsU(t)
       /\ Adjust(t, t, 7) = t
       /\ \A j \in {-1, 1} : Adjust(Plus(t, 7*j, 0), t, 7) = t /\ TodTime(Plus(t, 0, 43000000*j), k) = t
MCCf == {[x |-> 0]}
MCBnd(s) == TRUE
StepP(s, e, t) == t.n = s.n + 1 /\ LeapsU(<<t.n, 0>>) - LeapsU(<<s.n, 0>>) \in {0, 1}
VARIABLES xcfg, xs
INSTANCE Explore WITH Start <- MSt, Do <- MCDo, Inv <- Agree,
  MCCfgs <- MCCf, MCEvents <- MCEv, MCBound <- MCBnd, StepInv <- StepP
==============================================================================

----------------------------- MODULE Precise_MC ------------------------------
(* Tables of 11 and 12 epochs in which up to two epochs lack the satellite's *)
(* position or clock, asked at, between, before and after the epochs; bias   *)
(* and antenna records with all kinds of overlapping validity.               *)
EXTENDS Precise, IOUtils
P1 == <<<<1, 1>>, <<2, 0>>, <<3, 0>>>>
Kinds == {"ok", "zero", "none", "noclk"}
RowK(k, i) == [s |-> 1005, p |-> IF k = "zero" THEN Zero ELSE IF k = "none" THEN NOPOS ELSE P1,
               k |-> 0, c |-> IF k \in {"none", "noclk"} THEN NA ELSE 900 * i,
               sx |-> 3, sc |-> 4, po |-> k = "pred", pc |-> FALSE]
Tab(n, a, ka, b, kb) ==
  [i \in 1..n |-> [t |-> i * 900000,
     rows |-> <<RowK(IF i = a THEN ka ELSE IF i = b THEN kb ELSE "ok", i)>>]]
Sp3Ev(n, a, ka, b, kb, opt) ==
  [op |-> "sp3", opt |-> opt, base |-> <<2, 2>>, lin |-> <<>>, acc |-> <<>>,
   eps |-> Tab(n, a, ka, b, kb)]
ClkEv(n, a) == [op |-> "clk", eps |-> [i \in 1..n |-> [t |-> i * 900000,
     rows |-> IF i = a THEN <<>> ELSE <<[s |-> 1005, c |-> 900 * i, sc |-> 1]>>]]]
Bias(ts, te, v) == [k |-> "OSB", s |-> 1005, site |-> "", g1 |-> "C1C", g2 |-> "",
                    ts |-> ts, te |-> te, v |-> v, sd |-> v]
Ts == {<<-1, 0>>, <<10, 0>>, <<10, 30>>}
AntM(ts, te, id) == [id |-> id, s |-> 1005, type |-> "BLOCK", ts |-> ts, te |-> te,
                     z |-> <<0, 10, 5>>, fr |-> <<<<1, 1, <<2, 4, 6>>, <<0, 2, 4>>>>>>]
MCCf == {[a |-> 0]}
MCEv(s) ==
  IF s = PStart(0)
  THEN {Sp3Ev(n, a, ka, b, kb, 0) : n \in {10, 11, 13}, a \in {1, 2, 7}, ka \in Kinds,
                                    b \in {8, 11}, kb \in Kinds}
       \cup {ClkEv(n, a) : n \in {1, 2, 4}, a \in 0..3}
       \cup {[op |-> "bia", site |-> "", rows |-> <<Bias(t1, t2, 1), Bias(t3, t4, 2)>>] :
              t1 \in Ts, t2 \in Ts, t3 \in Ts, t4 \in Ts}
       \cup {[op |-> "atx", only |-> o, ants |-> <<AntM(t1, t2, 1), AntM(t3, t4, 2)>>] :
              t1 \in Ts, t2 \in Ts, t3 \in Ts, t4 \in Ts, o \in BOOLEAN}
  ELSE IF s.orb # <<>> /\ s.clk = <<>> THEN
         {[op |-> "satq", s |-> 1005, t |-> q * 450000 + d, out |-> NOTHING] :
             q \in 0..30, d \in {-1, 0, 1}}
         \cup {ClkEv(4, 2)}
  ELSE IF s.orb # <<>> THEN {[op |-> "satq", s |-> 1005, t |-> q * 450000, out |-> NOTHING] :
             q \in 0..12}
  ELSE IF s.clk # <<>> THEN
         {[op |-> "clkq", s |-> 1005, t |-> q * 450000 + d, out |-> NOTHING] :
             q \in 0..11, d \in {-1, 0, 1}}
  ELSE IF s.osb # <<>> THEN
         {[op |-> "osbq", s |-> 1005, g |-> "C1C", t |-> t] :
             t \in {<<9, 5>>, <<10, 0>>, <<10, 29>>, <<10, 30>>, <<11, 0>>}}
  ELSE {[op |-> "find", s |-> 1005, type |-> "", t |-> t] :
             t \in {<<9, 5>>, <<10, 0>>, <<10, 29>>, <<10, 30>>, <<11, 0>>}}
MCDo(s, e) == PDo(s, e)
MCBnd(s) == TRUE
StepP(s, e, n) ==
  /\ e.op = "satq" => LET r == SatQ(s, e) IN
       r.out.ok =>
         /\ Len(s.orb) >= NWIN
         /\ e.t >= s.orb[1].t - MARGIN /\ e.t <= s.orb[Len(s.orb)].t + MARGIN
         \* the request is surrounded by valid epochs
         /\ \A i \in DOMAIN s.orb : (s.orb[i].t - e.t \in -900000..900000) =>
              PosAt(s.orb, i, 1005) # NOPOS
         /\ UseClk(s) => r.out.c # NA
  /\ e.op = "clkq" => LET r == ClkQ(s, e) IN
       (r.out.ok /\ \E i \in DOMAIN s.clk : s.clk[i].t = e.t) => r.out.c = e.t \div 1000
  /\ e.op = "osbq" => LET r == Osb(s, e).out.v IN
       IF r = NA THEN \A i \in DOMAIN s.osb : ~Valid(s.osb[i], e.t)
       ELSE \E i \in DOMAIN s.osb : s.osb[i].v = r /\ Valid(s.osb[i], e.t)
VARIABLES xcfg, xs
INSTANCE Explore WITH Start <- PStart, Do <- MCDo, Inv <- PInv,
  MCCfgs <- MCCf, MCEvents <- MCEv, MCBound <- MCBnd, StepInv <- StepP
==============================================================================

------------------------------- MODULE CSSRX_MC ------------------------------
(* Small instance for completeness, expiry and the per-network atmosphere:   *)
(* two satellites, two networks, ages on both sides of the validity limits.  *)
EXTENDS CSSR, IOUtils

Msk1 == [t |-> "MASK", iod |-> 1, udi |-> 0, tow |-> 3600, cma |-> 0,
         sats |-> << <<1001, <<"1C">> >>, <<3002, <<"1C">> >> >>]
Two == <<1001, 3002>>
H(t, d) == [t |-> t, iod |-> 1, udi |-> 0, dtow |-> d]
Orb(d) == H("ORB", d) @@ [orows |-> [k \in 1..2 |-> <<Two[k], 7, 1, 2, 3>>]]
Clk(d) == H("CLK", d) @@ [crows |-> [k \in 1..2 |-> <<Two[k], 5>>]]
CbM == H("CB", 0) @@ [cbrows |-> [k \in 1..2 |-> <<Two[k], "C1C", 4>>]]
PbM == H("BIAS", 0) @@ [cb |-> 0, pb |-> 1, net |-> 1, inet |-> 1, sub |-> <<1001>>,
                        cbrows |-> <<>>, pbrows |-> << <<1001, "L1C", 9, 0>> >>]
At(n, trop, stec) == H("ATM", 0) @@
  [inet |-> n, ng |-> 1, trop |-> trop, stec |-> stec, tq |-> <<1, 1>>, ttype |-> 0,
   tc |-> <<n, 0, 0, 0>>, tsz |-> 0, tof |-> 1, dtw |-> <<n>>, sats |-> <<3002>>,
   q |-> << <<3002, 1, 1>> >>, ci |-> << <<3002, n, 0, 0, 0, 0, 0, 0>> >>,
   dst |-> << <<3002, 0, <<n>> >> >>]
Msgs == {Msk1, CbM, PbM} \cup {Orb(d) : d \in {0, 60}} \cup {Clk(d) : d \in {0, 60}}
        \cup {At(1, 3, 3), At(2, 1, 0), At(2, 0, 2)}
Base == 200 * 604800 + 3600
Times == {Base + d : d \in {0, 30, 31, 121}}

MCEv(s) == {[op |-> "buffer", msgs |-> <<m>>] : m \in Msgs}
           \cup {[op |-> "valid", t |-> t] : t \in Times}
MCDo(s, e) == IF e.op = "buffer" THEN [st |-> Buffer(s, e.msgs).st]
              ELSE [st |-> Expire(s, e.t)]
MCCf == {[week |-> 2200, nets |-> <<0, 1, 2>>]}
MCBnd(s) == TRUE

\* a network holds only what was sent for it
OwnNet(st) == \A n \in {1, 2} :
  /\ \A r \in st.atm[n].ci : r[2] = n
  /\ \A r \in st.atm[n].dst : r[2][1] = n
\* complete => every ingredient is really there
CompleteMeans(st) == \A n \in {1, 2} : Complete(st, n, TRUE) =>
  /\ st.sats # <<>> /\ st.lc[0].orb # {} /\ st.lc[0].clk # {} /\ st.lc[0].cb # {}
  /\ st.lc[n].pb # {} /\ st.atm[n].sats # <<>>
MInv(st) == OwnNet(st) /\ CompleteMeans(st)

\* after the expiry check no correction in force is older than its limit, and
\* nothing younger was touched
StepP(s, e, t) == e.op = "valid" =>
  /\ \A r \in t.lc[0].clk : r[2] # 0 =>
       \E x \in Stamps(t, r[1], "clk") : e.t - x <= 30
  /\ \A r \in t.lc[0].orb : r[2] # -1 =>
       \E x \in Stamps(t, r[1], "orb") : e.t - x <= 120
  /\ \A r \in s.lc[0].clk :
       (\E x \in Stamps(s, r[1], "clk") : e.t - x <= 30) => r \in t.lc[0].clk
  /\ \A r \in s.lc[0].orb :
       (\E x \in Stamps(s, r[1], "orb") : e.t - x <= 120) => r \in t.lc[0].orb

VARIABLES xcfg, xs
INSTANCE Explore WITH Start <- CStart, Do <- MCDo, Inv <- MInv,
  MCCfgs <- MCCf, MCEvents <- MCEv, MCBound <- MCBnd, StepInv <- StepP
==============================================================================

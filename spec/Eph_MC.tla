-------------------------------- MODULE Eph_MC -------------------------------
(* Two satellites; masks, orbit sets and clock sets of up to three issues in  *)
(* any order.  The ghost fields og/cg remember the issue each satellite's     *)
(* values came with.                                                          *)
EXTENDS Eph
S1 == 1003
S2 == 3007
MaskSats(i) == <<{S1, S2}, {S1}, {S1, S2}>>[i + 1]
MSt(c) == AStart(c) @@ [og |-> <<>>, cg |-> <<>>]
Row(s, i) == <<s, i, 0, 10*i + 1, 2, IF s = S2 /\ i = 2 THEN NaN ELSE 3, 0, 0, 0>>
CRow(s, i) == <<s, 0, 100*i + 1, 0>>
Ord(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
MCEv(s) ==
  {[op |-> "mask", iod |-> i, sats |-> Ord(MaskSats(i))] : i \in {j \in 0..2 : j # s.cur}}
  \* a set is accepted only for the mask in force (P04)
  \cup (IF s.cur < 0 THEN {} ELSE
    {[op |-> "orb", iod |-> s.cur, t |-> 0, rows |-> [k \in 1..Len(Ord(s.sn)) |-> Row(Ord(s.sn)[k], s.cur)]],
     [op |-> "clk", iod |-> s.cur, t |-> 0, rows |-> [k \in 1..Len(Ord(s.sn)) |-> CRow(Ord(s.sn)[k], s.cur)]]})
  \cup {[op |-> "pos", t |-> 0, sats |-> <<S1, S2>>]}
MCDo(s, e) ==
  LET n == Upd(s, e) IN
  [st |-> CASE e.op = "orb" -> [n EXCEPT !.og = [x \in (DOMAIN @) \cup s.sn |-> IF x \in s.sn THEN e.iod ELSE @[x]]]
            [] e.op = "clk" -> [n EXCEPT !.cg = [x \in (DOMAIN @) \cup s.sn |-> IF x \in s.sn THEN e.iod ELSE @[x]]]
            [] OTHER -> n]
MCCf == {[kind |-> "CSSR"]}
MCBnd(s) == TRUE
\* a satellite that gets a correction has orbit and clock of the mask in force
\* or of the one before, and is in those masks; the value is that very one
Consistent(st) ==
  \A s \in {S1, S2} :
    Corr(st, s).ok =>
      /\ st.og[s] \in {st.cur, st.prev} /\ st.cg[s] \in {st.cur, st.prev}
      /\ s \in MaskSats(st.og[s]) /\ s \in MaskSats(st.cg[s])
      /\ Corr(st, s).o.d[1] = 10*st.og[s] + 1 /\ Corr(st, s).c[2] = 100*st.cg[s] + 1
StepP(s, e, t) == e.op = "pos" => t = s
VARIABLES xcfg, xs
INSTANCE Explore WITH Start <- MSt, Do <- MCDo, Inv <- Consistent,
  MCCfgs <- MCCf, MCEvents <- MCEv, MCBound <- MCBnd, StepInv <- StepP
==============================================================================

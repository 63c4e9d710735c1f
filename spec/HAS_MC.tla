-------------------------------- MODULE HAS_MC -------------------------------
(* Two masks over three satellites; blocks of either mask in any order.      *)
EXTENDS HAS
Masks == << << <<1001, <<"1C">> >>, <<3002, <<"1C", "5Q">> >> >>,
            << <<1001, <<"1C">> >>, <<3003, <<"1C">> >> >> >>
Sat(i) == SatIds(Masks[i])
Val(i, s) == 10 * i + (s % 10)
Base(i) == [toh |-> 600, mid |-> i, iod |-> i, mask |-> 0, orb |-> 0, clk |-> 0,
            sub |-> 0, cb |-> 0, pb |-> 0]
MM(i) == [Base(i) EXCEPT !.mask = 1] @@ [sats |-> Masks[i]]
OM(i) == [Base(i) EXCEPT !.orb = 1] @@
         [orows |-> [k \in 1..2 |-> <<Sat(i)[k], i, Val(i, Sat(i)[k]), 1, 2>>]]
CM(i) == [Base(i) EXCEPT !.clk = 1] @@
         [dcm |-> <<1, 2>>,
          crows |-> [k \in 1..2 |-> <<Sat(i)[k], Val(i, Sat(i)[k]), k>>]]
SM(i) == [Base(i) EXCEPT !.sub = 1] @@ [srows |-> << <<Sat(i)[2], Val(i, Sat(i)[2]), 2>> >>]
BM(i) == [Base(i) EXCEPT !.cb = 1] @@
         [cbrows |-> << <<1001, "C1C", Val(i, 1001)>> >> \o
            (IF i = 1 THEN << <<3002, "C1C", Val(1, 3002)>>, <<3002, "C5Q", Val(1, 3002)>> >>
             ELSE << <<3003, "C1C", Val(2, 3003)>> >>)]
AM(i) == [Base(i) EXCEPT !.mask = 1, !.orb = 1] @@ [sats |-> Masks[i]] @@
         [orows |-> [k \in 1..2 |-> <<Sat(i)[k], i, Val(i, Sat(i)[k]), 1, 2>>]]
MCEv(s) == {[op |-> "has", m |-> x] :
            x \in UNION {{MM(i), OM(i), CM(i), SM(i), BM(i), AM(i)} : i \in {1, 2}}
                  \cup {[MM(1) EXCEPT !.toh = 3600]}}
MCDo(s, e) == [st |-> Msg(s, e.m)]
MCCf == {[week |-> 2300, tow0 |-> 7200]}
MCBnd(s) == TRUE
\* every stored value is the one transmitted for that satellite
RightSat(st) ==
  /\ \A r \in st.orb : r[3] = -Val(r[2], r[1])
  /\ \A r \in st.clk : \E i \in {1, 2} : r[1] \in ToSet(Sat(i)) /\
        r[2] = Val(i, r[1]) * (IF r[1] = 1001 THEN 1 ELSE 2)
  /\ \A r \in st.cb : \E i \in {1, 2} : r[1] \in ToSet(Sat(i)) /\ r[3] = Val(i, r[1])
  /\ st.mid # -1 => st.sats = Masks[st.mid]
StepP(s, e, t) == (e.m.mask = 0 /\ e.m.mid # s.mid) => t = s
VARIABLES xcfg, xs
INSTANCE Explore WITH Start <- AStart, Do <- MCDo, Inv <- RightSat,
  MCCfgs <- MCCf, MCEvents <- MCEv, MCBound <- MCBnd, StepInv <- StepP
==============================================================================

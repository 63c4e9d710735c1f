------------------------------- MODULE CSSR_MC -------------------------------
(* Small instance: two mask issues over three satellites with overlapping    *)
(* lists of equal length, messages of either issue arriving in any order.    *)
(* The value sent for satellite s under issue i is V(i, s), so "the stored   *)
(* value is the one the provider sent for that satellite" is an invariant.   *)
EXTENDS CSSR, IOUtils

Masks == << << <<1001, <<"1C", "2W">> >>, <<3002, <<"1C">> >> >>,
            << <<3002, <<"1C">> >>, <<5193, <<"1C", "5Q">> >> >> >>

V(i, s) == i * 100 + (s % 10)

SatsOf(i) == SatIds(Masks[i])
Orb(i) == [t |-> "ORB", iod |-> i, udi |-> i, dtow |-> 10,
           orows |-> [k \in 1..2 |-> <<SatsOf(i)[k], i, V(i, SatsOf(i)[k]), 2, 3>>]]
Clk(i) == [t |-> "CLK", iod |-> i, udi |-> i, dtow |-> 10,
           crows |-> [k \in 1..2 |-> <<SatsOf(i)[k], V(i, SatsOf(i)[k])>>]]
Msk(i) == [t |-> "MASK", iod |-> i, udi |-> 0, tow |-> 3610, cma |-> 1,
           sats |-> Masks[i]]
CbRows(i) == FlattenSeq([k \in 1..2 |->
              [j \in 1..Len(Masks[i][k][2]) |->
                <<Masks[i][k][1], "C" \o Masks[i][k][2][j], V(i, Masks[i][k][1])>>]])
Cb(i) == [t |-> "CB", iod |-> i, udi |-> i, dtow |-> 10, cbrows |-> CbRows(i)]
\* network bias for the second satellite of the mask only
PbSub(i) == LET x == Masks[i][2] IN
            [j \in 1..Len(x[2]) |-> <<x[1], "L" \o x[2][j], V(i, x[1]), 1>>]
Bs(i) == [t |-> "BIAS", iod |-> i, udi |-> i, dtow |-> 10, cb |-> 0, pb |-> 1,
          net |-> 1, inet |-> 1, sub |-> <<Masks[i][2][1]>>,
          cbrows |-> <<>>, pbrows |-> PbSub(i)]
Cmb(i) == [t |-> "COMB", iod |-> i, udi |-> i, dtow |-> 10, orb |-> 0, clk |-> 1,
           net |-> 1, inet |-> 1, sub |-> <<Masks[i][1][1]>>,
           orows |-> <<>>, crows |-> << <<Masks[i][1][1], V(i, Masks[i][1][1])>> >>]

One == UNION {{Msk(i), Orb(i), Clk(i), Cb(i), Bs(i), Cmb(i)} : i \in {1, 2}}
Two == {<<a, b>> : a \in {Orb(1), Orb(2)}, b \in {Clk(1), Clk(2), Msk(2)}}

\* the full instance is only checked; the behaviours replayed into the code
\* (EMIT=1) come from the sub-instance without code biases and combined messages
Emitting == "EMIT" \in DOMAIN IOEnv /\ IOEnv.EMIT = "1"
Few == UNION {{Msk(i), Orb(i), Clk(i), Bs(i)} : i \in {1, 2}}
MCEv(s) == {[op |-> "buffer", msgs |-> <<m>>] : m \in IF Emitting THEN Few ELSE One}
           \cup {[op |-> "buffer", msgs |-> t] : t \in Two}

MCDo(s, e) == [st |-> Buffer(s, e.msgs).st]
MCCf == {[week |-> 2200, nets |-> <<0, 1>>]}
MCBnd(s) == TRUE

\* the provider's value for the provider's satellite, in every reachable state
RightSat(st) ==
  /\ \A r \in st.lc[0].orb : r[1] \in ToSet(SatsOf(r[2])) /\ r[3] = V(r[2], r[1])
  /\ \A n \in {0, 1} : \A r \in st.lc[n].clk :
        \E i \in {1, 2} : r[1] \in ToSet(SatsOf(i)) /\ r[2] = V(i, r[1])
  /\ \A r \in st.lc[0].cb :
        \E i \in {1, 2} : /\ r[3] = V(i, r[1])
                          /\ \E x \in ToSet(Masks[i]) :
                               x[1] = r[1] /\ \E g \in ToSet(x[2]) : r[2] = "C" \o g
\* corrections that claim the issue of the mask in force are for its satellites
Current(st) ==
  /\ (st.iodc[1] = st.iod => \A r \in st.lc[0].orb : r[1] \in ToSet(SatIds(st.sats)))
  /\ (st.iodc[2] = st.iod => \A r \in st.lc[0].clk : r[1] \in ToSet(SatIds(st.sats)))
  /\ (st.iodc[1] = st.iodp /\ st.iodp # st.iod =>
        \A r \in st.lc[0].orb : r[1] \in ToSet(st.satsp))
MInv(st) == RightSat(st) /\ Current(st)

\* a message of another issue changes nothing but the clock
StepP(s, e, t) ==
  (Head(e.msgs).t # "MASK" /\ Head(e.msgs).iod # s.iod)
     => /\ t.lc = s.lc /\ t.iod = s.iod /\ t.sats = s.sats /\ t.iodc = s.iodc

VARIABLES xcfg, xs
INSTANCE Explore WITH Start <- CStart, Do <- MCDo, Inv <- MInv,
  MCCfgs <- MCCf, MCEvents <- MCEv, MCBound <- MCBnd, StepInv <- StepP
==============================================================================

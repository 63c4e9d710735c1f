------------------------------- MODULE Amb_MC --------------------------------
(* Seven satellites, two of which vary: each event changes their tracking;    *)
(* an epoch may have too few satellites.  The ambiguity of an event grows     *)
(* with the number of the epoch, along the geometry-free lattice.             *)
EXTENDS Amb, IOUtils
Em == "EMIT" \in DOMAIN IOEnv /\ IOEnv.EMIT = "1"
Cf(r) == [nf |-> 2, rtk |-> r, niono |-> 0, elmin |-> 10, elar |-> 20, armode |-> 1,
          par |-> 1, maxout |-> 2, pmode |-> 0, excl |-> <<>>, sys |-> <<"E", "G">>]
MCCf == {Cf(0), Cf(1)}
Good5 == <<1003, 1009, 1012, 1017, 3005>>
\* what a satellite does: its record at ambiguity epoch n (lattice steps)
Rec(sat, n, what) ==
  LET j == IF what = "slip" THEN 3 ELSE 0
      l == IF what = "lli" THEN 3 ELSE 0
      a == Ra(sat) IN
  [sat |-> sat, eph |-> IF what = "noeph" THEN 0 ELSE 1,
   svh |-> IF what = "sick" THEN 1 ELSE 0,
   el |-> IF what = "low" THEN 5 ELSE IF what = "mid" THEN 15 ELSE 40 + (sat % 10),
   nb |-> IF what = "nobias" THEN 1 ELSE 0, ion |-> 0,
   sig |-> <<<<1, 1, l, 40, 100 + a[1]*n + j>>,
             <<1, IF what = "nophase" THEN 0 ELSE 1, 0, 40, 200 + a[2]*n>>>>]
Fixed5(n) == [i \in 1..5 |-> Rec(Good5[i], n, "ok")]
Kinds == {"ok", "away", "lli", "slip", "low", "nobias"} \cup
         (IF Em THEN {} ELSE {"mid", "noeph", "sick", "nophase"})
Opt(sat, n, what) == IF what = "away" THEN <<>> ELSE <<Rec(sat, n, what)>>
Ep(n, w, v, bw) ==
  [op |-> "epoch", dt |-> 1,
   sats |-> Fixed5(n) \o Opt(1020, n, w) \o Opt(3011, n, v),
   base |-> Fixed5(0) \o Opt(1020, 0, bw) \o <<Rec(3011, 0, "ok")>>]
\* the satellite 3011 is good, away, or slipping; so the number is 5..7
MCEv(s) == {Ep(n, w, v, bw) : n \in {s.k + 1}, w \in Kinds,
            v \in {"ok", "away", "lli"},
            bw \in IF s.cfg.rtk = 1 THEN {"ok", "lli", "away"} ELSE {"ok"}}
MCDo(s, e) == [st |-> ADo(s, e).st]
MCBnd(s) == s.k < (IF Em THEN 3 ELSE 5)
Rb(e, sat) == IF \E i \in DOMAIN e.sats : e.sats[i].sat = sat
              THEN {e.sats[CHOOSE i \in DOMAIN e.sats : e.sats[i].sat = sat]} ELSE {}
\* a kept ambiguity belongs to a satellite tracked without slip; in an epoch
\* that is used, a satellite that is not tracked has none
StepP(s, e, n) ==
  \A r \in s.amb : r \in n.amb =>
    /\ \A x \in Rb(e, r[1]) : \A f \in 1..2 : ~Bit0(x.sig[f][3])
    /\ n.k > s.k => Rb(e, r[1]) # {}
    /\ s.cfg.rtk = 1 => \A i \in DOMAIN e.base : e.base[i].sat = r[1] =>
                          \A f \in 1..2 : ~Bit0(e.base[i].sig[f][3])
Right(s) == AInv(s)
VARIABLES xcfg, xs
INSTANCE Explore WITH Start <- AStart, Do <- MCDo, Inv <- Right,
  MCCfgs <- MCCf, MCEvents <- MCEv, MCBound <- MCBnd, StepInv <- StepP
==============================================================================

------------------------------ MODULE RnxNav_MC ------------------------------
(* All files of up to two records out of eight (repeated issues with equal   *)
(* and with different times, two messages of one satellite), read into an    *)
(* empty or a filled store, and written.                                     *)
EXTENDS RnxNav, IOUtils
Z == <<0, 0, 0, 0>>
Base(y, ty, sat, s, v, L) ==
  [k |-> "EPH", y |-> y, ty |-> ty, prn |-> 5, sat |-> sat, t |-> <<2300, s>>,
   v |-> v, L |-> L, rsf |-> 0, nb |-> TRUE]
Gps(iode, s, m0) == Base("G", "LNAV", 1005, s, <<7, 0, 0>>,
  << <<iode, 0, 0, m0>>, <<0, 5, 0, 9>>, <<s, 0, 0, 0>>, Z, <<0, 1, 2300, 0>>,
     <<200, 0, 3, iode>>, <<s - 18, 0, 0, 0>> >>)
Cnv(s, m0) == Base("G", "CNAV", 1005, s, <<7, 0, 0>>,
  << <<0, 0, 0, m0>>, <<0, 5, 0, 9>>, <<s, 0, 0, 0>>, Z, <<0, 0, 1, 2>>,
     <<100, 0, 3, 4>>, Z, <<s - 18, 1, 0, 0>> >>)
Glon(s, x) == Base("R", "FDMA", 2005, s, <<7, 0, s>>,
  << <<x, 0, 0, 0>>, <<0, 0, 0, 3>>, Z, Z >>)
Gal(code, s) == Base("E", IF code = 258 THEN "FNAV" ELSE "INAV", 3005, s, <<7, 0, 0>>,
  << <<11, 0, 0, 1>>, <<0, 5, 0, 9>>, <<s, 0, 0, 0>>, Z, <<0, code, 2300, 0>>,
     <<200, 0, 3, 4>>, <<s, 0, 0, 0>> >>)
Recs == {Gps(3, 7200, 1), Gps(3, 14400, 2), Gps(4, 14400, 2), Cnv(7200, 1), Cnv(14400, 2),
         Glon(9900, 1), Glon(96300, 2), Gal(517, 600), Gal(258, 600)}
Files == {<<a>> : a \in Recs} \cup {<<a, b>> : a \in Recs, b \in Recs}
MCEv(s) ==
  (IF Len(s.rec) < 2
   THEN {[op |-> "nav", ver |-> 402, app |-> Len(s.rec) > 0, recs |-> f, exc |-> "x",
          ion |-> <<>>, leaps |-> 18] : f \in Files}
   ELSE {}) \cup (IF s.rec # <<>> THEN {[op |-> "wr", exc |-> "x"]} ELSE {})
MCDo(s, e) == RDo(s, e)
MCBnd(s) == Len(s.rec) <= 3
MCCf == {<<>>}
\* nothing is lost by writing except repetitions
StepP(s, e, n) ==
  e.op = "wr" =>
    LET o == Once(s.rec) IN
    /\ \A x \in ToSet(s.rec) : \E y \in ToSet(o) :
         y.a.sat = x.a.sat /\ y.a.mode = x.a.mode /\ Key(y) = Key(x)
    /\ \A x \in ToSet(o) : x \in ToSet(s.rec)
    /\ Len(o) >= Cardinality({<<x.a.sat, x.a.mode, Key(x)>> : x \in ToSet(s.rec)})
VARIABLES xcfg, xs
INSTANCE Explore WITH Start <- RStart, Do <- MCDo, Inv <- RInv,
  MCCfgs <- MCCf, MCEvents <- MCEv, MCBound <- MCBnd, StepInv <- StepP
==============================================================================

------------------------------- MODULE Mdc_MC --------------------------------
(* All orders of coverage and correction messages of two regions with the    *)
(* same area numbers, one across the date line, and of the user's moves.     *)
EXTENDS Mdc
\* rectangle 10 x 20 deg; circle of 600 km; rectangle across the date line
A1 == {[op |-> "area", tow |-> 7300 + r, reg |-> r, areas |-> q] :
         r \in {1, 2}, q \in {<<<<1, 0, 3500, 13500, 500, 1000>>>>,
                              <<<<9, 1, 3000, 13700, 600, 866>>>>,
                              <<<<1, 0, -3500, 18000, 500, 1000>>>>}}
C1 == {[op |-> "corr", dtow |-> 30 * n, reg |-> r, area |-> a, stype |-> n, iod |-> n,
        rows |-> <<<<1001, <<100 * r, 5, -5, 3, 2, n>>>>, <<5193, <<-8192, 1, 1, 1, 1, 1>>>>>>] :
          r \in {1, 2}, a \in {1, 9}, n \in {0, 3}}
F1 == {[op |-> "find", lat |-> p[1], lon |-> p[2]] :
          p \in {<<3301, 13601>>, <<-3301, -17899>>, <<201, 301>>}}
G1 == {[op |-> "get", lat |-> 3402, lon |-> 13702]}
MCEv(s) == A1 \cup C1 \cup F1 \cup (IF s.found # None /\ AreaOf(s)[5] < 18000 THEN G1 ELSE {})
MCCf == {[x |-> 0]}
MCStart(c) == MdcStart(c) @@ [n |-> 0]
MCDo(s, e) ==
  LET f(P) == IF P = {} THEN None ELSE CHOOSE x \in P : TRUE
      t == CASE e.op = "find" -> [s EXCEPT !.found = f(Certain(s, e.lat, e.lon))]
             [] e.op = "get" -> s
             [] OTHER -> Msg(s, e)
  IN [st |-> [t EXCEPT !.n = s.n + 1]]
MCBnd(s) == s.n < 4
StepP(s, e, n) ==
  /\ e.op \in {"area", "corr"} => n.found = s.found
  /\ e.op = "corr" => /\ \A c \in s.corr : Key(c) # <<e.reg, e.area>> => c \in n.corr
                      /\ n.areas = s.areas
  /\ e.op = "area" => /\ n.corr = s.corr
                      /\ \A a \in s.areas : a[1] # e.reg => a \in n.areas
  /\ e.op = "find" /\ n.found # None =>
       \E a \in s.areas : Key(a) = n.found /\ Abs(e.lat - a[4]) <= 700
VARIABLES xcfg, xs
INSTANCE Explore WITH Start <- MCStart, Do <- MCDo, Inv <- MdcInv,
  MCCfgs <- MCCf, MCEvents <- MCEv, MCBound <- MCBnd, StepInv <- StepP
==============================================================================

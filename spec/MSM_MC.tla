------------------------------- MODULE MSM_MC --------------------------------
(* Two satellites, two signals, every satellite, signal and cell mask, lock  *)
(* indicators 0..2; GLONASS with channels learnt from messages or ephemerides*)
EXTENDS MSM, IOUtils
Sat == <<2001, 2002>>
Sig == <<2, 8>>
Subs(S) == SUBSET S
\* value of satellite i, signal j: pseudorange 16i + j, phase 32i + j
D(i, j, l) == <<16 * i + j, 32 * i + j, l, 0, 10 * i + j, 3 * i + j>>
Asc(S) == SetToSortSeq(S, <)
Mk(k, ss, gg, cc, l, x) ==
  LET sq == Asc(ss)  gq == Asc(gg)
      cl == [i \in DOMAIN sq |-> SelectSeq(Asc(gg), LAMBDA g : <<sq[i], g>> \in cc)]
      ix == [op |-> "msm", sys |-> 2, k |-> k, w |-> 2200, ep |-> <<3, 50000000>>,
             sats |-> [i \in DOMAIN sq |-> <<sq[i], 70, 5 * (sq[i] % 10), x, 2>>],
             sigs |-> gq, cells |-> cl, data |-> <<>>]
      F == Flat(ix, 1)
  IN [ix EXCEPT !.data = [n \in DOMAIN F |-> D(sq[F[n][1]] % 10, F[n][2], l)]]
Cov(ss, gg, cc) ==   \* every signal of the mask is used
  /\ \A i \in ss : \E c \in cc : c[1] = i
  /\ \A g \in gg : \E c \in cc : c[2] = g
Msgs == {Mk(k, ss, gg, cc, l, x) :
   k \in {4, 7}, ss \in Subs({2001, 2002}) \ {{}}, gg \in Subs({2, 8}) \ {{}},
   cc \in Subs({2001, 2002} \X {2, 8}), l \in {1, 2}, x \in {3, 15}}
Good == {m \in Msgs : /\ \A i \in DOMAIN m.sats : m.cells[i] # <<>>
                      /\ \A g \in ToSet(m.sigs) : \E i \in DOMAIN m.cells : g \in ToSet(m.cells[i])}
MCEv(s) == Good \cup {[op |-> "geph", s |-> i, frq |-> -4] : i \in {2001}}
MCCf == {[x |-> 0]}
MCDo(s, e) == MDo(s, e)
MCBnd(s) == Cardinality(s.lock) < 4
\* every cell carries the value of its satellite and signal
StepP(s, e, n) ==
  e.op = "msm" =>
  LET o == Msm(s, e).out IN
  /\ \A r \in o.rows :
       LET i == r[1] % 10
           j == CHOOSE g \in {2, 8} : SigTab[2][g] = r[2]
       IN  /\ r[3] = Norm(70, 5 * i, (16 * i + j) * (IF e.k = 7 THEN 1 ELSE 32), 2^19)
           /\ r[4] # NAR => r[4] = Norm(70, 5 * i, (32 * i + j) * (IF e.k = 7 THEN 1 ELSE 4), 2^21)
           /\ r[6] = (10 * i + j) * (IF e.k = 7 THEN 1 ELSE 16)
           /\ (r[7] = 1) <=> \E x \in s.lock : x[1] = r[1] /\ x[2] = j /\ x[3] = 2
                                /\ \E y \in n.lock : y[1] = r[1] /\ y[2] = j /\ y[3] = 1
           /\ r[4] = NAR <=> ~\E x \in n.fcn : x[1] = r[1]
  /\ Cardinality(o.rows) = Len(e.data)
VARIABLES xcfg, xs
INSTANCE Explore WITH Start <- MStart, Do <- MCDo, Inv <- MInv,
  MCCfgs <- MCCf, MCEvents <- MCEv, MCBound <- MCBnd, StepInv <- StepP
==============================================================================

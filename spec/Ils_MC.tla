-------------------------------- MODULE Ils_MC -------------------------------
(* Search-and-shrink in two dimensions, step by step, with exact arithmetic:  *)
(* the second component zigzags around its float value, the first around its  *)
(* conditional value; a branch is left when its cost reaches the radius, the  *)
(* radius shrinks to the worst of the two candidates kept.  For every float   *)
(* vector on a grid and every information matrix of a family, the two         *)
(* candidates left at the end are the best two of all integer points.         *)
EXTENDS Ils
den == 4
Mats == {<< <<a, b>>, <<b, c>> >> : a \in {1, 3, 7}, b \in {-5, -2, 0, 2, 4}, c \in {2, 5, 9}}
PosDef == {M \in Mats : M[1][1]*M[2][2] - M[1][2]*M[1][2] > 0}
MCCf == {[M |-> M, A |-> <<i, j>>] : M \in PosDef, i \in {-1, 0, 1, 2, 5}, j \in 0..3}
Inf == 100000000
\* nearest integer to p/q and its neighbours in order of distance
Near(p, q) == (2*p + q) \div (2*q)
Zig(p, q, k) ==    \* k-th nearest integer, k = 0, 1, 2, ..
  LET c == Near(p, q)  up == p - q*c >= 0
      h == (k + 1) \div 2
  IN IF k % 2 = 1 THEN (IF up THEN c + h ELSE c - h) ELSE (IF up THEN c - h ELSE c + h)
MSt(c) == [M |-> c.M, A |-> c.A, k2 |-> 0, k1 |-> 0, best |-> <<>>, chi |-> Inf, done |-> FALSE]
\* cost of level 2 alone, times M11
Cost2(s, z2) == LET x == s.A[2] - den*z2 IN Det(s.M) * x * x
\* conditional value of component 1 (times M11*den): minimise over real z1
Z1(s, z2, k) == LET x2 == s.A[2] - den*z2 IN
  Zig(s.M[1][1]*s.A[1] + s.M[1][2]*x2, s.M[1][1]*den, k)
Insert(b, z, d) ==
  IF Len(b) < 2 THEN Append(b, [z |-> z, d |-> d])
  ELSE LET w == IF b[1].d >= b[2].d THEN 1 ELSE 2 IN [b EXCEPT ![w] = [z |-> z, d |-> d]]
Worst(b) == IF Len(b) < 2 THEN Inf ELSE IF b[1].d >= b[2].d THEN b[1].d ELSE b[2].d
Step1(s) ==
  LET z2 == Zig(s.A[2], den, s.k2) IN
  IF s.chi < Inf /\ Cost2(s, z2) >= s.chi * s.M[1][1] THEN [s EXCEPT !.done = TRUE]
  ELSE LET z == <<Z1(s, z2, s.k1), z2>>
           d == Dist(s.M, s.A, den, z)
       IN IF d >= s.chi THEN [s EXCEPT !.k2 = @ + 1, !.k1 = 0]
          ELSE LET b == Insert(s.best, z, d) IN
               [s EXCEPT !.best = b, !.chi = Worst(b), !.k1 = @ + 1]
MCEv(s) == IF s.done THEN {} ELSE {[op |-> "step"]}
MCDo(s, e) == [st |-> Step1(s)]
MCBnd(s) == TRUE
Right(s) ==
  s.done => LET b == IF s.best[1].d <= s.best[2].d THEN s.best ELSE <<s.best[2], s.best[1]>>
            IN Best(s.M, s.A, den, <<b[1].z, b[2].z>>)
StepP(s, e, t) == t.chi <= s.chi
VARIABLES xcfg, xs
INSTANCE Explore WITH Start <- MSt, Do <- MCDo, Inv <- Right,
  MCCfgs <- MCCf, MCEvents <- MCEv, MCBound <- MCBnd, StepInv <- StepP
==============================================================================

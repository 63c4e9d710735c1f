--------------------------------- MODULE Ils ---------------------------------
(* Integer least squares.  The float vector is A/den (integers), the inverse  *)
(* of the covariance is the integer matrix M; all norms are exact, in units   *)
(* of 1/den^2.                                                                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
\* determinant and minors
Minor(M, i, j) == LET n == Len(M) IN
  [r \in 1..(n - 1) |-> [c \in 1..(n - 1) |-> M[IF r < i THEN r ELSE r + 1][IF c < j THEN c ELSE c + 1]]]
RECURSIVE Det(_)
Det(M) ==
  IF Len(M) = 0 THEN 1 ELSE IF Len(M) = 1 THEN M[1][1]
  ELSE LET n == Len(M)
           S[j \in 0..n] == IF j = 0 THEN 0
             ELSE S[j - 1] + (IF j % 2 = 1 THEN 1 ELSE -1) * M[1][j] * Det(Minor(M, 1, j))
       IN S[n]
Adj(M) == [i \in 1..Len(M) |-> [j \in 1..Len(M) |->
            (IF (i + j) % 2 = 0 THEN 1 ELSE -1) * Det(Minor(M, j, i))]]

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
\* squared norm of x
Nrm(M, x) == LET n == Len(x) IN
  SumTo([i \in 1..n |-> x[i] * SumTo([j \in 1..n |-> M[i][j] * x[j]], n)], n)
Dist(M, A, den, z) == Nrm(M, [i \in 1..Len(A) |-> A[i] - den * z[i]])

ISqrt(v) == CHOOSE r \in 0..46340 : r*r <= v /\ (r = 46340 \/ (r + 1)*(r + 1) > v)
RECURSIVE ISq(_, _, _)
ISq(v, lo, hi) == IF hi - lo <= 1 THEN lo
  ELSE LET m == (lo + hi) \div 2 IN IF m <= 46340 /\ m*m <= v THEN ISq(v, m, hi) ELSE ISq(v, lo, m)
Root(v) == ISq(v, 0, 46341)

\* all integer points with norm <= R: component i satisfies
\* |A[i] - den z[i]|^2 <= R * Q[i][i]
Range1(a, den, w) == {z \in ((a - w) \div den)..((a + w) \div den + 1) : Abs(a - den*z) <= w}
RECURSIVE Box(_, _, _, _)
Box(A, den, W, k) ==
  IF k > Len(A) THEN {<<>>}
  ELSE {<<z>> \o t : z \in Range1(A[k], den, W[k]), t \in Box(A, den, W, k + 1)}
Width(M, R) == LET D == Det(M)   Q == Adj(M) IN
  [i \in 1..Len(M) |-> Root((R * Q[i][i]) \div D) + 1]
Ball(M, A, den, R) ==
  {z \in Box(A, den, Width(M, R), 1) : Dist(M, A, den, z) <= R}

\* the candidates zs, in order, are k best points
Best(M, A, den, zs) ==
  LET k == Len(zs)
      R == Dist(M, A, den, zs[k])
  IN /\ Cardinality(ToSet(zs)) = k
     /\ \A i \in 1..(k - 1) : Dist(M, A, den, zs[i]) <= Dist(M, A, den, zs[i + 1])
     /\ \A z \in Ball(M, A, den, R) :
          Dist(M, A, den, z) < R => z \in ToSet(zs)

MatMul(X, Y) == [i \in 1..Len(X) |-> [j \in 1..Len(Y[1]) |->
                   SumTo([k \in 1..Len(Y) |-> X[i][k] * Y[k][j]], Len(Y))]]
Transp(X) == [i \in 1..Len(X[1]) |-> [j \in 1..Len(X) |-> X[j][i]]]

\* -------------------------------------------------------------------- events
ZStart(c) == [x |-> 0]
ZSets == {}
ZInv(st) == TRUE
\* ils: out.z the candidates, out.s their squared norms
\* dec: out.zt the transformation, out.q  det(M) * its decorrelated covariance
ZDo(st, e) ==
  [st |-> st,
   out |-> IF e.exc # "" THEN [ok |-> 1]
    ELSE IF e.op = "ils"
    THEN LET s == [i \in 1..Len(e.out.z) |-> Dist(e.M, e.A, e.den, e.out.z[i])] IN
         [ok |-> 1, z |-> e.out.z, nfix |-> Len(e.A), s |-> s, n |-> e.k,
          best |-> IF e.out.best = 1 /\ s = e.out.s /\ Len(s) = e.k
                      /\ Best(e.M, e.A, e.den, e.out.z) THEN 1
                   ELSE IF e.out.best = 1 THEN 0 ELSE 1]
    ELSE [ok |-> 1, zt |-> e.out.zt, unit |-> IF Abs(Det(e.out.zt)) = 1 THEN 1 ELSE 0,
          q |-> MatMul(Transp(e.out.zt), MatMul(Adj(e.M), e.out.zt))]]
==============================================================================

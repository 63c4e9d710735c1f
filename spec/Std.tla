-------------------------------- MODULE Std ----------------------------------
(* Standalone and differential positioning.                                  *)
(*                                                                           *)
(* zd   residuals of the pseudoranges at a given position: the geometric     *)
(*      range, clocks, one tropospheric and one ionospheric delay (scaled to *)
(*      the signal), of a combination free of the ionosphere none; carrier   *)
(*      smoothing starts anew after a gap, a missing value or a slip         *)
(* lin  the design matrix is the derivative; one row per usable satellite    *)
(* tgd  broadcast clocks of a single frequency: less the group delay of the  *)
(*      satellite itself, from the first epoch on                            *)
(* ud   the states move with velocity and clock drift, the covariance with   *)
(*      them and by the configured process noise of each state               *)
(* epo  a filter fed with error-free observations has the true position and  *)
(*      clock, whatever the receiver clock jumps; status and precision       *)
(*                                                                           *)
(* Ranges are excesses over the geometric range with all clocks, in mm;      *)
(* smoothed values in 0.01 mm; times in ms.                                  *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE 1
Div(a, b) == Sgn(a) * (Abs(a) \div b)
Rnd(a, b) == Sgn(a) * ((Abs(a) + (b \div 2)) \div b)
Sys(x) == x \div 1000
Chan(x) == ((x % 1000) % 14) - 7
\* frequency in 1.023 MHz; GLONASS scaled to the same unit roughly: handled apart
\* delay at L1 to that of the signal
Scale(x, b, d) ==
  IF Sys(x) = 2 THEN LET k == IF b = 1 THEN 25632 + 9 * Chan(x) ELSE 19936 + 7 * Chan(x)
                     \* 1575.42 MHz = 25206.72 * 62.5 kHz
                     IN Rnd(Rnd(d * 25207, k) * 25207, k)
  ELSE LET f == CASE b = 1 -> 1540 [] b = 2 /\ Sys(x) # 4 -> 1200 [] b = 5 -> 1150
                  [] b = 2 -> 1526 [] b = 6 -> 1240 [] b = 7 -> 1180
       IN Rnd(Rnd(d * 1540, f) * 1540, f)

\* combination free of the ionosphere: L1/L2 and L1/L5
Comb(rmode, a, b) ==
  CASE rmode = 0 -> a
    [] rmode = 1 -> Rnd(5929 * a - 3600 * b, 2329)
    [] rmode = 2 -> Rnd(23716 * a - 13225 * b, 10491)

\* carrier smoothing: m = <<n, s, l, t>> or <<>>: number of values, smoothed,
\* last phase, time of the last update; n = 1: start anew
Hatch(m, t, p, l, ns) ==
  IF m = <<>> \/ (m # <<>> /\ (m[1] = 1 \/ t - m[4] > 1000))
  THEN <<2, 100 * p, l, t>>
  ELSE LET pp == m[2] + 100 * (l - m[3])
       IN IF Abs(100 * p - pp) >= 1000000 THEN <<2, 100 * p, l, t>>
          ELSE <<IF m[1] < ns THEN m[1] + 1 ELSE ns,
                 Rnd(100 * p + (m[1] - 1) * pp, m[1]), l, t>>
Mem(s, x) == LET q == {r \in s.sm : r[1] = x}
             IN IF q = {} THEN <<>> ELSE (CHOOSE r \in q : TRUE)[2]

Used(s, a) == a.edt = 0 /\ a.el >= 100
Code(s, a) == Comb(s.rmode, a.p1, a.p2)
Phase(s, a) == Comb(s.rmode, a.l1, a.l2)
NewMem(s, e, a) == Hatch(Mem(s, a.sat), e.t, Code(s, a), Phase(s, a), 100)
Trop(s, a) == IF s.trop = 0 THEN a.trop ELSE IF s.dg = 1 THEN a.trop - a.tropb ELSE 0
Ion(s, a) == IF s.rmode # 0 \/ s.iono # 0 THEN 0 ELSE Scale(a.sat, a.b, a.io)
\* in 0.01 mm
Res(s, e, a) ==
  (IF s.smooth = 1 THEN NewMem(s, e, a)[2] ELSE 100 * Code(s, a))
  - 100 * Trop(s, a) - 100 * Ion(s, a)

ZdBad(s, e) ==
  LET U == {k \in DOMAIN e.sats : Used(s, e.sats[k])}
      D == {e.sats[k].sat : k \in U}
      y == e.out.y
      miss == {k \in U : ~(\E j \in DOMAIN y : y[j][1] = e.sats[k].sat
                             /\ Abs(y[j][2] - Res(s, e, e.sats[k])) <= 400)}
      more == {y[k][1] : k \in DOMAIN y} \ D
  IN IF more # {} THEN <<"used", more>>
     ELSE IF miss # {} THEN LET k == CHOOSE k \in miss : TRUE
                            IN <<"residual", e.sats[k].sat, Res(s, e, e.sats[k])>>
     ELSE <<>>
ZdMem(s, e) ==
  IF s.smooth = 0 THEN {}
  ELSE LET U == {k \in DOMAIN e.sats : Used(s, e.sats[k])}
           D == {e.sats[k].sat : k \in U}
       IN {r \in s.sm : r[1] \notin D}
          \cup {<<e.sats[k].sat, NewMem(s, e, e.sats[k])>> : k \in U}

\* one value for the smoother itself; zero: no value
SmNew(s, e) == IF e.p = 0 \/ e.l = 0
               THEN LET m == Mem(s, e.sat) IN IF m = <<>> THEN <<>> ELSE <<1, m[2], m[3], m[4]>>
               ELSE Hatch(Mem(s, e.sat), e.t, e.p, e.l, e.ns)
SmBad(s, e) == IF e.p = 0 \/ e.l = 0
               THEN IF e.out.v = 100 * e.p THEN <<>> ELSE <<"raw">>
               ELSE IF Abs(e.out.v - SmNew(s, e)[2]) <= 100 THEN <<>>
                    ELSE <<"smoothed", SmNew(s, e)[2]>>

LinBad(s, e) == IF e.out.lin # 0 THEN <<"derivative">>
                ELSE IF e.out.rows # Len(e.list) THEN <<"rows">>
                ELSE IF e.out.cov # 1 THEN <<"covariance">> ELSE <<>>

\* rows <<sat, group delay>> and <<sat, clock less the broadcast one>> in 0.1 ns
TgdBad(s, e) ==
  IF Len(e.rows) # Len(e.out.rows) THEN <<"missing">>
  ELSE IF \E k \in DOMAIN e.rows : \A j \in DOMAIN e.out.rows :
            \/ e.out.rows[j][1] # e.rows[k][1]
            \/ e.out.rows[j][2] # (IF Sys(e.rows[k][1]) = 2 THEN 0 ELSE -e.rows[k][2])
  THEN <<"group delay">> ELSE <<>>

\* states: position, velocity, clock, drift; static: position, clock.
\* x in m (m/s), P in m^2, q = noise of <<position, velocity, clock, drift>>
\* in 1e-6 m^2/s, out in m and 1e-6 m^2
UdX(s, e) == IF s.pmode = 0 THEN e.x
             ELSE [i \in 1..8 |-> IF i <= 3 THEN e.x[i] + e.dt * e.x[i+3]
                                  ELSE IF i = 7 THEN e.x[7] + e.dt * e.x[8] ELSE e.x[i]]
\* rate of a state, 0: none
UdRate(s, i) == IF s.pmode = 0 THEN 0 ELSE IF i <= 3 THEN i + 3 ELSE IF i = 7 THEN 8 ELSE 0
UdQ(s, e, i) == IF i <= 3 THEN e.q[1] ELSE IF s.pmode = 0 THEN e.q[3]
                ELSE IF i <= 6 THEN e.q[2] ELSE e.q[i - 4]
UdP(s, e, i, j) ==
  LET a == UdRate(s, i)  b == UdRate(s, j)
      P(u, v) == IF u = 0 \/ v = 0 THEN 0 ELSE e.P[u][v]
  IN 1000000 * (P(i, j) + e.dt * (P(a, j) + P(i, b)) + e.dt * e.dt * P(a, b))
     + (IF i = j THEN e.dt * UdQ(s, e, i) ELSE 0)
UdBad(s, e) ==
  LET n == Len(e.x)
      B == {<<i, j>> \in (1..n) \X (1..n) : Abs(e.out.P[i][j] - UdP(s, e, i, j)) > 20}
  IN IF e.out.x # UdX(s, e) THEN <<"state", UdX(s, e)>>
     ELSE IF B # {} THEN <<"covariance", B>> ELSE <<>>

\* pe, ce: errors of position and clock in 0.1 mm; dop: differences in 1e-3
Tol(s, n) == IF s.start = 0 THEN 5 ELSE IF s.pmode = 1 THEN 12000 ELSE IF n = 1 THEN 5000 ELSE 2000
EpoBad(s, e) ==
  LET n == s.n + 1 IN
  IF e.nv < 4 THEN (IF e.out.smode # 0 THEN <<"smode", 0>>
                    ELSE IF e.out.moved # 0 THEN <<"moved">> ELSE <<>>)
  ELSE IF e.out.smode # 1 + s.dg THEN <<"smode", 1 + s.dg>>
  ELSE IF e.out.pe > Tol(s, n) THEN <<"pos", Tol(s, n)>>
  ELSE IF e.out.ce > 3 * Tol(s, n) THEN <<"clock">>
  ELSE IF e.out.dop # 0 THEN <<"dop">> ELSE <<>>

StStart(c) == c @@ [n |-> 0, sm |-> {}]
StDo(s, e) ==
  LET bad == IF e.exc # "" THEN <<"exception">>
             ELSE CASE e.op = "zd" -> ZdBad(s, e) [] e.op = "lin" -> LinBad(s, e)
               [] e.op = "sm" -> SmBad(s, e) [] e.op = "tgd" -> TgdBad(s, e)
               [] e.op = "ud" -> UdBad(s, e)
               [] e.op = "epo" -> EpoBad(s, e)
      s1 == CASE e.op = "zd" -> [s EXCEPT !.sm = ZdMem(s, e)]
              [] e.op = "sm" -> [s EXCEPT !.sm = {r \in @ : r[1] # e.sat}
                                     \cup (IF SmNew(s, e) = <<>> THEN {} ELSE {<<e.sat, SmNew(s, e)>>})]
              [] e.op = "epo" -> IF e.nv > 3 THEN [s EXCEPT !.n = @ + 1] ELSE s
              [] OTHER -> s
  IN [st |-> s1, out |-> IF bad = <<>> THEN e.out ELSE [why |-> bad]]
StSets == {}
StInv(s) == \A a, b \in s.sm : a[1] = b[1] => a = b
==============================================================================

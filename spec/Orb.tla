-------------------------------- MODULE Orb ----------------------------------
(* Satellite positions, velocities and clocks from broadcast ephemerides and *)
(* almanacs.                                                                 *)
(*                                                                           *)
(* Orbits are given at an instant by exact directions: the eccentric anomaly *)
(* is a multiple of 90 deg, the eccentricity 0 or 0.28, the argument of      *)
(* perigee a multiple of 90 deg, inclination and node have rational sine and *)
(* cosine (<<cos, sin>> in 1e-4).  So the position is rational arithmetic,   *)
(* done here in decimetres; harmonics are small angles in 1e-9 rad.          *)
(* The velocity is the rate of change of the position, whatever it is; the   *)
(* clock is a polynomial and the relativistic term, in picoseconds.          *)
(* The positions of GLONASS satellites are given by the acceleration at the  *)
(* reference time, and by propagation composing.                             *)
(*   alm  loaded almanacs <<sat, index, week, toa>>                          *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
Div(a, b) == (IF a < 0 THEN -1 ELSE 1) * (Abs(a) \div b)
Rnd(a, b) == Div(a + (IF a < 0 THEN -1 ELSE 1) * (b \div 2), b)
OrbStart(c) == [alm |-> <<>>]

\* x * k / 10^4, x * k / 10^7, x * d / 10^9
Mul(x, k) == LET q == Div(x, 10000) IN (q * k) + Rnd((x - (10000 * q)) * k, 10000)
Mul7(x, k) == Mul(x, Div(k, 1000)) + Rnd(Mul(x, k - (1000 * Div(k, 1000))), 1000)
MulD(x, d) == Rnd(Rnd(x, 10000) * d, 100000)

Cos4 == <<1, 0, -1, 0>>
Sin4 == <<0, 1, 0, -1>>
C4(k) == Cos4[(k % 4) + 1]
S4(k) == Sin4[(k % 4) + 1]
\* direction turned by k quarters
Turn(d, k) == <<(d[1] * C4(k)) - (d[2] * S4(k)), (d[1] * S4(k)) + (d[2] * C4(k))>>

Ecc(e) == IF e.ecc = 0 THEN <<0, 10000>> ELSE <<2800, 9600>>
Nue(e) == 10000 - (Ecc(e)[1] * C4(e.k))
Nu(e) == IF S4(e.k) = 0 THEN <<10000 * C4(e.k), 0>>
         ELSE <<-Ecc(e)[1], Ecc(e)[2] * S4(e.k)>>
Phi(e) == Turn(Nu(e), e.w)
Harm(e, c, s) == LET p == Phi(e)
                     c2 == Div((p[1] * p[1]) - (p[2] * p[2]), 10000)
                     s2 == Div(2 * p[1] * p[2], 10000)
                 IN Rnd((c * c2) + (s * s2), 10000)
Tilt7 == <<9961947, -871557>>        \* cos, sin of -5 deg: 0.996194698, -0.0871557427
Sin5(x) == Mul7(x, Tilt7[2]) - Rnd(Rnd(x, 10000) * 43, 100000)
Pos(e) ==
  LET a == (10 * e.sqa * e.sqa) + (IF e.mode = 0 THEN 0 ELSE Rnd(e.adot * e.dt, 1000))
      r == Mul(a, Nue(e)) + Harm(e, e.crc, e.crs)
      du == Harm(e, e.cuc, e.cus)
      di == Rnd(e.idot * e.dt, 1000) + Harm(e, e.cic, e.cis)
      p == Phi(e)
      x == Mul(r, p[1]) - MulD(Mul(r, p[2]), du)
      y == Mul(r, p[2]) + MulD(Mul(r, p[1]), du)
      yc == Mul(y, e.inc[1]) - MulD(Mul(y, e.inc[2]), di)
      ys == Mul(y, e.inc[2]) + MulD(Mul(y, e.inc[1]), di)
      g == <<Mul(x, e.node[1]) - Mul(yc, e.node[2]),
             Mul(x, e.node[2]) + Mul(yc, e.node[1]), ys>>
      ty == Mul7(g[2], Tilt7[1]) + Sin5(g[3])
      tz == Mul7(g[3], Tilt7[1]) - Sin5(g[2])
      c == e.rot[1]  s == e.rot[2]
  IN IF ~e.geo THEN g
     ELSE <<Mul(g[1], c) + Mul(ty, s), Mul(ty, c) - Mul(g[1], s), tz>>

\* clock [ps]: af0 [ps], af1 [1e-12], af2 [1e-16], age of clock [100 s]
Poly(e) == e.af0 + (e.af1 * 100 * e.q) + (e.af2 * e.q * e.q)
Rel(e) == IF e.ecc = 0 THEN 0
          ELSE -(S4(e.k) * Rnd(Rnd(44428 * e.sqa, 100) * 28, 100))
\* the clock at transmission by the satellite's clock
Late(e, c) == Rnd(e.af1 * Rnd(c, 1000000), 1000000)
Near3(a, b, t) == \A k \in 1..3 : Abs(a[k] - b[k]) <= t

\* rate of change over two seconds [0.1 mm]
Rate(a, b) == ((b[1] - a[1]) * 10000) + (b[2] - a[2])
RateOk(o) == \A k \in 1..3 : Abs(Rate(o.before[k], o.after[k]) - (2 * o.v[k])) <= 20

KepBad(e) ==
  LET o == e.out IN
  IF ~Near3(o.pos, Pos(e), 6) THEN <<"position", Pos(e)>>
  ELSE IF ~o.same THEN <<"with and without velocity">>
  ELSE IF ~RateOk(o) THEN <<"velocity", [k \in 1..3 |-> Rate(o.before[k], o.after[k]) - (2 * o.v[k])]>>
  ELSE IF Abs(o.clk - (Poly(e) + Rel(e))) > 6 THEN <<"clock", Poly(e) + Rel(e)>>
  ELSE IF Abs(o.rel - Rel(e)) > 6 THEN <<"relativity", Rel(e)>>
  ELSE IF Abs(o.clk2 - (Poly(e) - Late(e, o.clk2))) > 3 THEN <<"clock 2", Poly(e)>>
  ELSE <<>>
AlmBad(e) ==
  LET o == e.out IN
  IF ~Near3(o.pos, Pos(e), 6) THEN <<"position", Pos(e)>>
  ELSE IF Abs(o.clk - Poly(e)) > 3 THEN <<"clock", Poly(e)>> ELSE <<>>

\* GLONASS: radius 25500 or 19100 km; gravity, flattening, rotation [1e-8 m/s2]
Grav(R) == IF R = 25500 THEN <<61299568, 6228, 13559610>>
           ELSE <<109262476, 19786, 10156414>>
Cor(v) == Rnd((v * 145842) + Rnd(v * 3, 10), 10)
Acc(e) ==
  LET g == Grav(e.R)
      n == e.n
      z2 == 10000 - Div(5 * n[3] * n[3], 10000)
      j == Mul(g[2], z2)
      h == Mul(g[1], n[3]) + Mul(j, n[3]) + (2 * Mul(g[2], n[3]))
      f == (g[3] - g[1]) - j
  IN <<Mul(f, n[1]) + Cor(e.v[2]) + e.ls[1],
       (Mul(f, n[2]) - Cor(e.v[1])) + e.ls[2],
       e.ls[3] - h>>
GloBad(e) ==
  LET o == e.out IN
  IF o.at # <<[k \in 1..3 |-> e.R * e.n[k]], e.v>> THEN <<"reference state">>
  ELSE IF ~Near3(o.acc, Acc(e), 40) THEN <<"acceleration", Acc(e)>>
  ELSE IF ~o.same THEN <<"with and without velocity">>
  ELSE IF ~RateOk(o) THEN <<"velocity">>
  ELSE IF o.comp > 20 THEN <<"composition">>
  ELSE IF Abs(o.clk - Poly(e)) > 3 THEN <<"clock", Poly(e)>>
  ELSE IF Abs(o.clk2 - (Poly(e) - Late(e, o.clk2))) > 3 THEN <<"clock 2", Poly(e)>>
  ELSE <<>>

\* full number of a week counted modulo m, in the week now
Full(w, now, m) == LET x == now - ((now - w) % m)
                   IN IF (2 * (now - x)) > m THEN x + m ELSE x
LoadBad(e) ==
  LET X == [k \in DOMAIN e.recs |-> LET r == e.recs[k] IN
              [sat |-> r.sat, week |-> Full(r.week, e.now, e.mod), toa |-> r.toa, f |-> r.f]]
  IN IF e.out.recs # X THEN <<"almanac", X>> ELSE <<>>
\* the almanac nearest in time, the later one in the list if two are
Age(e, a) == Abs(((e.week - a.week) * 604800) + (e.tow - a.toa))
FindBad(s, e) ==
  LET C == {k \in DOMAIN s.alm : /\ s.alm[k].sat = e.sat
                                 /\ e.tmax < 0 \/ Age(e, s.alm[k]) <= e.tmax}
      B == {k \in C : \A j \in C : Age(e, s.alm[k]) <= Age(e, s.alm[j])}
  IN IF C = {} THEN (IF e.out.k = 0 THEN <<>> ELSE <<"none">>)
     ELSE IF e.out.k \in B THEN <<>> ELSE <<"nearest", B>>

Why(e, bad) == IF bad = <<>> THEN e.out ELSE [why |-> bad]
OrbDo(s, e) ==
  CASE e.op = "kep" -> [st |-> s, out |-> Why(e, KepBad(e))]
    [] e.op = "alm" -> [st |-> s, out |-> Why(e, AlmBad(e))]
    [] e.op = "glo" -> [st |-> s, out |-> Why(e, GloBad(e))]
    [] e.op = "load" -> LET bad == LoadBad(e)
                        IN [st |-> IF bad = <<>> THEN [s EXCEPT !.alm = e.out.recs] ELSE s,
                            out |-> Why(e, bad)]
    [] e.op = "find" -> [st |-> s, out |-> Why(e, FindBad(s, e))]
OrbSets == {}
OrbInv(s) == \A k \in DOMAIN s.alm : s.alm[k].toa >= 0
==============================================================================

-------------------------------- MODULE Tide ---------------------------------
(* Displacement of a station by the solid earth tide, and the sun and moon   *)
(* that cause it.                                                            *)
(*                                                                           *)
(* "tide": station and bodies in directions with rational sine and cosine    *)
(* (<<cos, sin>> in 1e-4); amplitudes and displacements in 0.01 mm.  Degrees *)
(* 2 and 3 in phase, the out of phase radial terms, the K1 term and, when    *)
(* asked, the permanent tide taken off.                                      *)
(* "sky": instants at which sun or moon are known to be at a known place,    *)
(* angles in 0.01 deg, distances of the sun in 1e-4 AU, of the moon in km.   *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
Div(a, b) == (IF a < 0 THEN -1 ELSE 1) * (Abs(a) \div b)
Rnd(a, b) == Div(a + (IF a < 0 THEN -1 ELSE 1) * (b \div 2), b)
M(x, k) == Rnd(x * k, 10000)
TideStart(c) == [x |-> 0]

Unit(lat, lon) == <<M(lat[1], lon[1]), M(lat[1], lon[2]), lat[2]>>
Dot(a, b) == Rnd((a[1] * b[1]) + (a[2] * b[2]) + (a[3] * b[3]), 10000)
Sin2(d) == Rnd(2 * d[1] * d[2], 10000)
Minus(a, b) == <<Rnd((a[1] * b[1]) + (a[2] * b[2]), 10000),
                 Rnd((a[2] * b[1]) - (a[1] * b[2]), 10000)>>
\* one body: <<along the direction of the body, radial>>
Part(e, b) ==
  LET u == Unit(e.lat, e.lon)
      a == Dot(Unit(b.lat, b.lon), u)
      a2 == M(a, a)
      p == Rnd((3 * M(e.lat[2], e.lat[2])) - 10000, 2)
      h2 == 60780 - Rnd(60 * p, 10000)            \* 1e-5
      l2 == 8470 + Rnd(20 * p, 10000)
      k3 == M(b.k2, b.rr)
      q == Rnd((3 * a2) - 10000, 2)               \* (3 a^2 - 1) / 2
      q3 == Rnd((15 * a2) - 30000, 2)             \* (15 a^2 - 3) / 2
      c3 == Rnd((5 * M(a2, a)) - (3 * a), 2)      \* (5 a^3 - 3 a) / 2
      d == Minus(e.lon, b.lon)
      l2k == Rnd(Rnd(3 * b.k2, 10) * l2, 10000)   \* 3 L2 K2
      h2k == Rnd(Rnd(b.k2, 10) * h2, 10000)       \* H2 K2
      l3k == Rnd(k3 * 150, 10000)
      h3k == Rnd(k3 * 2920, 10000)
      odd == M(M(M(Rnd(b.k2 * 1875, 1000000), Sin2(b.lat)), Sin2(e.lat)), d[2])
      even == M(M(M(Rnd(b.k2 * 1650, 1000000), M(b.lat[1], b.lat[1])),
                  M(e.lat[1], e.lat[1])), Sin2(d))
  IN <<M(l2k, a) + M(l3k, q3),
       (((M(h2k, q) - M(l2k, a2)) + M(h3k, c3)) - M(M(l3k, q3), a)) + odd + even>>
Disp(e) ==
  LET u == Unit(e.lat, e.lon)
      n == <<-M(e.lat[2], e.lon[1]), -M(e.lat[2], e.lon[2]), e.lat[1]>>
      s == Part(e, e.sun)
      m == Part(e, e.moon)
      us == Unit(e.sun.lat, e.sun.lon)
      um == Unit(e.moon.lat, e.moon.lon)
      k1 == -M(M(1200, Sin2(e.lat)),
               Rnd((e.gmst[2] * e.lon[1]) + (e.gmst[1] * e.lon[2]), 10000))
      pu == IF e.perm THEN M(11960, Rnd((3 * M(e.lat[2], e.lat[2])) - 10000, 2)) ELSE 0
      pn == IF e.perm THEN M(2470, Sin2(e.lat)) ELSE 0
  IN [k \in 1..3 |-> M(s[1], us[k]) + M(m[1], um[k])
                     + M(s[2] + m[2] + k1 + pu, u[k]) + M(pn, n[k])]
TideBad(e) == LET d == Disp(e)
              IN IF \E k \in 1..3 : Abs(e.out.d[k] - d[k]) > 25
                 THEN <<"displacement", d>> ELSE <<>>

\* known places: what, value, tolerance
Facts == [
  mar |-> <<"decl", 0, 20>>, jun |-> <<"decl", 2344, 10>>,
  sep |-> <<"decl", 0, 20>>, dec |-> <<"decl", -2344, 10>>,
  perih |-> <<"dist", 9833, 3>>, aph |-> <<"dist", 10167, 3>>,
  nov3 |-> <<"lon", -411, 60>>, feb11 |-> <<"lon", 355, 60>>,
  apr15 |-> <<"lon", 0, 60>>, dec25 |-> <<"lon", 0, 60>>,
  new |-> <<"apart", 0, 200>>, full |-> <<"apart", 18000, 200>>,
  perig |-> <<"moon", 356509, 1200>>, apog |-> <<"moon", 406516, 1200>>]
SkyBad(e) == LET f == Facts[e.fact]
                 v == e.out[f[1]]
             IN IF Abs(v - f[2]) > f[3] THEN <<e.fact, f>> ELSE <<>>
Why(e, bad) == IF bad = <<>> THEN e.out ELSE [why |-> bad]
TideDo(s, e) == [st |-> s, out |-> Why(e, IF e.op = "sky" THEN SkyBad(e) ELSE TideBad(e))]
TideSets == {}
TideInv(s) == TRUE
==============================================================================

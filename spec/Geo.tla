-------------------------------- MODULE Geo ----------------------------------
(* Coordinates, directions and models of delays, each of them a function of  *)
(* the arguments alone, which stay as they were.                             *)
(*                                                                           *)
(* Directions are <<cos, sin>> in 1e-4 (exact), numbers marked F are in 1e-7.*)
(*  pos   position on and above the ellipsoid, local frame, and back         *)
(*  azel  azimuth and elevation of a direction                               *)
(*  dist  distance of two points, with the turn of the earth meanwhile       *)
(*  ipp   where a ray crosses a thin spherical layer, and how obliquely (up to *)
(*        22 deg of the earth away)                                          *)
(*  dop   dilution of precision of a ring of satellites and the zenith       *)
(*  trop  zenith delays and mapping functions of the standard models         *)
(*  kf    update of a filter by one or two measurements                      *)
(*  klob  broadcast model of the ionosphere, also where the SBAS corrections *)
(*        asked for are not there                                            *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
Div(a, b) == (IF a < 0 THEN -1 ELSE 1) * (Abs(a) \div b)
Rnd(a, b) == Div(a + (IF a < 0 THEN -1 ELSE 1) * (b \div 2), b)
M(x, k) == Rnd(x * k, 10000)
One == 10000000
Pi == 31415927
Mul(x, k) == LET q == Div(x, 10000) IN (q * k) + Rnd((x - (10000 * q)) * k, 10000)
Mul7(x, k) == LET h == Div(k, 1000) IN Mul(x, h) + Rnd(Mul(x, k - (1000 * h)), 1000)
\* a / b (F), digit by digit
FDivP(a, b) == FoldLeft(LAMBDA s, k : <<(s[1] * 10) + ((s[2] * 10) \div b), (s[2] * 10) % b>>,
                        <<a \div b, a % b>>, <<1, 2, 3, 4, 5, 6, 7>>)[1]
FDiv(a, b) == (IF (a < 0) # (b < 0) THEN -1 ELSE 1) * FDivP(Abs(a), Abs(b))
\* power series
Seq1(n) == [k \in 1..n |-> k]
Ln1m(x) == -FoldLeft(LAMBDA s, k : <<s[1] + Rnd(s[2], k), Mul7(s[2], x)>>,
                     <<0, x>>, Seq1(12))[1]
Exp8(z) == FoldLeft(LAMBDA s, k : <<s[1] + Rnd(s[2], k), Rnd(Mul7(s[2], z), k)>>,
                    <<One, z>>, Seq1(8))[1]
Sq(x) == Mul7(x, x)
Exp(y) == Sq(Sq(Sq(Exp8(Rnd(y, 8)))))
Turn1(x) == ((x + Pi) % (2 * Pi)) - Pi
Cos(x0) == LET x == Turn1(x0) x2 == Sq(x)
           IN FoldLeft(LAMBDA s, k : LET t == -Rnd(Mul7(s[2], x2), (2 * k) * ((2 * k) - 1))
                                     IN <<s[1] + t, t>>, <<One, One>>, Seq1(11))[1]

GeoStart(c) == [x |-> 0]
Near(a, b, tol) == Abs(a - b) <= tol
NearV(a, b, tol) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Near(a[k], b[k], tol)

(* ------------------------------------------------------------- positions *)
Frame(lat, lon) ==                    \* rows east, north, up in 1e-8
  <<-lon[2] * 10000, lon[1] * 10000, 0,
    -lat[2] * lon[1], -lat[2] * lon[2], lat[1] * 10000,
    lat[1] * lon[1], lat[1] * lon[2], lat[2] * 10000>>
\* prime vertical radius, cm
Vert(lat) == LET s2 == M(lat[2], lat[2])  s4 == M(s2, s2)  s6 == M(s4, s2)
             IN 637813700 + Rnd(Mul(21348836, s2), 10) + Rnd(Mul(107188, s4), 10)
                + Rnd(60 * s6, 10000)
Ecef(lat, lon, h) ==
  LET v == Vert(lat)  p == Mul(v + h, lat[1])
  IN <<Mul(p, lon[1]), Mul(p, lon[2]),
       Mul(((v - Mul7(v, 66943)) - Rnd(Mul(v, 8), 10000)) + h, lat[2])>>
PosBad(e) ==
  LET x == Ecef(e.lat, e.lon, e.h) f == Frame(e.lat, e.lon)
  IN IF ~e.out.kept THEN <<"arguments changed">>
     ELSE IF ~NearV(e.out.xyz, x, 30) THEN <<"ecef", x>>
     ELSE IF ~NearV(e.out.deg, x, 30) THEN <<"ecef from degrees", x>>
     ELSE IF ~NearV(e.out.enu, f, 20) THEN <<"frame", f>>
     ELSE IF ~NearV(e.out.xyzt, <<f[1], f[4], f[7], f[2], f[5], f[8], f[3], f[6], f[9]>>, 20)
          THEN <<"inverse frame">>
     ELSE IF ~NearV(e.out.lat, <<e.lat[1] * 100000, e.lat[2] * 100000>>, 20) THEN <<"latitude">>
     ELSE IF e.lat[1] # 0 /\ ~NearV(e.out.lon, <<e.lon[1] * 100000, e.lon[2] * 100000>>, 20)
          THEN <<"longitude">>
     ELSE IF ~Near(e.out.h, e.h, 1) THEN <<"height">> ELSE <<>>

(* ------------------------------------------------------------ directions *)
AzelBad(e) ==
  IF ~e.out.kept THEN <<"arguments changed">>
  ELSE IF ~NearV(e.out.el, <<e.el[1] * 10000, e.el[2] * 10000>>, 2000 + (IF e.el[1] = 0 THEN 8000 ELSE 0))
       THEN <<"elevation">>
  ELSE IF e.el[1] # 0 /\ ~NearV(e.out.az, <<e.az[1] * 10000, e.az[2] * 10000>>, 50)
       THEN <<"azimuth">> ELSE <<>>
\* receiver r and difference d in km, its length l; distance in mm beyond l
DistBad(e) ==
  LET s == [k \in 1..3 |-> e.r[k] + e.d[k]]
      w == Mul7((s[1] * e.r[2]) - (s[2] * e.r[1]), 2432)
  IN IF ~e.out.kept THEN <<"arguments changed">>
     ELSE IF ~Near(e.out.w, w, 8) THEN <<"turn of the earth", w>>
     ELSE IF \E k \in 1..3 : ~Near(e.out.e[k], FDiv(e.d[k], e.l), 2) THEN <<"direction">>
     ELSE <<>>

(* ---------------------------------------------------------- pierce point *)
Minus(a, b) == <<M(a[1], b[1]) + M(a[2], b[2]), M(a[2], b[1]) - M(a[1], b[2])>>
IppBad(e) ==
  LET z == <<e.el[2], e.el[1]>>                 \* zenith angle at the receiver
      p == Minus(z, e.zi)                       \* earth's central angle
      f == Frame(e.lat, e.lon)
      F8(k) == Rnd(f[k], 10000)
      x == [k \in 1..3 |-> M(p[1], F8(6 + k))
              + M(p[2], M(e.az[1], F8(3 + k)) + M(e.az[2], F8(k)))]
  IN IF ~e.out.kept THEN <<"arguments changed">>
     ELSE IF ~NearV(e.out.x, x, 4) THEN <<"pierce point", x>>
     ELSE IF ~Near(e.out.sf, FDiv(10000, e.zi[1]), 100) THEN <<"slant factor">> ELSE <<>>

(* ------------------------------------------------------------- precision *)
\* n satellites around at elevation el, m at the zenith; squares in 1e-4
DopBad(e) ==
  LET c2 == M(e.el[1], e.el[1])  s == e.el[2]
      det == e.n * e.m * M(10000 - s, 10000 - s)
      hh == FDiv(40000, e.n * c2)
      tt == FDiv((e.n * M(s, s)) + (e.m * 10000), det)
      uu == FDiv((e.n + e.m) * 10000, det)
      q == <<hh + uu + tt, hh + uu, hh, uu>>
  IN IF ~e.out.kept THEN <<"arguments changed">>
     ELSE IF e.n + e.m < 4 THEN (IF e.out.dop = <<>> THEN <<>> ELSE <<"too few satellites">>)
     ELSE IF ~NearV(e.out.dop, q, Rnd(q[1], 1000) + 1000) THEN <<"dop", q>> ELSE <<>>

(* ------------------------------------------------------------ troposphere *)
\* average and seasonal parts at 15, 30, 45, 60, 75 deg
MopsA == [p |-> <<10132500, 10172500, 10157500, 10117500, 10130000>>,
          t |-> <<29965000, 29415000, 28315000, 27215000, 26365000>>,
          e |-> <<26310000, 21790000, 11660000, 6780000, 4110000>>,
          b |-> <<6300000, 6050000, 5580000, 5390000, 4530000>>,
          l |-> <<2770000, 3150000, 2570000, 1810000, 1550000>>]
MopsV == [p |-> <<0, -37500, -22500, -17500, -5000>>,
          t |-> <<0, 700000, 1100000, 1500000, 1450000>>,
          e |-> <<0, 8850000, 7240000, 5360000, 3390000>>,
          b |-> <<0, 250000, 320000, 810000, 620000>>,
          l |-> <<0, 330000, 460000, 740000, 300000>>]
\* mapping function (1e-9)
NmfA == <<<<1276993, 1268323, 1246540, 1219605, 1204600>>,
          <<2915370, 2915230, 2928845, 2902257, 2902491>>,
          <<62610505, 62837393, 63721774, 63824265, 64258455>>>>
NmfV == <<<<0, 12710, 26524, 34000, 41202>>,
          <<0, 21415, 30161, 72563, 117234>>,
          <<0, 90128, 43497, 847953, 1703721>>>>
NmfW == <<<<580219, 567948, 581180, 597275, 616417>>,
          <<1427527, 1513863, 1457275, 1500743, 1759908>>,
          <<43472961, 46729510, 43908931, 44626982, 54736038>>>>
At(t, lat) == LET a == Abs(lat) i == a \div 15 d == a % 15
              IN IF i < 1 THEN t[1] ELSE IF i > 4 THEN t[5]
                 ELSE Rnd((t[i] * (15 - d)) + (t[i + 1] * d), 15)
\* season: quarters of days since the beginning of the year, less those to the
\* coldest day
Season(q, q0) == Cos(((q - q0) * 43006) + Rnd((q - q0) * 595, 10000))
NmfSeason(e) == LET c == Season(e.q, 112) IN IF e.lat < 0 THEN -c ELSE c
MopsSeason(e) == Season(e.q, IF e.lat < 0 THEN 844 ELSE 112)
Mapf(s, a, b, c) == FDiv(One + FDiv(a, One + FDiv(b, One + c)),
                         s + FDiv(a, s + FDiv(b, s + c)))
Nmf(e) ==
  LET s == e.s * 1000
      H == [k \in 1..3 |-> Rnd(At(NmfA[k], e.lat) - Mul7(At(NmfV[k], e.lat), NmfSeason(e)), 100)]
      W == [k \in 1..3 |-> Rnd(At(NmfW[k], e.lat), 100)]
      dh == FDiv(One, s) - Mapf(s, 253, 54900, 11400)
  IN IF e.h < -1000 \/ e.h > 20000 \/ e.s <= 0 THEN <<0, 0>>
     ELSE <<Mapf(s, H[1], H[2], H[3]) + Mul(dh, e.h * 10), Mapf(s, W[1], W[2], W[3])>>
Saast(e) ==
  LET t == 2881600 - (65 * e.h)                  \* 1e-4 K
      pw == Exp(Mul7(52568000, Ln1m(Rnd(e.h * 22557, 100))))
      den == (One - Mul7(26600, Cos(Rnd(e.lat * 3490659, 10)))) - Rnd(28 * e.h, 10)
      ee == Exp(FDiv(Rnd(343 * t, 20) - 46840000, t - 384500))
      w == Mul7(Mul7(FDiv(12550000, t) + 500000, ee), 139079)
  IN <<FDiv(Mul7(23069676, pw), den), Rnd(w * e.hum, 100)>>
Mops(e) ==
  LET g(k) == At(MopsA[k], e.lat) - Mul7(At(MopsV[k], e.lat), MopsSeason(e))
      p == g("p")  t == g("t")  v == g("e")  b == g("b")  l == g("l")
      l1 == (10 * l) + One
      zh == Mul7(p, 22768335)
      zw == FDiv(Mul7(FDiv(Rnd(v, 10), t), 112075458), l1 - Mul7(b, 2933912))
      ln == Ln1m(FDiv(Rnd(Rnd(b, 100) * e.h, 100), t))
      p2 == FDiv(34163084, b)
  IN <<Mul7(zh, Exp(Mul7(p2, ln))), Mul7(zw, Exp(Mul7(Mul7(ln, p2), l1) - ln))>>
\* square of the mapping function of the SBAS model times its denominator
MopsMap(m, s) == Mul7(Sq(m), Rnd(s * s, 10) + 20010)
\* elevation in 0.1 deg -> sines of the raised elevations (F)
HopfD == [e0 |-> 436194, e60 |-> 1132032]
HopfW == [e0 |-> 261769, e20 |-> 436194, e36 |-> 680153]
TropBad(e) ==
  LET o == e.out  n == Nmf(e)  sa == Saast(e)  mo == Mops(e)
  IN IF ~o.kept THEN <<"arguments changed">>
     ELSE IF o.none # <<0, 0, 0, 0>> THEN <<"no model">>
     ELSE IF ~NearV(o.nmf, n, 700) THEN <<"mapping function", n>>
     ELSE IF ~NearV(o.saast, sa, 300) THEN <<"Saastamoinen", sa>>
     ELSE IF ~NearV(o.mops, mo, 300) THEN <<"MOPS", mo>>
     ELSE IF e.s >= 1000 /\ ~Near(MopsMap(o.mmap[1], e.s), 10020010, 100) THEN <<"MOPS mapping">>
     ELSE IF o.mmap[1] # o.mmap[2] THEN <<"MOPS mapping, wet">>
     ELSE IF ~NearV(o.hopf, <<23022621, 1007809>>, 300) THEN <<"Hopfield">>
     ELSE IF \E k \in DOMAIN o.hd : k \in DOMAIN HopfD /\ ~Near(Mul7(o.hd[k], HopfD[k]), One, 200)
          THEN <<"Hopfield mapping">>
     ELSE IF \E k \in DOMAIN o.hw : k \in DOMAIN HopfW /\ ~Near(Mul7(o.hw[k], HopfW[k]), One, 200)
          THEN <<"Hopfield mapping, wet">>
     ELSE <<>>

(* ------------------------------------------------------------- ionosphere *)
Poly(a, x) == a[1] + Mul7(a[2] + Mul7(a[3] + Mul7(a[4], x), x), x)
Clip(x, m) == IF x > m THEN m ELSE IF x < -m THEN -m ELSE x
Larger(a, b) == IF a > b THEN a ELSE b
Klob(e) ==                             \* <<delay in 0.1 mm, phase F>>
  LET psi == FDiv(137000, e.el + 1100000) - 220000
      phi == Clip(e.lat + (psi * e.az[1]), 4160000)
      lam == e.lon + (e.az[2] * FDiv(psi, Cos(Mul7(phi, Pi))))
      d == lam - 16170000
      d2 == IF d < -One THEN d + (2 * One) ELSE d
      pm == phi + Mul7(640000, Cos(Mul7(d2, Pi)))
      tt == ((e.tow * 100) + Rnd(Rnd(lam, 10) * 108, 25)) % 8640000     \* 0.01 s
      z == 5300000 - e.el
      sf == One + (16 * Mul7(Mul7(z, z), z))
      amp == Larger(Poly(e.a, pm), 0)
      per == Larger(Poly(e.b, pm), 72000)
      x == Mul7(62831853, FDiv(tt - 5040000, per * 100))
      x2 == Mul7(x, x)
      v == IF Abs(x) < 15700000
           THEN 5000 + Mul7(amp, One - Rnd(x2, 2) + Rnd(Mul7(x2, x2), 24)) ELSE 5000
  IN <<Mul7(Mul7(v, sf), 29979246), x>>
KlobBad(e) ==
  LET k == Klob(e)
  IN IF ~e.out.kept THEN <<"arguments changed">>
     ELSE IF e.out.m # <<e.out.d, e.out.d, e.out.d, e.out.d, 0>> THEN <<"choice of model">>
     ELSE IF Near(Abs(k[2]), 15700000, 3000) \/ Near(e.out.d, k[1], 40) THEN <<>>
     ELSE <<"delay", k>>

(* ---------------------------------------------------- measurement update *)
\* states of no variance are not estimated; one or two measurements
Sum(f, n) == FoldLeft(LAMBDA a, k : a + f[k], 0, Seq1(n))
KfBad(e) ==
  LET n == Len(e.x)  m == Len(e.v)
      on(k) == e.P[k][k] > 0
      PH == [i \in 1..n |-> [j \in 1..m |->
               Sum([k \in 1..n |-> IF on(i) /\ on(k) THEN e.P[i][k] * e.H[j][k] ELSE 0], n)]]
      S == [i \in 1..m |-> [j \in 1..m |->
               Sum([k \in 1..n |-> IF on(k) THEN e.H[i][k] * PH[k][j] ELSE 0], n) + e.R[i][j]]]
      det == IF m = 1 THEN S[1][1] ELSE (S[1][1] * S[2][2]) - (S[1][2] * S[2][1])
      adj == IF m = 1 THEN <<<<1>>>>
             ELSE <<<<S[2][2], -S[1][2]>>, <<-S[2][1], S[1][1]>>>>
      G == [i \in 1..n |-> [j \in 1..m |-> Sum([k \in 1..m |-> PH[i][k] * adj[k][j]], m)]]
      x == [i \in 1..n |-> (e.x[i] * One) + FDiv(Sum([j \in 1..m |-> G[i][j] * e.v[j]], m), det)]
      P(i, j) == (e.P[i][j] * One) - FDiv(Sum([k \in 1..m |-> G[i][k] * PH[j][k]], m), det)
  IN IF ~e.out.kept THEN <<"arguments changed">>
     ELSE IF ~NearV(e.out.x, x, 3) THEN <<"state", x>>
     ELSE IF \E i, j \in 1..n : ~Near(e.out.P[i][j], P(i, j), 3) THEN <<"covariance">>
     ELSE IF \E i, j \in 1..m : e.out.S[i][j] # S[i][j] * 10000 THEN <<"innovation covariance", S>>
     ELSE <<>>

Bad(e) == CASE e.op = "pos" -> PosBad(e)
            [] e.op = "azel" -> AzelBad(e)
            [] e.op = "dist" -> DistBad(e)
            [] e.op = "ipp" -> IppBad(e)
            [] e.op = "dop" -> DopBad(e)
            [] e.op = "trop" -> TropBad(e)
            [] e.op = "kf" -> KfBad(e)
            [] e.op = "klob" -> KlobBad(e)
GeoDo(s, e) == LET b == Bad(e) IN [st |-> s, out |-> IF b = <<>> THEN e.out ELSE [why |-> b]]
GeoSets == {}
GeoInv(s) == TRUE
==============================================================================

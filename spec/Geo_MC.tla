------------------------------- MODULE Geo_MC --------------------------------
(* Positions, directions and rays over a grid.  The local frame is a         *)
(* rotation, up is the normal of the ellipsoid, a pierce point is above the  *)
(* ground on the ray, delays get smaller with height, mapping functions get  *)
(* larger towards the horizon.                                               *)
EXTENDS Geo
Lats == {<<10000, 0>>, <<8000, 6000>>, <<6000, -8000>>, <<0, 10000>>, <<0, -10000>>,
         <<2800, 9600>>, <<2800, -9600>>}
Lons == {<<10000, 0>>, <<0, 10000>>, <<-10000, 0>>, <<-6000, 8000>>, <<2800, -9600>>}
Els == {<<8000, 6000>>, <<6000, 8000>>, <<0, 10000>>, <<9600, 2800>>, <<10000, 0>>}
Azs == {<<10000, 0>>, <<0, 10000>>, <<-8000, 6000>>, <<-2800, -9600>>, <<6000, -8000>>}
Zi == {<<8000, 6000>>, <<10000, 0>>, <<9600, 2800>>, <<6000, 8000>>}
PosEv == {[op |-> "pos", lat |-> p, lon |-> l, h |-> h] :
            p \in Lats, l \in Lons, h \in {0, 123456, -9000, 2020000000 \div 10}}
AzelEv == {[op |-> "azel", lat |-> p, lon |-> l, az |-> a, el |-> e] :
            p \in Lats, l \in Lons, a \in Azs, e \in Els}
IppEv == {[op |-> "ipp", lat |-> p, lon |-> l, az |-> a, el |-> e, zi |-> z] :
            p \in Lats \ {<<0, 10000>>, <<0, -10000>>}, l \in Lons, a \in Azs,
            e \in Els, z \in Zi}
DopEv == {[op |-> "dop", n |-> n, m |-> m, el |-> e, az |-> a, low |-> k] :
            n \in 3..6, m \in 0..3, e \in {<<8000, 6000>>, <<9600, 2800>>, <<10000, 0>>},
            a \in {0, 1}, k \in {0, 2}}
TropEv == {[op |-> "trop", lat |-> p, h |-> h, q |-> q, s |-> s, hum |-> m] :
            p \in {-90, -30, -7, 0, 14, 15, 38, 74, 75, 90}, h \in {0, 1200, 2999, -400},
            q \in {4, 112, 300, 844, 1463}, s \in {872, 5000, 10000}, m \in {0, 70}}
MCEv(s) == PosEv \union AzelEv \union {e \in IppEv : (e.zi[2] < e.el[1] /\ e.zi[2] # 0 /\ Minus(<<e.el[2], e.el[1]>>, e.zi)[1] > 9300) \/ (e.el[1] = 0 /\ e.zi[2] = 0)}
           \union {e \in DopEv : e.n + e.m < 4 \/ e.m > 0} \union TropEv
MCCf == {[x |-> 0]}
MCStart(c) == [n |-> 0]
MCDo(s, e) == [st |-> [s EXCEPT !.n = 1]]
MCBnd(s) == s.n < 1
Row(f, k) == [j \in 1..3 |-> f[(3 * k) + j]]
Dt(a, b) == M(Rnd(a[1], 10000), Rnd(b[1], 10000)) + M(Rnd(a[2], 10000), Rnd(b[2], 10000))
            + M(Rnd(a[3], 10000), Rnd(b[3], 10000))
StepP(s, e, n) ==
  CASE e.op = "pos" ->
         LET f == Frame(e.lat, e.lon)
             x == Ecef(e.lat, e.lon, e.h)  y == Ecef(e.lat, e.lon, e.h + 1000000)
         IN /\ \A i, j \in 0..2 : Near(Dt(Row(f, i), Row(f, j)), IF i = j THEN 10000 ELSE 0, 8)
            /\ \A k \in 1..3 : Near(y[k] - x[k], Rnd(f[6 + k], 100), 20)
    [] e.op = "trop" ->
         LET u == [e EXCEPT !.h = @ + 100]
         IN /\ Saast(u)[1] < Saast(e)[1] /\ Saast(u)[2] <= Saast(e)[2]
            /\ Mops(u)[1] < Mops(e)[1] /\ Mops(u)[2] < Mops(e)[2]
            /\ Near(Saast(e)[1], Mops(e)[1], 2500000)
            /\ e.s < 10000 => Nmf([e EXCEPT !.s = @ + 500])[1] < Nmf(e)[1]
            /\ e.s = 10000 => NearV(Nmf(e), <<One, One>>, 200)
    [] OTHER -> TRUE
VARIABLES xcfg, xs
INSTANCE Explore WITH Start <- MCStart, Do <- MCDo, Inv <- GeoInv,
  MCCfgs <- MCCf, MCEvents <- MCEv, MCBound <- MCBnd, StepInv <- StepP
==============================================================================

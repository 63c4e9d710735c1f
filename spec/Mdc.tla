-------------------------------- MODULE Mdc ----------------------------------
(* Wide-area ionospheric corrections of MADOCA-PPP.                          *)
(*                                                                           *)
(* A coverage message defines areas of a region: rectangles (reference,      *)
(* half widths) and circles (centre, radius).  A correction message gives    *)
(* one area polynomials of the slant delays of satellites.                   *)
(*   areas  <<region, area, shape, lat, lon, p1, p2>> in 0.01 deg; circle:   *)
(*          p1 radius in km, p2 1000 * cos(lat)                              *)
(*   corr   <<region, area, issue, time of week, {<<sat, coefficients>>}>>   *)
(*   found  <<region, area>> of the user's position, or <<-1, -1>>           *)
(* A message is about its area only, never about the area the user is in,    *)
(* and areas of different regions are different, whatever their numbers.     *)
(* A coefficient at its most negative value is not available (NA).           *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

NA == -999999999
Abs(x) == IF x < 0 THEN -x ELSE x
None == <<-1, -1>>
MdcStart(c) == [areas |-> {}, corr |-> {}, found |-> None, tow0 |-> 0]

Key(a) == <<a[1], a[2]>>
Upd(S, new) == {x \in S : Key(x) \notin {Key(y) : y \in new}} \cup new

AreaMsg(s, e) ==
  [s EXCEPT !.tow0 = (e.tow \div 3600) * 3600,
     !.areas = Upd(@, {<<e.reg>> \o e.areas[k] : k \in DOMAIN e.areas})]

Sizes == <<14, 12, 12, 10, 8, 8>>
Terms(st) == <<1, 3, 4, 6>>[st + 1]
Coef(st, c) == [k \in 1..6 |-> IF k > Terms(st) THEN 0
                  ELSE IF c[k] = -(2^(Sizes[k] - 1)) THEN NA ELSE c[k]]
CorrMsg(s, e) ==
  [s EXCEPT !.corr = Upd(@, {<<e.reg, e.area, e.iod, s.tow0 + e.dtow,
       {<<e.rows[k][1], Coef(e.stype, e.rows[k][2])>> : k \in DOMAIN e.rows}>>})]

Wrap(x) == ((x + 18000 + 72000) % 36000) - 18000
Div(a, b) == (IF a < 0 THEN -1 ELSE 1) * (Abs(a) \div b)
\* squared distance in km
Dist2(a, lat, lon) ==
  LET n == Div((lat - a[4]) * 1113, 1000)
      e == Div(Div(Wrap(lon - a[5]) * a[7], 100) * 1113, 10000)
  IN n * n + e * e
Inside(a, lat, lon, lo) ==       \* lo: certainly, otherwise possibly
  IF a[3] = 0 THEN Abs(lat - a[4]) <= a[6] /\ Abs(Wrap(lon - a[5])) <= a[7]
  ELSE LET m == (a[6] * 3) \div 100 + 3
           r == IF lo THEN a[6] - m ELSE a[6] + m
       IN r > 0 /\ Dist2(a, lat, lon) <= r * r
Certain(s, lat, lon) == {Key(a) : a \in {x \in s.areas : Inside(x, lat, lon, TRUE)}}
Possible(s, lat, lon) == {Key(a) : a \in {x \in s.areas : Inside(x, lat, lon, FALSE)}}
FindOk(s, lat, lon, r) ==
  \/ r \in Possible(s, lat, lon)
  \/ r = None /\ Certain(s, lat, lon) = {}

AreaOf(s) == CHOOSE a \in s.areas : Key(a) = s.found
DLat(s, e) == e.lat - AreaOf(s)[4]
DLon(s, e) == Wrap(e.lon - AreaOf(s)[5])
\* slant delay in 1e-4 TECU
Stec(c, x, y) ==
  IF NA \in {c[k] : k \in 1..6} THEN NA
  ELSE 500 * c[1] + 2 * c[2] * x + 2 * c[3] * y
       + Div(Div(c[4] * x, 2) * y, 25) + Div(c[5] * x * x, 200) + Div(c[6] * y * y, 200)
CorrOf(s) == LET C == {c \in s.corr : Key(c) = s.found}
             IN IF C = {} THEN {} ELSE (CHOOSE c \in C : TRUE)[5]
GetBad(s, e) ==
  LET W == {<<r[1], Stec(r[2], DLat(s, e), DLon(s, e))>> : r \in CorrOf(s)}
  IN IF e.out.d # <<DLat(s, e), DLon(s, e)>> THEN <<"offset", DLat(s, e), DLon(s, e)>>
     ELSE IF {x[1] : x \in ToSet(e.out.stec)} # {w[1] : w \in W} THEN <<"satellites", W>>
     ELSE IF \E x \in ToSet(e.out.stec), w \in W : x[1] = w[1] /\ Abs(x[2] - w[2]) > 100
     THEN <<"delay", W>> ELSE <<>>

\* all corrections, one row per satellite and one for the message itself
Rows(s) == UNION {{<<c[1], c[2], c[3], c[4], 0>>}
                  \cup {<<c[1], c[2], c[3], c[4], r[1]>> \o r[2] : r \in c[5]} : c \in s.corr}
\* a frame: messages one after another
Msg(s, m) == IF m.op = "area" THEN AreaMsg(s, m) ELSE CorrMsg(s, m)
Frame(s, ms) == FoldLeft(LAMBDA a, m : Msg(a, m), s, ms)

Why(e, bad) == IF bad = <<>> THEN e.out ELSE [why |-> bad]
MdcDo(s, e) ==
  CASE e.op = "frame" -> LET n == Frame(s, e.m)
                         IN [st |-> n, out |-> [areas |-> n.areas, corr |-> Rows(n)]]
    [] e.op = "find" ->
         [st |-> [s EXCEPT !.found = e.out.r],
          out |-> Why(e, IF FindOk(s, e.lat, e.lon, e.out.r) THEN <<>>
                         ELSE <<"area", Possible(s, e.lat, e.lon)>>)]
    [] e.op = "get" -> [st |-> s, out |-> Why(e, GetBad(s, e))]
MdcSets == {"areas", "corr"}
MdcInv(s) == /\ \A a, b \in s.areas : Key(a) = Key(b) => a = b
             /\ \A a, b \in s.corr : Key(a) = Key(b) => a = b
             /\ s.found # None => s.found \in {Key(a) : a \in s.areas}
==============================================================================

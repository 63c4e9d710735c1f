-------------------------------- MODULE Slas ---------------------------------
(* Corrections of pseudoranges broadcast by QZSS (SLAS, types 47..51).       *)
(*                                                                           *)
(* A mask names the satellites by its set slots, in their order; the issue   *)
(* of the mask is IODP.  Issues of data (type 49, with the issue IODI) and   *)
(* corrections of a reference station (type 50, of both issues) refer to     *)
(* places 1..23 of the mask.  A reserved slot holds a place without a        *)
(* satellite.  The corrections used are those of the nearest station.        *)
(* Positions are in units of 0.005 degrees, the longitude from 115 degrees,  *)
(* heights in units of 50 m from -100 m; corrections in 0.04 m.              *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Slot(k) == IF k \in 1..64 THEN (IF k <= 32 THEN 1000 + k ELSE 0)
           ELSE IF k \in 65..73 THEN 5000 + 192 + k - 64
           ELSE IF k \in 74..109 THEN (IF k <= 105 THEN 2000 + k - 73 ELSE 0)
           ELSE IF k \in 110..145 THEN 3000 + k - 109
           ELSE 4000 + k - 145
Tmax == 120
Stations == {<<0, 8630, 5244, 3>>, <<1, 7654, 5148, 6>>, <<3, 7316, 5110, 5>>,
  <<5, 7280, 4282, 3>>, <<6, 6942, 4008, 6>>, <<7, 6870, 3490, 3>>,
  <<8, 6720, 3046, 3>>, <<9, 6110, 3188, 4>>, <<10, 5684, 2938, 3>>,
  <<11, 5230, 2538, 4>>, <<12, 4946, 2070, 4>>, <<13, 4874, 1826, 4>>,
  <<14, 5418, 5438, 4>>}
Put(S, r) == {x \in S : x[1] # r[1]} \cup {r}
Get(S, k) == CHOOSE x \in S : x[1] = k
Has(S, k) == \E x \in S : x[1] = k

\* net: <<station, satellite, issue of data, correction, time, issue of mask>>
SlStart(c) == [iodp |-> -1, mask |-> <<>>, piodp |-> -1, pmask |-> <<>>,
               iodi |-> -1, iod |-> {}, net |-> {}, pos |-> Stations,
               svh |-> <<>>]

Members(m) == {m[i] : i \in DOMAIN m} \ {0}
DoMask(s, e) ==
  LET m == [i \in DOMAIN e.slots |-> Slot(e.slots[i])]
      n == [s EXCEPT !.iodp = e.iodp, !.mask = m]
  IN  IF e.iodp = s.iodp THEN n
      ELSE [n EXCEPT !.piodp = s.iodp, !.pmask = s.mask, !.iodi = -1, !.iod = {}]

\* e.places: set places of the mask of the message, e.v: their values
At(s, p) == IF p <= Len(s.mask) THEN s.mask[p] ELSE 0
Pairs(s, e) == {<<At(s, e.places[i]), e.v[i]>> : i \in DOMAIN e.places}
Data(s, e) == {x \in Pairs(s, e) : x[1] # 0}
DoIod(s, e) == IF e.iodp # s.iodp THEN s
               ELSE [s EXCEPT !.iodi = e.iodi, !.iod = Data(s, e)]
Others(s, c) == {x \in s.net : x[1] # c}
DoCorr(s, e) ==
  IF e.h = 1 THEN [s EXCEPT !.net = Others(s, e.code)]
  ELSE IF e.iodp # s.iodp \/ e.iodi # s.iodi THEN s
  ELSE [s EXCEPT !.net = Others(s, e.code) \cup
         {<<e.code, x[1], Get(s.iod, x[1])[2], x[2], e.t, e.iodp>> :
            x \in {y \in Data(s, e) : Has(s.iod, y[1])}}]
DoLoc(s, e) == [s EXCEPT !.pos =
   FoldLeft(LAMBDA Q, r : IF r[1] = 63 THEN Q ELSE Put(Q, r), @, e.rows)]
DoSvh(s, e) == [s EXCEPT !.svh = e.slots]

\* the nearest station; cosl: 1000 times the cosine of the latitude
Dist(r, e) == LET a == r[2] - e.lat  b == ((r[3] - e.lon) * e.cosl) \div 1000
              IN  a*a + b*b
Near(s, e) == (CHOOSE r \in s.pos : \A q \in s.pos : Dist(r, e) <= Dist(q, e))[1]
Fresh(s, e) == {x \in s.net : x[1] # Near(s, e) \/ e.t - x[5] <= Tmax}
\* corrections of the present mask, or of the one before
Usable(s, e) == {<<x[2], x[3], x[4], x[5]>> :
   x \in {y \in Fresh(s, e) : /\ y[1] = Near(s, e)
                              /\ \/ y[6] = s.iodp
                                 \/ (y[6] = s.piodp /\ y[2] \in Members(s.pmask))}}

SlNext(s, e) ==
  CASE e.op = "mask" -> DoMask(s, e)
    [] e.op = "iod" -> DoIod(s, e)
    [] e.op = "corr" -> DoCorr(s, e)
    [] e.op = "loc" -> DoLoc(s, e)
    [] e.op = "svh" -> DoSvh(s, e)
    [] e.op = "use" -> IF s.iodp < 0 THEN s ELSE [s EXCEPT !.net = Fresh(s, e)]
    [] e.op = "null" -> s
View(s) == [iodp |-> s.iodp, sats |-> Members(s.mask), iodi |-> s.iodi,
            svh |-> s.svh, pos |-> s.pos,
            net |-> {SubSeq(x, 1, 5) : x \in s.net}]
SlDo(s, e) == LET n == SlNext(s, e) IN
  [st |-> n, out |-> IF e.op # "use" THEN View(n)
                     ELSE IF s.iodp < 0 THEN [code |-> -1, use |-> {}]
                     ELSE [code |-> Near(s, e), use |-> Usable(s, e)]]
SlSets == {"sats", "pos", "net", "use"}

SlInv(s) ==
  /\ \A x, y \in s.net : (x[1] = y[1] /\ x[2] = y[2]) => x = y
  /\ \A x, y \in s.net : x[1] = y[1] => (x[5] = y[5] /\ x[6] = y[6])
  /\ \A x \in s.net : x[2] # 0 /\ x[1] # 63
  /\ \A x \in s.iod : x[1] \in Members(s.mask)
  /\ s.iodi = -1 => s.iod = {}
  /\ \A x, y \in s.pos : x[1] = y[1] => x = y
==============================================================================

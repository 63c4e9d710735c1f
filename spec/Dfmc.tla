-------------------------------- MODULE Dfmc ---------------------------------
(* SBAS L5 (DFMC) messages, the same carried by QZSS TVS, and PPP via        *)
(* SouthPAN (PVS).                                                           *)
(*                                                                           *)
(* Satellites are 1000*system + PRN (1 GPS 2 GLO 3 GAL 4 BDS 5 QZS 6 SBAS).  *)
(* The mask (type 31) is the sequence of the satellites of its set slots;    *)
(* integrity messages (34..36) refer to places of the mask whose issue they  *)
(* carry; corrections (type 32) name the slot itself.  Integers wider than   *)
(* 30 bits are pairs.  Corrections of the position are stored with the sign  *)
(* with which they are subtracted.                                           *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

DAY == 86400
Slot(k) == IF k \in 1..32 THEN 1000 + k
           ELSE IF k \in 38..69 THEN 2000 + k - 37
           ELSE IF k \in 75..110 THEN 3000 + k - 74
           ELSE IF k \in 120..158 THEN 6000 + k
           ELSE IF k \in 159..195 THEN 4000 + k - 158
           ELSE IF k \in 197..205 THEN 5000 + k - 4 ELSE 0
Tod(tod, t) == LET c == (t - (t % DAY)) + tod IN
               IF c - t > DAY \div 2 THEN c - DAY
               ELSE IF t - c > DAY \div 2 THEN c + DAY ELSE c
Cov(E) ==  \* C = R'R; E = <<11, 22, 33, 44, 12, 13, 14, 23, 24, 34>>
  LET R == << <<E[1], E[5], E[6], E[7]>>, <<0, E[2], E[8], E[9]>>,
              <<0, 0, E[3], E[10]>>, <<0, 0, 0, E[4]>> >>
      C(i, j) == R[1][i]*R[1][j] + R[2][i]*R[2][j] + R[3][i]*R[3][j]
                 + R[4][i]*R[4][j]
  IN  <<C(1,1), C(1,2), C(1,3), C(1,4), C(2,2), C(2,3), C(2,4), C(3,3),
        C(3,4), C(4,4)>>
Put(S, r) == {x \in S : x[1] # r[1]} \cup {r}
Get(S, k) == CHOOSE x \in S : x[1] = k
Has(S, k) == \E x \in S : x[1] = k

\* cfg.k: "L5" (also for TVS) or "PVS"
DStart(c) == [k |-> c.k, iod |-> -1, sats |-> {}, mask |-> <<>>, piod |-> -1,
              psats |-> {}, iodc |-> -1, corr |-> {}, dfrei |-> {}, cov |-> {},
              iodg |-> -1, eph |-> <<>>, eph2 |-> <<>>, alm |-> {},
              obad |-> <<>>]

DoMask(s, e) ==
  LET m == [i \in DOMAIN e.slots |-> Slot(e.slots[i])]
      n == [s EXCEPT !.iod = e.iodm, !.mask = m, !.sats = {m[i] : i \in DOMAIN m}]
  IN  IF e.iodm = s.iod THEN n
      ELSE [n EXCEPT !.piod = s.iod, !.psats = s.sats]

\* v: dx dy dz db, dvx dvy dvz ddb; PVS: only every second time is used
Row(x, e, T) == <<x, e.iodn, 0-e.v[1], 0-e.v[2], 0-e.v[3], e.v[4],
                  0-e.v[5], 0-e.v[6], 0-e.v[7], e.v[8], T>>
DoCorr(s, e) ==
  LET x == Slot(e.slot)
      T == Tod(16*e.t0, e.t)
      y == IF x \div 1000 = 5 /\ s.k = "PVS" THEN 0 ELSE x
  IN  IF y = 0 \/ (s.k = "PVS" /\ e.t0 % 2 = 0) THEN s
      ELSE IF s.k = "PVS"
      THEN [s EXCEPT !.corr = Put(@, Row(x, e, T)), !.iod = 0, !.iodc = 0,
                     !.sats = @ \cup {x}]
      ELSE [s EXCEPT !.corr = Put(@, Row(x, e, T)), !.iodc = s.iod,
                     !.sats = @ \cup {x}, !.dfrei = Put(@, <<x, e.dfrei>>),
                     !.cov = Put(@, <<x, e.rc, e.scale>> \o Cov(e.e))]

\* type 34: 0 unchanged, 1 new value follows, 2 one step worse, 3 do not use
Ones(e, i) == Cardinality({j \in 1..i : e.ci[j] = 1})
Step(s, e, Q, i) ==
  LET x == s.mask[i] IN
  CASE e.ci[i] = 1 -> IF Ones(e, i) <= 7 THEN Put(Q, <<x, e.di[Ones(e, i)]>>) ELSE Q
    [] e.ci[i] = 2 -> IF Has(Q, x) /\ Get(Q, x)[2] < 14
                      THEN Put(Q, <<x, Get(Q, x)[2] + 1>>) ELSE Q
    [] e.ci[i] = 3 -> Put(Q, <<x, 15>>)
    [] OTHER -> Q
Upto(n, k) == [i \in 1..(IF n < k THEN n ELSE k) |-> i]
DoInt34(s, e) ==
  IF e.iodm # s.iod THEN s
  ELSE [s EXCEPT !.dfrei = FoldLeft(LAMBDA Q, i : Step(s, e, Q, i), @,
                                    Upto(Len(s.mask), 92))]
\* types 35 (places 1..53) and 36 (places 54..92)
DoInt35(s, e) ==
  IF e.iodm # s.iod THEN s
  ELSE LET p0 == IF e.mt = 35 THEN 0 ELSE 53 IN
    [s EXCEPT !.dfrei = FoldLeft(LAMBDA Q, i :
        IF i + p0 > Len(s.mask) THEN Q ELSE Put(Q, <<s.mask[i + p0], e.d[i]>>),
        @, Upto(Len(e.d), 53))]

\* type 37; the scale of each DFREI value in sixteenths
Tb == <<1, 2, 2, 2, 2, 4, 4, 4, 4, 4, 8, 8, 16, 48, 96>>
DoObad(s, e) == [s EXCEPT !.obad = e.h \o e.r \o
                   [i \in 1..15 |-> e.tb[i] * Tb[i]] \o <<e.tid>>]

\* SBAS satellite ephemeris: part I (39) and II (40) of one issue
DoEph1(s, e) == [s EXCEPT !.iodg = e.iodg, !.eph = <<6000 + 119 + e.sd>> \o e.v,
                          !.eph2 = <<>>]
DoEph2(s, e) ==
  IF e.iodg # s.iodg THEN s
  ELSE [s EXCEPT !.eph2 = e.v \o <<Tod(16*e.te, e.t)>>,
                 !.dfrei = Put(@, <<s.eph[1], e.dfrei>>),
                 !.cov = Put(@, <<s.eph[1], e.rc, e.scale>> \o Cov(e.e))]
DoAlm(s, e) == [s EXCEPT !.alm = FoldLeft(LAMBDA Q, r :
   IF r[1] = 0 THEN Q
   ELSE Put(Q, <<6000 + 119 + r[1], Tod(1800*r[9], e.t)>> \o SubSeq(r, 2, 8)),
   @, e.rows)]
DoChk(s, e) == [s EXCEPT !.corr = {x \in @ : ~(x[1] \in s.sats)
                                             \/ e.t - x[11] <= 120}]
\* run-length coded text of hexadecimal digits: <<digit, count>>
Text(it) == FoldLeft(LAMBDA q, r : q \o [i \in 1..r[2] |-> r[1]], <<>>, it)

DNext(s, e) ==
  CASE e.op = "mask" -> DoMask(s, e)
    [] e.op = "corr" -> DoCorr(s, e)
    [] e.op = "int34" -> DoInt34(s, e)
    [] e.op = "int35" -> DoInt35(s, e)
    [] e.op = "obad" -> DoObad(s, e)
    [] e.op = "eph1" -> DoEph1(s, e)
    [] e.op = "eph2" -> DoEph2(s, e)
    [] e.op = "alm" -> DoAlm(s, e)
    [] e.op = "chk" -> DoChk(s, e)
    [] e.op \in {"other", "sinca"} -> s
PView(s) == [iod |-> s.iod, sats |-> s.sats, iodc |-> s.iodc, corr |-> s.corr]
View(s) == [iod |-> s.iod, sats |-> s.sats, piod |-> s.piod, psats |-> s.psats,
            iodc |-> s.iodc, corr |-> s.corr, dfrei |-> s.dfrei, cov |-> s.cov,
            eph |-> s.eph, eph2 |-> s.eph2, alm |-> s.alm, obad |-> s.obad]
DDo(s, e) == LET n == DNext(s, e) IN
  [st |-> n, out |-> IF e.op = "sinca"
                     THEN [txt |-> Text(e.items), T |-> e.t]
                     ELSE IF s.k = "PVS" THEN PView(n) ELSE View(n)]
DSets == {"sats", "psats", "corr", "dfrei", "cov", "alm"}

One(S) == \A x, y \in S : x[1] = y[1] => x = y
DInv(s) ==
  /\ \A S \in {s.corr, s.dfrei, s.cov, s.alm} : One(S)
  /\ \A x \in s.corr : x[1] # 0
  /\ s.eph2 # <<>> => s.eph # <<>>
  /\ \A x \in s.dfrei : x[2] \in 0..15
  /\ 0 \notin s.sats
==============================================================================

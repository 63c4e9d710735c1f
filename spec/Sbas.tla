-------------------------------- MODULE Sbas ---------------------------------
(* SBAS L1 messages (DO-229): PRN mask, fast, long-term, integrity and       *)
(* degradation data, GEO navigation and almanac, ionospheric grid, service   *)
(* regions and clock-ephemeris covariances.                                  *)
(*                                                                           *)
(* Satellites are 1000*system + PRN (1 GPS, 2 GLO, 6 SBAS).  *)
(* A mask is the sequence of its set slots; a reserved slot has a place but  *)
(* no satellite (0).  Data refer to places of the mask whose issue (IODP)    *)
(* they carry.  Values are the transmitted integers; corrections of the      *)
(* position are stored with the sign with which they are subtracted.         *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

DAY == 86400
Slot(k) == IF k \in 1..32 THEN 1000 + k
           ELSE IF k \in 38..61 THEN 2000 + k - 37
           ELSE IF k \in 120..158 THEN 6000 + k ELSE 0
\* time of day -> time, within half a day of t
Tod(tod, t) == LET c == (t - (t % DAY)) + tod IN
               IF c - t > DAY \div 2 THEN c - DAY
               ELSE IF t - c > DAY \div 2 THEN c + DAY ELSE c

SStart(c) == [iodp |-> -1, mask |-> <<>>, iodc |-> -1, fast |-> {},
              udrei |-> {}, ai |-> {}, long |-> {}, cov |-> {}, alm |-> {},
              nav |-> <<>>, deg |-> <<>>, serv |-> <<>>, igp |-> {},
              iodi |-> -1, ref |-> 0]

In(s, x) == \E i \in 1..Len(s.mask) : s.mask[i] = x
Put(S, r) == {x \in S : x[1] # r[1]} \cup {r}
Keep(S, m) == {x \in S : \E i \in 1..Len(m) : m[i] = x[1]}
At(s, p) == IF p \in 1..Len(s.mask) THEN s.mask[p] ELSE 0

DoMask(s, e) ==
  LET m == [i \in DOMAIN e.slots |-> Slot(e.slots[i])]
  IN  [s EXCEPT !.iodp = e.iodp, !.mask = m, !.fast = Keep(@, m),
                !.udrei = Keep(@, m), !.ai = Keep(@, m), !.long = Keep(@, m),
                !.cov = Keep(@, m)]

\* places p0+1 .. p0+n of the mask get the elements of rows
Places(s, S, rows, p0, R(_, _)) ==
  FoldLeft(LAMBDA Q, k : IF At(s, p0 + k) = 0 THEN Q
                         ELSE Put(Q, R(At(s, p0 + k), rows[k])),
           S, [k \in 1..Len(rows) |-> k])
Fast(s, e, p0) ==
  [s EXCEPT !.fast = Places(s, @, e.fc, p0, LAMBDA x, v : <<x, v, e.t>>),
            !.udrei = Places(s, @, e.u, p0, LAMBDA x, v : <<x, v>>)]
DoFast(s, e) == IF e.iodp # s.iodp THEN s ELSE Fast(s, e, 13 * (e.mt - 2))
DoInteg(s, e) == [s EXCEPT !.udrei = Places(s, @, e.u, 0,
                                            LAMBDA x, v : <<x, v>>)]
DoDegr(s, e) == IF e.iodp # s.iodp THEN s
                ELSE [s EXCEPT !.ai = Places(s, @, e.a, 0,
                                             LAMBDA x, v : <<x, v>>)]

\* long-term rows <<place, iodn, dx, dy, dz, daf0, rates of the four>>
LongRow(s, r, t) ==
  IF At(s, r[1]) = 0 THEN s
  ELSE [s EXCEPT !.long = Put(@, <<At(s, r[1]), r[2], 0-r[3], 0-r[4], 0-r[5],
                                   r[6], 0-r[7], 0-r[8], 0-r[9], r[10], t>>)]
Half(s, h, t) ==
  IF h.iodp # s.iodp THEN s
  ELSE [FoldLeft(LAMBDA q, r : LongRow(q, r, IF h.vc = 1 THEN Tod(16*h.toa, t)
                                             ELSE t), s, h.rows)
        EXCEPT !.iodc = h.iodp]
DoLong(s, e) == FoldLeft(LAMBDA q, h : Half(q, h, e.t), s, e.halves)
\* type 24: fast corrections of block blk, then one half
DoMixed(s, e) == IF e.iodp # s.iodp THEN s
                 ELSE Half(Fast(s, e, 13 * e.blk), e.half, e.t)

\* covariance C = R'R; E = <<11, 22, 33, 44, 12, 13, 14, 23, 24, 34>>
RM(E) == << <<E[1], E[5], E[6], E[7]>>, <<0, E[2], E[8], E[9]>>,
            <<0, 0, E[3], E[10]>>, <<0, 0, 0, E[4]>> >>
Cij(R, i, j) == R[1][i]*R[1][j] + R[2][i]*R[2][j] + R[3][i]*R[3][j]
                + R[4][i]*R[4][j]
Cov(E) == LET R == RM(E) IN
   <<Cij(R,1,1), Cij(R,1,2), Cij(R,1,3), Cij(R,1,4), Cij(R,2,2), Cij(R,2,3),
     Cij(R,2,4), Cij(R,3,3), Cij(R,3,4), Cij(R,4,4)>>
DoCov(s, e) ==
  IF e.iodp # s.iodp THEN s
  ELSE [s EXCEPT !.cov = FoldLeft(LAMBDA Q, r :
          IF At(s, r.p) = 0 THEN Q
          ELSE Put(Q, <<At(s, r.p), r.scale>> \o Cov(r.e)), @, e.rows)]

\* GEO navigation, almanac, degradation, service
\* prn 0: the caller does not say; the satellite named last is meant
DoNav(s, e) ==
  LET p == IF e.prn = 0 THEN s.ref ELSE e.prn IN
  IF p = 0 THEN s
  ELSE [s EXCEPT !.ref = p,
                 !.nav = <<6000 + p, Tod(16*e.t0, e.t), e.ura>> \o e.v]
DoAlm(s, e) == [s EXCEPT !.alm = FoldLeft(LAMBDA Q, r :
   IF r[1] = 0 THEN Q
   ELSE Put(Q, <<6000 + r[1], Tod(64*e.ta, e.t)>> \o SubSeq(r, 2, 8)),
   @, e.rows)]

(* Ionospheric grid: bands 0..10; the k-th point (from 0) of a band.         *)
P0 == <<-85, -75, -65>> \o [i \in 1..23 |-> -60 + 5*i] \o <<65, 75, 85>>
Special(b, c) == b < 8 /\ c = b - (b % 2)
ColSeq(b, c) == IF c % 2 = 1 THEN SubSeq(P0, 4, 26)
                ELSE IF Special(b, c)
                THEN (IF b % 2 = 0 THEN SubSeq(P0, 2, 29) ELSE SubSeq(P0, 1, 28))
                ELSE SubSeq(P0, 2, 28)
Col(b, c) == [i \in 1..Len(ColSeq(b, c)) |->
                <<ColSeq(b, c)[i], -180 + 40*b + 5*c>>]
Row(la, lo0, d) == [i \in 1..(360 \div d) |-> <<la, lo0 + d*(i - 1)>>]
Grid == [b \in 0..10 |->
  IF b < 9 THEN Col(b, 0) \o Col(b, 1) \o Col(b, 2) \o Col(b, 3)
                \o Col(b, 4) \o Col(b, 5) \o Col(b, 6) \o Col(b, 7)
  ELSE LET g == IF b = 9 THEN 1 ELSE -1 IN
       Row(60*g, -180, 5) \o Row(65*g, -180, 10) \o Row(70*g, -180, 10)
       \o Row(75*g, -180, 10) \o Row(85*g, IF b = 9 THEN -180 ELSE -170, 30)]

\* a band of the store: [b, iodi, idx, pt], pt the <<delay, GIVEI>> of each
\* masked point; 511 and 15 are the do-not-use indications
NOPT == <<0, 15>>
DoIgp(s, e) ==
  LET old == {x \in s.igp : x.b = e.band}
      new == [b |-> e.band, iodi |-> e.iodi, idx |-> e.idx,
              pt |-> [i \in DOMAIN e.idx |-> NOPT]]
      same == \E x \in old : x.iodi = e.iodi /\ x.idx = e.idx
  IN  [s EXCEPT !.iodi = e.iodi,
                !.igp = IF same THEN @ ELSE (@ \ old) \cup {new}]
DoIono(s, e) ==
  [s EXCEPT !.igp = {IF x.b # e.band \/ x.iodi # e.iodi THEN x
     ELSE [x EXCEPT !.pt = [i \in DOMAIN @ |->
             IF i - 15*e.bid \in 1..15 THEN e.pts[i - 15*e.bid] ELSE @[i]]]
     : x \in @}]
Usable(s) == UNION {{<<x.b, x.idx[i], Grid[x.b][x.idx[i]+1][1],
                       Grid[x.b][x.idx[i]+1][2], x.pt[i][1], x.pt[i][2]>> :
                     i \in {j \in DOMAIN x.pt : x.pt[j][1] # 511
                                                /\ x.pt[j][2] # 15}} : x \in s.igp}

(* Vertical delay at a pierce point (tenths of a degree, |lat| < 75, not on  *)
(* the edge of a cell), in 1/80000 m: bilinear interpolation of the cell, or *)
(* interpolation in the triangle of three usable points; else none (0).      *)
Delay(s, la, lo) ==
  LET U == Usable(s)
      c == IF la \in -550..549 THEN 50 ELSE 100
      a0 == IF c = 50 THEN (la \div 50)*50 ELSE ((la - 50) \div 100)*100 + 50
      o0 == (lo \div c)*c
      o1 == IF o0 + c = 1800 THEN -1800 ELSE o0 + c
      x == ((lo - o0)*100) \div c
      y == ((la - a0)*100) \div c
      has(p, q) == \E r \in U : r[3]*10 = p /\ r[4]*10 = q
      val(p, q) == (CHOOSE r \in U : r[3]*10 = p /\ r[4]*10 = q)[5]
      sw == has(a0, o0)
      nw == has(a0+c, o0)
      se == has(a0, o1)
      ne == has(a0+c, o1)
      S == val(a0, o0)
      N == val(a0+c, o0)
      Q == val(a0, o1)
      M == val(a0+c, o1)
      X == 100 - x
      Y == 100 - y
  IN  IF sw /\ nw /\ se /\ ne THEN X*Y*S + X*y*N + x*Y*Q + x*y*M
      ELSE IF sw /\ nw /\ se
           THEN (IF x + y > 100 THEN 0 ELSE 100*(y*N + x*Q + (100-x-y)*S))
      ELSE IF sw /\ se /\ ne
           THEN (IF y > x THEN 0 ELSE 100*(X*S + y*M + (x-y)*Q))
      ELSE IF sw /\ nw /\ ne
           THEN (IF x > y THEN 0 ELSE 100*(Y*S + x*M + (y-x)*N))
      ELSE IF nw /\ se /\ ne
           THEN (IF X + Y > 100 THEN 0 ELSE 100*(X*N + Y*Q + (100-X-Y)*M))
      ELSE 0

\* corrections older than two minutes are withdrawn
DoChk(s, e) == [s EXCEPT !.long = {x \in @ : e.t - x[11] <= 120}]

SNext(s, e) ==
  CASE e.op = "mask" -> DoMask(s, e)
    [] e.op = "fast" -> DoFast(s, e)
    [] e.op = "integ" -> DoInteg(s, e)
    [] e.op = "degr" -> DoDegr(s, e)
    [] e.op = "nav" -> DoNav(s, e)
    [] e.op = "deg" -> [s EXCEPT !.deg = e.v]
    [] e.op = "alm" -> DoAlm(s, e)
    [] e.op = "igp" -> DoIgp(s, e)
    [] e.op = "mixed" -> DoMixed(s, e)
    [] e.op = "long" -> DoLong(s, e)
    [] e.op = "iono" -> DoIono(s, e)
    [] e.op = "serv" -> [s EXCEPT !.serv = e.v]
    [] e.op = "cov" -> DoCov(s, e)
    [] e.op = "chk" -> DoChk(s, e)
    [] e.op \in {"other", "delay"} -> s
View(s) == [iodp |-> s.iodp, iodc |-> s.iodc, iodi |-> s.iodi, fast |-> s.fast,
            udrei |-> s.udrei, ai |-> s.ai, long |-> s.long, cov |-> s.cov,
            alm |-> s.alm, nav |-> s.nav, deg |-> s.deg, serv |-> s.serv,
            pts |-> Usable(s)]
SDo(s, e) == LET n == SNext(s, e) IN
  [st |-> n, out |-> IF e.op = "delay" THEN [delay |-> Delay(s, e.la, e.lo)]
                     ELSE View(n)]
SSets == {"fast", "udrei", "ai", "long", "cov", "alm", "pts"}

One(S) == \A x, y \in S : x[1] = y[1] => x = y
Sats(S) == {x[1] : x \in S}
SInv(s) ==
  /\ \A S \in {s.fast, s.udrei, s.ai, s.long, s.cov, s.alm} : One(S)
  \* data exist only for satellites of the mask in force
  /\ \A S \in {Sats(s.fast), Sats(s.udrei), Sats(s.ai), Sats(s.long), Sats(s.cov)} :
       \A x \in S : x # 0 /\ In(s, x)
  /\ s.iodp = -1 => s.mask = <<>>
  /\ \A x, y \in s.igp : x.b = y.b => x = y
  /\ \A x \in s.igp : Len(x.pt) = Len(x.idx)
==============================================================================

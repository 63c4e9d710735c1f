-------------------------------- MODULE Pos ----------------------------------
(* The measurement model and the filter of PPP, PPP-RTK and RTK.             *)
(*                                                                           *)
(* zd   undifferenced residuals at a given position.  What an observation    *)
(*      exceeds the geometric range (with the satellite clock and relativity)*)
(*      by is corrected, each effect once and with its sign, and nothing     *)
(*      else:                                                                *)
(*        code   P0 - trop - iono - antr - ants +- (cbias + network cbias)   *)
(*        phase  L0 - trop + iono - antr - ants - windup +- (pbias + ..)     *)
(* lin  the design matrix is the derivative of the single differences        *)
(* fix  resolved ambiguities: differences to the reference of the group      *)
(* epo  a filter fed with error-free observations keeps (finds) the truth    *)
(*                                                                           *)
(* Satellites are system * 1000 + PRN (1 G, 2 R, 3 E, 4 C, 5 J), signals     *)
(* band * 100 + attribute (0: X); lengths in 0.1 mm.                         *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC

NaN == -999999999
Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE 1
Div(a, b) == Sgn(a) * (Abs(a) \div b)        \* b > 0, towards zero
Ssum(q) == FoldLeft(LAMBDA a, x : a + x, 0, q)
Sys(x) == x \div 1000
Band(c) == c \div 100
Chan(x) == ((x % 1000) % 14) - 7

\* carrier frequency in 1.023 MHz, of GLONASS FDMA in 62.5 kHz
Frq(x, b) ==
  CASE Sys(x) = 1 -> (CASE b = 1 -> 1540 [] b = 2 -> 1200 [] b = 5 -> 1150)
    [] Sys(x) = 5 -> (CASE b = 1 -> 1540 [] b = 2 -> 1200 [] b = 5 -> 1150)
    [] Sys(x) = 3 -> (CASE b = 1 -> 1540 [] b = 5 -> 1150 [] b = 7 -> 1180)
    [] Sys(x) = 4 -> (CASE b = 2 -> 1526 [] b = 6 -> 1240 [] b = 7 -> 1180)
    [] Sys(x) = 2 -> (CASE b = 1 -> 25632 + 9 * Chan(x)
                        [] b = 2 -> 19936 + 7 * Chan(x))
\* wavelength in 0.01 mm
Lam(x, b) == IF Sys(x) = 2 THEN 479667933 \div Frq(x, b)
             ELSE 29305226 \div Frq(x, b)
\* delay of the ionosphere, of a content of v tenths of TECU
Iono(x, b, v) == IF Sys(x) = 2
  THEN (((2063360000 \div Frq(x, b)) * v) * 50) \div Frq(x, b)
  ELSE ((385081960 \div Frq(x, b)) * v) \div Frq(x, b)

\* ---------------------------------------------------------------- services
\* biases are subtracted by these, added by the others
Minus(v) == v \in {"CLAS", "BDS", "PVS", "BSX"}
\* corrections refer to the antenna phase centre of these signals (bands)
Ref(v, y) ==
  CASE v \in {"MADOCA"} -> (CASE y = 1 -> <<1, 2>> [] y = 2 -> <<1, 2>>
                              [] y = 3 -> <<1, 5>> [] y = 5 -> <<1, 5>>)
    [] v = "HAS" -> (IF y = 1 THEN <<1, 2>> ELSE <<1, 7>>)
    [] v \in {"HASI", "IGS", "RTCM"} -> (IF y = 4 THEN <<2>> ELSE <<1>>)
    [] v = "BDS" -> (IF y = 1 THEN <<1, 2>> ELSE <<6>>)
    [] v = "PVS" -> <<1, 5>>
    [] OTHER -> <<>>
SatAnt(v) == v \notin {"NONE", "CLAS"}

\* the bias of a signal: of itself, else of the combined (X) one, else none
Look(rows, x, c) ==
  LET g(k) == SelectSeq(rows, LAMBDA r : r[1] = x /\ r[2] = k)
  IN IF g(c) # <<>> THEN g(c)[1][3]
     ELSE IF g(Band(c) * 100) # <<>> THEN g(Band(c) * 100)[1][3] ELSE 0
\* GPS biases of L2P serve for L2W (HAS)
Alias(v, c, rows, x) ==
  IF v \in {"HAS", "HASI"} /\ Sys(x) = 1 /\ c = 205
     /\ (\E i \in DOMAIN rows : rows[i][1] = x /\ rows[i][2] = 204) THEN 204 ELSE c

\* the biases of a signal, base and network: a sequence of values
Terms(s, e, x, c, ph) ==
  IF s.svc = "BSX"
  THEN IF ph /\ Sys(x) = 2 THEN <<>>
       ELSE LET rows == IF ph THEN e.pb ELSE e.cb
                g == SelectSeq(rows, LAMBDA r : r[1] = x /\ r[2] = c)
            IN IF g = <<>> THEN <<NaN>> ELSE <<g[1][3]>>
  ELSE IF s.svc = "NONE" THEN <<>>
  ELSE LET b == IF ph THEN e.pb ELSE e.cb
           n == IF ph THEN e.pbn ELSE e.cbn
       IN (IF e.fl[IF ph THEN 2 ELSE 1] = 1
           THEN <<Look(b, x, Alias(s.svc, c, b, x))>> ELSE <<>>)
          \o (IF s.net = 1 /\ e.inet > 0 /\ e.fl[IF ph THEN 4 ELSE 3] = 1
              THEN <<Look(n, x, Alias(s.svc, c, n, x))>> ELSE <<>>)
Has(q) == \E i \in DOMAIN q : q[i] = NaN
Sum(q) == Ssum(q)

\* antenna offset of a band (mm): satellite (along its axis), receiver (up)
Tx(x, b) == 40 * Sys(x) + 17 * b + ((x % 1000) % 7)
Rx(base, y, b) == 50 + 9 * y + 5 * b + 11 * base
\* offset of the reference, in 1/10 mm
TxRef(v, x) ==
  LET r == Ref(v, Sys(x))
  IN IF r = <<>> THEN 0
     ELSE IF Len(r) = 1 THEN 10 * Tx(x, r[1])
     ELSE LET f1 == IF Sys(x) = 2 THEN 9 ELSE Frq(x, r[1]) \div 10
              f2 == IF Sys(x) = 2 THEN 7 ELSE Frq(x, r[2]) \div 10
              n == f1*f1*10*Tx(x, r[1]) - f2*f2*10*Tx(x, r[2])
          IN Div(n, f1*f1 - f2*f2)
\* range corrections of the antennas
AntS(v, x, b, cosn) == IF SatAnt(v) THEN -Div((10 * Tx(x, b) - TxRef(v, x)) * cosn, 10000)
                       ELSE 0
AntR(s, base, x, b, sinel) ==
  IF s.rant = 1 THEN -Div(10 * Rx(base, Sys(x), b) * sinel, 10000) ELSE 0

Used(s, e, a) ==
  /\ a.edt = 0
  /\ (s.net = 1 /\ e.inet > 0 => a.net = 1)
  /\ a.el >= s.elmin * 10
  /\ ~(\E i \in DOMAIN a.sig : Has(Terms(s, e, a.sat, a.sig[i].c, FALSE))
                               \/ Has(Terms(s, e, a.sat, a.sig[i].l, TRUE)))

Res(s, e, a, i) ==
  LET g == a.sig[i]  x == a.sat
      sgn == IF Minus(s.svc) THEN -1 ELSE 1
      io == IF s.iono = 2 /\ e.inet > 0 THEN Iono(x, Band(g.l), a.stec) ELSE 0
      wu == IF s.phw > 0 THEN Div(Lam(x, Band(g.l)) * a.wu, 100000) ELSE 0
  IN <<g.p - a.trop - io + sgn * Sum(Terms(s, e, x, g.c, FALSE))
         - AntR(s, e.base, x, Band(g.c), a.sinel) - AntS(s.svc, x, Band(g.c), a.cosn),
       g.v - a.trop + io + sgn * Sum(Terms(s, e, x, g.l, TRUE)) - wu
         - AntR(s, e.base, x, Band(g.l), a.sinel) - AntS(s.svc, x, Band(g.l), a.cosn)>>

\* observed rows <<sat, f, code, phase>> agree within 0.5 mm
Row(s, e, y, a, i) == \E k \in DOMAIN y : /\ y[k][1] = a.sat /\ y[k][2] = i
   /\ Abs(y[k][3] - Res(s, e, a, i)[1]) <= 5
   /\ Abs(y[k][4] - Res(s, e, a, i)[2]) <= 5
ZdBad(s, e) ==
  LET U == {k \in DOMAIN e.sats : Used(s, e, e.sats[k])}
      D == {e.sats[k].sat : k \in U}
      y == e.out.y
      miss == {k \in U : \E i \in DOMAIN e.sats[k].sig : ~Row(s, e, y, e.sats[k], i)}
      more == {y[k][1] : k \in DOMAIN y} \ D
  IN IF more # {} THEN <<"used", more>>
     ELSE IF miss # {} THEN
        LET k == CHOOSE k \in miss : TRUE
        IN <<"residual", e.sats[k].sat, [i \in DOMAIN e.sats[k].sig |-> Res(s, e, e.sats[k], i)]>>
     ELSE <<>>

\* ------------------------------------------------------------ design matrix
Rows(e) == LET n(y) == Cardinality({k \in DOMAIN e.list : Sys(e.list[k]) = y})
               ys == {Sys(e.list[k]) : k \in DOMAIN e.list}
           IN SumSet({2 * e.nf * (n(y) - 1) + 100000 * y : y \in ys}) - SumSet({100000 * y : y \in ys})
LinBad(s, e) == IF e.out.lin # 0 THEN <<"derivative">>
                ELSE IF e.out.rows # Rows(e) THEN <<"rows", Rows(e)>>
                ELSE IF e.out.cov # 1 THEN <<"covariance">> ELSE <<>>

\* -------------------------------------------------- resolved ambiguities
\* rows <<sat, f, x, N, eligible>>: float value in 1/1000 cycle, true integer
Group(rows, y, f) == {k \in DOMAIN rows : /\ Sys(rows[k][1]) = y /\ rows[k][2] = f
                                          /\ rows[k][5] = 1}
RefOf(rows, G) == CHOOSE k \in G : \A j \in G : rows[k][1] <= rows[j][1]
Fixed(rows, k) ==
  LET G == Group(rows, Sys(rows[k][1]), rows[k][2])
  IN IF k \in G /\ Cardinality(G) > 1
     THEN LET r == RefOf(rows, G)
          IN rows[r][3] - 1000 * (rows[r][4] - rows[k][4])
     ELSE rows[k][3]
Count(rows) == LET GS == {<<Sys(rows[k][1]), rows[k][2]>> : k \in DOMAIN rows}
                   N(g) == Cardinality(Group(rows, g[1], g[2]))
               IN FoldSet(LAMBDA g, a : a + (IF N(g) > 1 THEN N(g) - 1 ELSE 0), 0, GS)
FixBad(s, e) ==
  LET n == Count(e.rows)
  IN IF e.out.nb # (IF n = 0 THEN -1 ELSE n) THEN <<"nb", n>>
     ELSE IF n = 0 THEN <<>>
     ELSE IF \E k \in DOMAIN e.rows : e.out.x[k] # Fixed(e.rows, k)
          THEN <<"amb", [k \in DOMAIN e.rows |-> Fixed(e.rows, k)]>>
     ELSE IF Abs(e.out.pos) > 5 THEN <<"pos">> ELSE <<>>

\* the algorithm of the code: pairs to the first eligible satellite of each
\* system and signal, and the same walk when the ambiguities are restored
Pairs(rows, ys, nf) ==
  LET per(y, f) ==
        LET G == Group(rows, y, f)
            q == SetToSortSeq(G, LAMBDA a, b : rows[a][1] < rows[b][1])
        IN IF Len(q) < 2 THEN <<>> ELSE [i \in 1..(Len(q) - 1) |-> <<q[1], q[i + 1]>>]
  IN FlattenSeq([i \in 1..(Len(ys) * nf) |->
        per(ys[((i - 1) \div nf) + 1], ((i - 1) % nf) + 1)])
Restore(rows, pairs, b) ==
  [k \in DOMAIN rows |->
     LET h == {i \in DOMAIN pairs : pairs[i][2] = k}
     IN IF h = {} THEN rows[k][3]
        ELSE LET i == CHOOSE i \in h : TRUE IN rows[pairs[i][1]][3] - 1000 * b[i]]

\* ----------------------------------------------------------- propagation
\* rows <<kind, growth of the variance in 1e-6>>: 1 position 2 velocity
\* 3 zenith delay 4 ionosphere of a satellite; sg: their process noise in 1e-3
PredBad(s, e) ==
  IF \E k \in DOMAIN e.out.rows :
        LET r == e.out.rows[k] IN r[2] # e.sg[r[1]] * e.sg[r[1]] * e.dt
  THEN <<"noise">>
  ELSE IF Len(e.out.rows) # 3 + (IF s.pmode > 0 THEN 3 ELSE 0)
          + (IF s.trop = 1 THEN 1 ELSE 0)
          + (IF s.iono = 1 THEN Len(e.list) ELSE 0) THEN <<"states">>
  ELSE IF Abs(e.out.pos) > 2 THEN <<"motion">> ELSE <<>>

\* ------------------------------------------------------------------ filter
\* start: 0 the filter starts at the truth, 1 some metres off
\* nv: usable satellites
\* out: smode, pe/fe error of the (fixed) position, ze of the zenith delay in
\* 0.1 mm, ae of the ambiguities in 1/1000 cycle
Tol(s, n) == IF s.start = 0 THEN (IF s.pmode = 0 THEN 2 ELSE 60)
             ELSE IF n = 1 THEN 3000 ELSE IF n = 2 THEN 2000 ELSE 1500
EpoBad(s, e) ==
  LET n == s.n + 1 IN
  IF e.nv < 6 THEN (IF e.out.smode # 0 THEN <<"smode", 0>>
                    ELSE IF e.out.moved # 0 THEN <<"moved">> ELSE <<>>)
  ELSE IF e.out.smode \notin {4, 5} THEN <<"smode">>
  ELSE IF e.out.pe > Tol(s, n) THEN <<"pos", Tol(s, n)>>
  ELSE IF s.start = 0 /\ s.pmode = 0 /\ (e.out.ae > 2 \/ e.out.ze > 2) THEN <<"state">>
  ELSE IF e.out.smode = 4 /\ e.out.fe > Tol(s, n) THEN <<"fixpos">>
  ELSE IF e.out.smode = 4 /\ e.out.wrong # 0 THEN <<"wrong">>
  ELSE IF s.must = 1 /\ e.out.smode # 4 THEN <<"notfixed">>
  ELSE <<>>

PoStart(c) == c @@ [n |-> 0]
PoDo(s, e) ==
  LET bad == IF e.exc # "" THEN <<"exception">> ELSE CASE e.op = "zd" -> ZdBad(s, e) [] e.op = "lin" -> LinBad(s, e)
               [] e.op = "fix" -> FixBad(s, e) [] e.op = "pred" -> PredBad(s, e)
               [] e.op = "epo" -> EpoBad(s, e)
  IN [st |-> IF e.op = "epo" /\ e.nv > 5 THEN [s EXCEPT !.n = @ + 1] ELSE s,
      out |-> IF bad = <<>> THEN e.out ELSE [why |-> bad]]
PoSets == {}
PoInv(s) == s.n >= 0
==============================================================================

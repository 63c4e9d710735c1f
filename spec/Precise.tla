------------------------------- MODULE Precise -------------------------------
(* Precise products: SP3 orbits, RINEX clocks, Bias-SINEX and ANTEX files    *)
(* (peph.py, rinex.decode_clk).                                              *)
(*                                                                           *)
(* Times of orbits and clocks are milliseconds since a reference epoch,      *)
(* positions pairs <<km, mm>>, clocks picoseconds, antenna values units of   *)
(* 0.005 mm, biases 1E-4 of their unit.  A missing value is NA.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

NA == -999999999
NWIN == 11          \* interpolation window (epochs)
MARGIN == 900000    \* extrapolation limit (ms)
NOPOS == <<>>

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Row(ep, sat) == LET R == {r \in ToSet(ep.rows) : r.s = sat}
                IN IF R = {} THEN <<>> ELSE <<CHOOSE r \in R : TRUE>>

(* ------------------------------ SP3 files -------------------------------- *)
\* opt 1: without predicted values, 2: only predicted values
Keep(opt, pred) == opt = 0 \/ (opt = 1 /\ ~pred) \/ (opt = 2 /\ pred)
KeepRow(e, r) ==
  [s |-> r.s, p |-> IF Keep(e.opt, r.po) THEN r.p ELSE NOPOS, k |-> r.k,
   c |-> IF Keep(e.opt, r.pc) THEN r.c ELSE NA,
   sx |-> IF e.base[1] = 0 THEN -1 ELSE r.sx,
   sc |-> IF e.base[2] = 0 THEN -1 ELSE r.sc]
\* "zero" positions mark bad or absent orbits, 999999.999999 is no value
HasRow(r) == r.p # NOPOS \/ r.c # NA
Known(r) == r.s # 0
SomeRow(e, ep) == \E r \in ToSet(ep.rows) :
                    /\ Known(r)
                    /\ (Keep(e.opt, r.po) /\ r.p # NOPOS) \/ (Keep(e.opt, r.pc) /\ r.c # NA)
Times(tab) == [i \in DOMAIN tab |-> tab[i].t]
Rows(tab) == UNION {{<<tab[i].t, r.s, r.p, r.c, r.sx, r.sc>> :
                       r \in {x \in ToSet(tab[i].rows) :
                              HasRow(x) \/ x.sx # -1 \/ x.sc # -1}} : i \in DOMAIN tab}
Zero == <<<<0, 0>>, <<0, 0>>, <<0, 0>>>>
Sp3(s, e) ==
  LET eps == SelectSeq(e.eps, LAMBDA ep : SomeRow(e, ep))
      tab == [i \in DOMAIN eps |->
               [t |-> eps[i].t,
                rows |-> SelectSeq([j \in DOMAIN eps[i].rows |-> KeepRow(e, eps[i].rows[j])],
                                   LAMBDA r : Known(r))]]
  IN [st |-> [s EXCEPT !.orb = tab, !.lin = e.lin],
      out |-> [ts |-> Times(tab), rows |-> Rows(tab), acc |-> e.acc]]
\* writing the table and reading it back: no standard deviations, no line tags
Rewrite(s, e) ==
  LET all == ToSet(e.sats)
      ent(ep, x) == LET R == Row(ep, x) IN
        [s |-> x, k |-> IF R = <<>> THEN 0 ELSE R[1].k,
         p |-> IF R = <<>> \/ R[1].p = NOPOS THEN Zero ELSE R[1].p,
         c |-> IF R = <<>> THEN NA ELSE R[1].c, sx |-> -1, sc |-> -1]
      tab == [i \in DOMAIN s.orb |->
               [t |-> s.orb[i].t,
                rows |-> [j \in DOMAIN e.sats |-> ent(s.orb[i], e.sats[j])]]]
  IN [st |-> [s EXCEPT !.orb = tab],
      out |-> [ts |-> Times(tab), rows |-> Rows(tab)]]

(* ----------------------------- RINEX clocks ------------------------------ *)
Clk(s, e) ==
  LET all == [i \in DOMAIN e.eps |->
               [t |-> e.eps[i].t,
                rows |-> SelectSeq(e.eps[i].rows, LAMBDA r : Known(r))]]
      tab == SelectSeq(all, LAMBDA ep : ep.rows # <<>>)
  IN [st |-> [s EXCEPT !.clk = tab],
      out |-> [ts |-> Times(tab),
               rows |-> UNION {{<<tab[i].t, r.s, r.c, r.sc>> : r \in ToSet(tab[i].rows)} :
                               i \in DOMAIN tab}]]

(* -------------------------------- lookups -------------------------------- *)
\* the interval of a table used for time t: its left epoch (1-based)
Left(tab, t) ==
  LET n == Cardinality({i \in DOMAIN tab : tab[i].t < t})
  IN  Max2(1, Min2(n, Len(tab) - 1))
Within(tab, t) == tab[1].t - t <= MARGIN /\ t - tab[Len(tab)].t <= MARGIN
PosAt(tab, i, x) == LET R == Row(tab[i], x) IN
  IF R = <<>> \/ R[1].p = NOPOS \/ R[1].p = Zero THEN NOPOS ELSE R[1].p
LineAt(tab, i, x) == LET R == Row(tab[i], x) IN IF R = <<>> THEN 0 ELSE R[1].k
ClkAt(tab, i, x) == LET R == Row(tab[i], x) IN IF R = <<>> THEN NA ELSE R[1].c
StdAt(tab, i, x) == LET R == Row(tab[i], x) IN IF R = <<>> THEN -1 ELSE R[1].sc
SdxAt(tab, i, x) == LET R == Row(tab[i], x) IN IF R = <<>> THEN -1 ELSE R[1].sx

\* the window of the interpolation polynomial
First(tab, t) == Max2(1, Min2(Left(tab, t) - NWIN \div 2, Len(tab) - NWIN + 1))
Win(tab, t) == First(tab, t) .. (First(tab, t) + NWIN - 1)
OrbOk(s, t, x) == /\ Len(s.orb) >= NWIN /\ Within(s.orb, t)
                  /\ \A i \in Win(s.orb, t) : PosAt(s.orb, i, x) # NOPOS
\* clock in ps; constant outside the table, linear inside
ClkVal(tab, t, x) ==
  LET i == Left(tab, t)
      a == ClkAt(tab, i, x) b == ClkAt(tab, i + 1, x)
      ta == tab[i].t tb == tab[i + 1].t
  IN  IF t <= ta THEN a ELSE IF t >= tb THEN b
      ELSE IF a = NA \/ b = NA THEN NA
      ELSE a + ((b - a) \div ((tb - ta) \div 1000)) * ((t - ta) \div 1000)
\* rate in ps/s over the millisecond from t
ClkRate(tab, t, x) ==
  LET i == Cardinality({k \in DOMAIN tab : tab[k].t <= t})
  IN  IF i = 0 \/ i = Len(tab) THEN 0
      ELSE (ClkAt(tab, i + 1, x) - ClkAt(tab, i, x)) \div ((tab[i + 1].t - tab[i].t) \div 1000)
\* between whole seconds a value is only bounded by those of the epochs
ClkObs(tab, t, x, seen) ==
  LET i == Left(tab, t)
      a == ClkAt(tab, i, x) b == ClkAt(tab, i + 1, x)
  IN  IF t % 1000 = 0 \/ t <= tab[i].t \/ t >= tab[i + 1].t \/ a = NA \/ b = NA
      THEN ClkVal(tab, t, x)
      ELSE IF Min2(a, b) <= seen /\ seen <= Max2(a, b) THEN seen ELSE a
UseClk(s) == Len(s.clk) >= 2
ClkOk(s, t, x) == Within(s.clk, t) /\ ClkVal(s.clk, t, x) # NA

\* standard deviations: the table's value (2^k mm, 2^k ps) grown with the
\* distance from the table; units nm (clock) and 0.25 um (orbit)
ClkStd(tab, t, x) ==
  LET i == Left(tab, t)
      da == t - tab[i].t db == t - tab[i + 1].t
      j == IF da <= 0 THEN i ELSE IF db >= 0 THEN i + 1
           ELSE IF da < -db THEN i ELSE i + 1
      d == t - tab[j].t
      k == StdAt(tab, j, x)
      nm == IF k < 0 THEN 0 ELSE (2^k) * 299792 + ((2^k) * 458) \div 1000
  IN  nm + (IF d < 0 THEN -d ELSE d) * 1000
Near(a, b, d) == a - b <= d /\ b - a <= d
\* (d: whole seconds, the interval is that of the two neighbouring seconds)
OrbStd(tab, t, x, obs) ==
  LET k == SdxAt(tab, Left(tab, t), x)
      w == Win(tab, t)
      a == tab[First(tab, t)].t b == tab[First(tab, t) + NWIN - 1].t
      m == IF t < a THEN a - t ELSE IF t > b THEN t - b ELSE 0
      d == m \div 1000
      f == m % 1000
      v == (IF k < 0 THEN 0 ELSE 4000 * (2^k)) + d * d + (f * (2 * d + 1)) \div 1000
  IN  IF Near(v, obs, 2) THEN obs ELSE v

\* e.out is accepted for what the tables do not determine
Exact(s, t) == {i \in DOMAIN s.orb : s.orb[i].t = t}
OnLine(s, t, x) ==          \* the line the window lies on, 0: none
  LET K == {LineAt(s.orb, i, x) : i \in Win(s.orb, t)}
  IN  IF Cardinality(K) = 1 THEN CHOOSE k \in K : TRUE ELSE 0
Line(s, x, k) == CHOOSE l \in ToSet(s.lin) : l[1] = x /\ l[2] = k
LinePos(s, t, x) ==
  LET l == Line(s, x, OnLine(s, t, x))
  IN  [j \in 1..3 |-> l[3][j] + l[4][j] * (t \div 1000)]
LineVel(s, t, x) == Line(s, x, OnLine(s, t, x))[4]
Smooth(s, t, x) == /\ OnLine(s, t, x) # 0 /\ t % 1000 = 0
                   /\ t >= s.orb[1].t /\ t <= s.orb[Len(s.orb)].t
NOTHING == [ok |-> FALSE]

PosQ(s, e) ==               \* pephpos: position, clock of the orbit file
  LET x == e.s t == e.t o == e.out
      c == ClkVal(s.orb, t, x) IN
  IF ~OrbOk(s, t, x) THEN [st |-> s, out |-> NOTHING]
  ELSE IF ~o.ok THEN [st |-> s, out |-> [ok |-> TRUE, c |-> c]]
  ELSE [st |-> s, out |->
    [ok |-> TRUE, c |-> ClkObs(s.orb, t, x, o.c),
     p |-> IF Exact(s, t) # {}
           THEN PosAt(s.orb, CHOOSE i \in Exact(s, t) : TRUE, x) ELSE o.p,
     q |-> IF Smooth(s, t, x) THEN LinePos(s, t, x) ELSE o.q,
     sx |-> OrbStd(s.orb, t, x, o.sx),
     sc |-> IF c = NA THEN o.sc
            ELSE LET v == ClkStd(s.orb, t, x) IN IF Near(v, o.sc, 2) THEN o.sc ELSE v]]

ClkQ(s, e) ==               \* pephclk: RINEX clock
  LET x == e.s t == e.t o == e.out IN
  IF Len(s.clk) < 2 \/ ~Within(s.clk, t) \/ ClkVal(s.clk, t, x) = NA
  THEN [st |-> s, out |-> NOTHING]
  ELSE IF ~o.ok THEN [st |-> s, out |-> [ok |-> TRUE, c |-> ClkVal(s.clk, t, x)]]
  ELSE [st |-> s, out |-> [ok |-> TRUE, c |-> ClkObs(s.clk, t, x, o.c),
     sc |-> LET v == ClkStd(s.clk, t, x) IN IF Near(v, o.sc, 2) THEN o.sc ELSE v]]

\* both the epoch and the next millisecond (velocity) must be available
SatOk(s, t, x) ==
  /\ OrbOk(s, t, x) /\ OrbOk(s, t + 1, x)
  /\ UseClk(s) => /\ Within(s.clk, t) /\ Within(s.clk, t + 1)
                  /\ ClkVal(s.clk, t, x) # NA /\ ClkVal(s.clk, t + 1, x) # NA
SatQ(s, e) ==               \* peph2pos
  LET x == e.s t == e.t o == e.out
      tab == IF UseClk(s) THEN s.clk ELSE s.orb
      c == ClkVal(tab, t, x)
      n == ClkVal(tab, t + 1, x) IN
  IF ~SatOk(s, t, x) THEN [st |-> s, out |-> NOTHING]
  ELSE IF ~o.ok THEN [st |-> s, out |-> [ok |-> TRUE, c |-> c]]
  ELSE [st |-> s, out |->
    [ok |-> TRUE,
     c |-> IF o.far /\ OnLine(s, t, x) = 0 THEN o.c ELSE ClkObs(tab, t, x, o.c),
     far |-> o.far,      \* meaningless positions: their relativistic term hides the clock
     cr |-> IF c = NA \/ n = NA THEN NA ELSE IF t % 1000 # 0 THEN o.cr
            ELSE ClkRate(tab, t, x),
     p |-> IF Exact(s, t) # {}
           THEN PosAt(s.orb, CHOOSE i \in Exact(s, t) : TRUE, x) ELSE o.p,
     q |-> IF Smooth(s, t, x) THEN LinePos(s, t, x) ELSE o.q,
     v |-> IF Smooth(s, t, x) /\ Smooth(s, t + 1000, x) /\ OnLine(s, t, x) = OnLine(s, t + 1, x)
           THEN LineVel(s, t, x) ELSE o.v]]

(* --------------------------- Bias-SINEX files ---------------------------- *)
\* times <<day, second>>; <<-1, 0>> is open
Leq(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Valid(b, t) == /\ b.ts = <<-1, 0>> \/ Leq(b.ts, t)
               /\ b.te = <<-1, 0>> \/ ~Leq(b.te, t)
SysOf(x) == x \div 1000
\* receiver biases are skipped; GLONASS biases only of the requested station
Taken(e, b) == b.s # 0 /\ (SysOf(b.s) = 2 => e.site # "" /\ b.site = e.site)
Bia(s, e) ==
  LET B == SelectSeq(e.rows, LAMBDA b : Taken(e, b))
      osb == SelectSeq(B, LAMBDA b : b.k = "OSB")
      dsb == SelectSeq(B, LAMBDA b : b.k = "DSB")
  IN [st |-> [s EXCEPT !.osb = osb, !.dsb = dsb],
      out |-> [osb |-> Len(osb), dsb |-> Len(dsb)]]
FirstOf(B) == IF B = <<>> THEN <<NA, NA, "">> ELSE <<B[1].v, B[1].sd, B[1].g1>>
Osb(s, e) ==
  LET r == FirstOf(SelectSeq(s.osb, LAMBDA b : b.s = e.s /\ b.g1 = e.g /\ Valid(b, e.t)))
  IN  [st |-> s, out |-> [v |-> r[1], sd |-> r[2]]]
Dsb(s, e) ==
  LET r == FirstOf(SelectSeq(s.dsb, LAMBDA b : b.s = e.s /\ b.g2 = e.g /\ Valid(b, e.t)))
  IN  [st |-> s, out |-> [v |-> r[1], sd |-> r[2], g |-> r[3]]]

(* ---------------------------- ANTEX files -------------------------------- *)
\* antennas: s (0: receiver), type, ts/te, z (first, last, step of the zenith
\* grid, half degrees), fr: sequence of <<system, band, <<n, e, u>>, <<values>>>>
IsRx(a) == a.s = 0
\* satellites: x, y, z as printed; receivers: east, north, up
OffOf(a, f) == IF IsRx(a) THEN <<f[3][2], f[3][1], f[3][3]>> ELSE f[3]
Grid(a) == (a.z[2] - a.z[1]) \div a.z[3] + 1
Vals(a, f) == SubSeq(f[4], 1, Min2(Len(f[4]), Grid(a)))
Ant(a) == [id |-> a.id, rx |-> IsRx(a), s |-> a.s, type |-> a.type, ts |-> a.ts,
           te |-> a.te, z |-> a.z,
           off |-> [i \in DOMAIN a.fr |-> <<a.fr[i][1], a.fr[i][2], OffOf(a, a.fr[i])>>],
           var |-> [i \in DOMAIN a.fr |-> <<a.fr[i][1], a.fr[i][2], Vals(a, a.fr[i])>>]]
Show(A) == [i \in DOMAIN A |-> <<A[i].s, A[i].type, A[i].z>>]
Offs(A) == UNION {{<<i, f[1], f[2], f[3]>> : f \in ToSet(A[i].off)} : i \in DOMAIN A}
Vars(A) == UNION {{<<i, f[1], f[2], f[3]>> : f \in ToSet(A[i].var)} : i \in DOMAIN A}
Atx(s, e) ==
  LET all == [i \in DOMAIN e.ants |-> Ant(e.ants[i])]
      rx == SelectSeq(all, LAMBDA a : a.rx)
      tx == IF e.only THEN <<>> ELSE SelectSeq(all, LAMBDA a : ~a.rx)
  IN [st |-> [s EXCEPT !.rx = rx, !.tx = tx],
      out |-> [rx |-> Show(rx), tx |-> Show(tx), rxoff |-> Offs(rx), rxvar |-> Vars(rx),
               txoff |-> Offs(tx), txvar |-> Vars(tx)]]
\* validity: both ends belong to the interval
ValidA(a, t) == /\ a.ts = <<-1, 0>> \/ Leq(a.ts, t)
                /\ a.te = <<-1, 0>> \/ Leq(t, a.te)
FindA(A, x, type, t) ==
  LET B == SelectSeq(A, LAMBDA a : ValidA(a, t) /\ a.s = x /\ (x = 0 => a.type = type))
  IN  IF B = <<>> THEN <<>> ELSE <<B[1]>>
Find(s, e) ==
  LET B == FindA(IF e.s = 0 THEN s.rx ELSE s.tx, e.s, e.type, e.t)
  IN  [st |-> s, out |-> [id |-> IF B = <<>> THEN 0 ELSE B[1].id]]

Has(a, y, b) == \E f \in ToSet(a.off) : f[1] = y /\ f[2] = b
HasV(a, y, b) == \E f \in ToSet(a.var) : f[1] = y /\ f[2] = b
Off(a, y, b) == (CHOOSE f \in ToSet(a.off) : f[1] = y /\ f[2] = b)[3]
Var(a, y, b) == (CHOOSE f \in ToSet(a.var) : f[1] = y /\ f[2] = b)[3]
\* substitutes when an antenna lacks a band (systems: G1 R2 E3 C4 J5 S6 I7)
SubRx(a, y, b) ==
  IF Has(a, y, b) THEN <<y, b>> ELSE
  CASE y = 1 /\ b = 5 -> <<1, 2>>
    [] y = 2 /\ b = 1 -> <<1, 1>>
    [] y = 2 /\ b \in {2, 3} -> <<1, 2>>
    [] y = 3 /\ b = 1 -> <<1, 1>>
    [] y = 3 /\ b \in {5, 6, 7, 8} -> <<1, 2>>
    [] y = 4 /\ b \in {1, 2} -> <<1, 1>>
    [] y = 4 /\ b \in {5, 6, 7, 8} -> <<1, 2>>
    [] y = 5 /\ b = 1 -> <<1, 1>>
    [] y = 5 /\ b \in {2, 5, 6} -> <<1, 2>>
    [] y = 7 /\ b = 5 -> <<1, 2>>
    [] y = 6 /\ b = 1 -> <<1, 1>>
    [] y = 6 /\ b = 5 -> <<1, 2>>
    [] OTHER -> <<y, b>>
SubTx(a, y, b) ==
  IF Has(a, y, b) THEN <<y, b>> ELSE
  CASE y = 1 /\ b = 5 -> <<1, 2>>
    [] y = 2 /\ b = 3 -> <<2, 2>>
    [] y = 4 /\ b = 8 -> <<4, 5>>
    [] OTHER -> <<y, b>>

\* phase variation at zenith angle za/4 degrees on a grid of half degrees;
\* the values are even (units of 0.01 mm), so that half steps stay integers
Pcv(a, v, za) ==
  LET lo == 2 * a.z[1] st == 2 * a.z[3]
      k == (za - lo) \div st
  IN  IF za <= lo THEN v[1]
      ELSE IF k + 1 >= Len(v) THEN v[Len(v)]
      ELSE IF (za - lo) % st = 0 THEN v[k + 1]
      ELSE v[k + 1] + ((v[k + 2] - v[k + 1]) * ((za - lo) % st)) \div st

\* the recorded values, if they are within tol of the expected ones
Close(w, e, tol) ==
  IF "d" \notin DOMAIN e.out \/ Len(w) # Len(e.out.d) THEN w
  ELSE [i \in DOMAIN w |->
        IF w[i] # NA /\ e.out.d[i] - w[i] <= tol /\ w[i] - e.out.d[i] <= tol
        THEN e.out.d[i] ELSE w[i]]

\* receiver: the offset projected on the direction (east, north, up: unit
\* vectors 1, 2, 3; 0: another direction, for antennas without offsets)
RxQ(s, e) ==
  LET a == (FindA(s.rx, 0, e.type, e.t))[1]
      val(g) == LET q == SubRx(a, g[1], g[2]) IN
        IF ~Has(a, q[1], q[2]) \/ ~HasV(a, q[1], q[2]) THEN NA
        ELSE (IF e.dir = 0 THEN 0 ELSE -(Off(a, q[1], q[2])[e.dir]))
             + Pcv(a, Var(a, q[1], q[2]), e.za)
  IN [st |-> s, out |-> [d |-> [i \in DOMAIN e.sigs |-> val(e.sigs[i])]]]

\* satellite, seen from nadir: offset from the reference point (e.ref: bands,
\* combined free of the ionosphere if two), values times e.den
Coef(e) == IF Len(e.ref) = 2 THEN e.cf ELSE <<e.den>>
RECURSIVE Ref(_, _, _)
Ref(a, e, i) ==
  IF i > Len(e.ref) THEN 0
  ELSE LET q == SubTx(a, e.ref[i][1], e.ref[i][2])
       IN  Coef(e)[i] * Off(a, q[1], q[2])[3] + Ref(a, e, i + 1)
RefOk(a, e) == \A i \in DOMAIN e.ref :
  LET q == SubTx(a, e.ref[i][1], e.ref[i][2]) IN Has(a, q[1], q[2])
TxQ(s, e) ==
  LET A == FindA(s.tx, e.s, "", e.t)
      a == A[1]
      val(g) == LET q == SubTx(a, g[1], g[2]) IN
        IF ~RefOk(a, e) \/ ~Has(a, q[1], q[2]) \/ ~HasV(a, q[1], q[2]) THEN NA
        ELSE e.den * (Pcv(a, Var(a, q[1], q[2]), e.za)
                      - (IF e.za = 0 THEN Off(a, q[1], q[2])[3] ELSE 0))
             + (IF e.za = 0 THEN Ref(a, e, 1) ELSE 0)
  IN [st |-> s, out |-> [ok |-> A # <<>>,
        d |-> IF A = <<>> THEN <<>>
              ELSE Close([i \in DOMAIN e.sigs |-> val(e.sigs[i])], e, e.den \div 20)]]
\* centre of mass from the phase centre: the radial component
ComQ(s, e) ==
  LET A == FindA(s.tx, e.s, "", e.t)
  IN [st |-> s, out |-> [ok |-> A # <<>>, r |-> IF A = <<>> THEN 0 ELSE -Ref(A[1], e, 1)]]

PStart(c) == [orb |-> <<>>, lin |-> <<>>, clk |-> <<>>, osb |-> <<>>, dsb |-> <<>>,
              rx |-> <<>>, tx |-> <<>>]
PDo(s, e) ==
  CASE e.op = "sp3" -> Sp3(s, e)
    [] e.op = "rewrite" -> Rewrite(s, e)
    [] e.op = "clk" -> Clk(s, e)
    [] e.op = "posq" -> PosQ(s, e)
    [] e.op = "clkq" -> ClkQ(s, e)
    [] e.op = "satq" -> SatQ(s, e)
    [] e.op = "bia" -> Bia(s, e)
    [] e.op = "osbq" -> Osb(s, e)
    [] e.op = "dsbq" -> Dsb(s, e)
    [] e.op = "atx" -> Atx(s, e)
    [] e.op = "find" -> Find(s, e)
    [] e.op = "rxq" -> RxQ(s, e)
    [] e.op = "txq" -> TxQ(s, e)
    [] e.op = "comq" -> ComQ(s, e)
PSets == {"rows", "rxoff", "rxvar", "txoff", "txvar"}
PInv(s) == \A i \in 2..Len(s.orb) : s.orb[i-1].t < s.orb[i].t
==============================================================================

-------------------------------- MODULE Sta ----------------------------------
(* What an RTCM decoder knows about the reference station, the network and   *)
(* the regional atmosphere, as a store that messages write.  Every message   *)
(* sets the entries it is about to the values it carries and leaves all      *)
(* others alone:                                                             *)
(*   station      reference position, antenna height, descriptors, GLONASS   *)
(*                code-phase biases, text                                    *)
(*   network      residuals of the satellites (the latest of each)           *)
(*   grid         points of the grid definition, each relative to the one    *)
(*                before                                                     *)
(*   troposphere  of a grid: mapping function, functional part, residuals    *)
(*                (of this message only: none means none)                    *)
(*   ionosphere   of a grid and a constellation: a message replaces the      *)
(*                polynomials and/or the residuals of the satellites of its  *)
(*                constellation, never those of another constellation or of  *)
(*                another grid                                               *)
(* Values are integers in the units of the standard.  A signed field at its  *)
(* most negative value means that the value is not available (NA).           *)
(* An encoder is used by the op "enc": its inputs are finer (a tenth of the  *)
(* unit); what arrives must be the nearest multiple of the unit.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NA == -999999999
StaMsgs == {1005, 1006, 1032, 1007, 1008, 1033, 1230}
ResMsgs == {1030, 1031, 1303, 1304, 1305}
SysOf == (1030 :> 1) @@ (1031 :> 2) @@ (1303 :> 4) @@ (1304 :> 3) @@ (1305 :> 5)
         @@ (96 :> 1) @@ (97 :> 2) @@ (98 :> 3) @@ (99 :> 4) @@ (100 :> 5)
SatSys(x) == x \div 1000

Start0 == [ref |-> -1, np |-> -1, non |-> -1, pos |-> <<>>, h |-> -1,
           desc |-> <<-1>>, setup |-> -1, ser |-> <<>>, rtyp |-> <<>>,
           fw |-> <<-1>>, rser |-> <<>>, glo |-> <<>>, text |-> <<-1>>,
           res |-> {}, grid |-> <<>>, ref0 |-> <<>>, trop |-> {}, ion |-> {}, rsd |-> {}]
StaStart(c) == Start0

Sv(v, n) == IF v = -(2^(n-1)) THEN NA ELSE v
Zeros(n) == [k \in 1..n |-> 0]

\* entries of a keyed set of tuples: replace those of the keys
Put(S, new, same(_)) == {x \in S : ~ same(x)} \cup new

Pos(s, f) == [s EXCEPT !.pos = f.pos, !.ref = f.ref]
Sta(s, mt, f) ==
  CASE mt = 1005 -> [Pos(s, f) EXCEPT !.non = f.non]
    [] mt = 1006 -> [Pos(s, f) EXCEPT !.non = f.non, !.h = f.h]
    [] mt = 1032 -> [Pos(s, f) EXCEPT !.np = f.np]
    [] mt = 1007 -> [s EXCEPT !.ref = f.ref, !.desc = f.desc, !.setup = f.setup]
    [] mt = 1008 -> [s EXCEPT !.ref = f.ref, !.desc = f.desc, !.setup = f.setup,
                              !.ser = f.ser]
    [] mt = 1033 -> [s EXCEPT !.ref = f.ref, !.desc = f.desc, !.setup = f.setup,
                              !.ser = f.ser, !.rtyp = f.rtyp, !.fw = f.fw,
                              !.rser = f.rser]
    [] mt = 1230 -> [s EXCEPT !.ref = f.ref,
                              !.glo = [k \in 1..4 |-> IF f.mask[k] = 1 THEN f.b[k] ELSE 0]]

\* network residuals: f.r is a sequence of <<sat, soc, sod, soh, sIc, sId>>
Res(s, f) ==
  LET sats == {f.r[k][1] : k \in DOMAIN f.r}
  IN [s EXCEPT !.ref = f.ref,
               !.res = {x \in s.res : x[1] \notin sats} \cup {f.r[k] : k \in DOMAIN f.r}]

\* grid: reference point and offsets <<dlat, dlon, dalt>>
RECURSIVE Walk(_, _, _)
Walk(p, ds, k) ==
  IF k > Len(ds) THEN <<p>>
  ELSE <<p>> \o Walk(<<p[1] + ds[k][1], p[2] + ds[k][2], p[3] + ds[k][3]>>, ds, k+1)
Grid(s, f) ==
  LET w == Walk(f.p0, f.d, 1)
  IN [s EXCEPT !.grid = [k \in DOMAIN w |->
                           <<f.gid, f.ofst + k - 1, w[k][1], w[k][2], w[k][3]>>],
               !.ref0 = f.p0]

MapW == <<11, 9, 9, 13, 6, 5>>       \* widths of the mapping function
CtW == <<13, 15, 15, 13, 15, 15>>    \* of the functional part
Arr(ofst, r, n) == Zeros(ofst) \o [k \in DOMAIN r |-> Sv(r[k], n)]
Trop(s, f) ==
  LET t == <<f.gid, [k \in 1..6 |-> Sv(f.map[k], MapW[k])],
             [k \in 1..6 |-> Sv(f.ct[k], CtW[k])],
             IF f.rmi = 1 /\ f.n > 0 THEN <<Arr(f.ofst, f.rh, f.n)>> ELSE <<>>,
             IF f.rmi = 1 /\ f.m > 0 THEN <<Arr(f.ofst, f.rw, f.m)>> ELSE <<>>>>
  IN [s EXCEPT !.trop = Put(s.trop, {t}, LAMBDA x : x[1] = f.gid)]

\* ionosphere: f.c is a sequence of <<sat, c00, c01, c10>>, f.r of
\* <<sat, residuals>>; unit of the residuals: 2^sf thousandths
Scaled(v, n, sf) == IF Sv(v, n) = NA THEN NA ELSE v * 2^sf
Iono(s, mt, f) ==
  LET y == SysOf[mt]
      mine(x) == x[1] = f.gid /\ SatSys(x[2]) = y
      CV(c) == IF f.pgi = 1 THEN <<Sv(c[2], 17), Sv(c[3], 18), Sv(c[4], 18)>>
               ELSE <<Sv(c[2], 17)>>
      RV(r) == Zeros(f.ofst) \o [k \in 1..f.ng |->
                 IF f.rlen = 0 THEN 0 ELSE Scaled(r[k], f.rlen, f.sf)]
      s1 == IF f.pmi = 1
            THEN [s EXCEPT !.ion = Put(s.ion, {<<f.gid, f.c[k][1], CV(f.c[k])>> :
                                               k \in DOMAIN f.c}, mine)]
            ELSE s
  IN IF f.rmi = 1
     THEN [s1 EXCEPT !.rsd = Put(s.rsd, {<<f.gid, f.r[k][1], RV(f.r[k][2])>> :
                                         k \in DOMAIN f.r}, mine)]
     ELSE s1

Msg(s, mt, f) ==
  CASE mt \in StaMsgs -> Sta(s, mt, f)
    [] mt \in ResMsgs -> Res(s, f)
    [] mt = 1029 -> [s EXCEPT !.text = f.text]
    [] mt = 61 -> Grid(s, f)
    [] mt = 95 -> Trop(s, f)
    [] mt \in 96..100 -> Iono(s, mt, f)

\* ------------------------------------------------------------- encoder
Near(x) == IF x = NA THEN NA ELSE (x + 5) \div 10     \* no ties in the inputs
Lost(v, n) == IF v = NA THEN -(2^(n-1)) ELSE v
NearN(x, n) == Lost(Near(x), n)
Delta(a, b) == <<Near(b[1]) - Near(a[1]), Near(b[2]) - Near(a[2]), Near(b[3]) - Near(a[3])>>
EncGrid(f) == [gid |-> f.gid, ofst |-> f.ofst,
               p0 |-> [k \in 1..3 |-> Near(f.p[1][k])],
               d |-> [k \in 1..(Len(f.p)-1) |-> Delta(f.p[k], f.p[k+1])]]
EncTrop(f) == [f EXCEPT !.map = [k \in 1..6 |-> NearN(f.map[k], MapW[k])],
                        !.ct = [k \in 1..6 |-> NearN(f.ct[k], CtW[k])],
                        !.rh = [k \in DOMAIN f.rh |-> NearN(f.rh[k], f.n)],
                        !.rw = [k \in DOMAIN f.rw |-> NearN(f.rw[k], f.m)]]
\* terms of second order are moved to the residuals: f.xy holds the position
\* of every grid point in the unit of the coefficients f.q[i] = <<xy, xx, yy>>
Quad(f, i, j) ==
  IF f.q[i] = <<>> THEN 0
  ELSE f.xy[j][1] * f.xy[j][2] * f.q[i][1] + f.xy[j][1] * f.xy[j][1] * f.q[i][2]
       + f.xy[j][2] * f.xy[j][2] * f.q[i][3]
EncIono(f) ==
  [f EXCEPT !.c = [i \in DOMAIN f.c |-> <<f.c[i][1], NearN(f.c[i][2], 17),
                                         NearN(f.c[i][3], 18), NearN(f.c[i][4], 18)>>],
            !.r = [i \in DOMAIN f.r |-> <<f.r[i][1], [j \in DOMAIN f.r[i][2] |->
                     IF f.r[i][2][j] = NA THEN -(2^17)
                     ELSE Near(f.r[i][2][j]) + Quad(f, i, j)]>>]]
Enc(mt, f) == CASE mt = 61 -> EncGrid(f) [] mt = 95 -> EncTrop(f)
                [] mt \in 96..100 -> EncIono(f)

Visible(s) == s
StaDo(s, e) ==
  IF e.op = "enc" THEN LET n == Msg(s, e.mt, Enc(e.mt, e.f))
                       IN [st |-> n, out |-> [ok |-> 1] @@ n]
  ELSE LET n == IF e.mode = "skip" \/ (e.mode = "scan" /\ e.mt \notin StaMsgs)
                THEN s ELSE Msg(s, e.mt, e.f)
       IN [st |-> n, out |-> [ok |-> 1] @@ n]
\* one entry per key
One(S, key(_)) == Cardinality({key(x) : x \in S}) = Cardinality(S)
StaInv(s) == /\ One(s.res, LAMBDA x : x[1])
             /\ One(s.trop, LAMBDA x : x[1])
             /\ One(s.ion, LAMBDA x : <<x[1], x[2]>>)
             /\ One(s.rsd, LAMBDA x : <<x[1], x[2]>>)
==============================================================================

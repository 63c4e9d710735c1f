------------------------------- MODULE RnxObs --------------------------------
(* Reading RINEX observation files.                                          *)
(*                                                                           *)
(* A history is a pair of files (rover, base), a signal selection and a      *)
(* sequence of read operations.  A file is a header (for each constellation  *)
(* the codes of its columns) and records                                     *)
(*    [flag |-> 0..6, t |-> <<second, 1e-7 s>>, sats |-> rows]               *)
(* where a row is [s |-> satellite, f |-> fields] and a field of a column is *)
(* <<millions, units, loss-of-lock digit>>, the printed number in units of   *)
(* its last printed digit; <<0, 0, 0>> is a blank field.                     *)
(* Flags 0 and 1 are observations; 2..6 are events, whose lines are not.     *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Types == <<"C", "L", "D", "S">>
NStart(c) == [hdr |-> c.hdr, req |-> c.req, rov |-> c.rov, base |-> c.base,
              i |-> 0, j |-> 0]

Sys(sat) == sat \div 1000
HdrOf(s, y) == {h \in ToSet(s.hdr) : h[1] = y}
ReqOf(s, y) == {r \in ToSet(s.req) : r[1] = y}
Cols(s, y) == (CHOOSE h \in HdrOf(s, y) : TRUE)[2]
\* requested codes of a type (in the order requested)
Want(s, y, ty) == LET R == {r \in ReqOf(s, y) : r[2] = ty} IN
  IF R = {} THEN <<>> ELSE (CHOOSE r \in R : TRUE)[3]
\* the field of a code in a row, or a blank one
Field(s, row, code) ==
  LET c == Cols(s, Sys(row.s))
      K == {k \in DOMAIN c : c[k] = code}
  IN  IF K = {} THEN <<0, 0, 0>> ELSE row.f[CHOOSE k \in K : TRUE]
Wanted(s, row) == HdrOf(s, Sys(row.s)) # {} /\ ReqOf(s, Sys(row.s)) # {}
Row(s, row) ==
  LET y == Sys(row.s)
      V(ty) == LET w == Want(s, y, ty) IN
               [k \in DOMAIN w |-> SubSeq(Field(s, row, w[k]), 1, 2)]
      w == Want(s, y, "L")
  IN <<row.s, V("C"), V("L"), V("D"), V("S"),
       [k \in DOMAIN w |-> Field(s, row, w[k])[3] % 2]>>
Obs(s, rec) == [t |-> rec.t, rows |->
   LET q == SelectSeq(rec.sats, LAMBDA r : Wanted(s, r))
   IN  [k \in DOMAIN q |-> Row(s, q[k])]]
None == [t |-> <<-1, 0>>, rows |-> <<>>]

IsObs(rec) == rec.flag \in {0, 1}
Left(f, i) == {k \in (i+1)..Len(f) : IsObs(f[k])}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

Next1(s) ==
  LET L == Left(s.rov, s.i) IN
  IF L = {} THEN [st |-> [s EXCEPT !.i = Len(s.rov)], out |-> None]
  ELSE LET k == MinOf(L) IN
       [st |-> [s EXCEPT !.i = k], out |-> Obs(s, s.rov[k])]

\* within 0.1 s
Abs(x) == IF x < 0 THEN -x ELSE x
Same(a, b) == LET d == a[1] - b[1] IN
  d \in -1..1 /\ Abs(d * 10000000 + a[2] - b[2]) <= 1000000
Pairs(s) == {<<i, j>> \in Left(s.rov, s.i) \X Left(s.base, s.j) :
               Same(s.rov[i].t, s.base[j].t)}
First(P) == CHOOSE p \in P : \A q \in P : p[1] <= q[1] /\ p[2] <= q[2]
Sync(s) ==
  IF Pairs(s) = {}
  THEN [st |-> [s EXCEPT !.i = Len(s.rov), !.j = Len(s.base)],
        out |-> [t |-> <<-1, 0>>, tb |-> <<-1, 0>>]]
  ELSE LET p == First(Pairs(s)) IN
       [st |-> [s EXCEPT !.i = p[1], !.j = p[2]],
        out |-> [t |-> s.rov[p[1]].t, tb |-> s.base[p[2]].t]]

\* substitution of signals the file does not have
Attr(c) == SubSeq(c, 3, 3)
SubstClass(y, code) ==
  LET b == SubSeq(code, 2, 2)  a == SubSeq(code, 3, 3) IN
  CASE y = 1 /\ b \in {"1", "2"} -> IF a \in {"C", "W"} THEN {"C", "W"} ELSE {"S", "L", "X"}
    [] y = 1 /\ b = "5" -> {"I", "Q", "X"}
    [] y = 3 /\ b \in {"5", "7", "8"} -> {"I", "Q", "X"}
    [] y = 3 /\ b \in {"1", "6"} -> {"B", "C", "X"}
    [] y = 5 /\ b \in {"1", "2", "6"} -> {"S", "L", "X"}
    [] y = 5 /\ b = "5" -> {"I", "Q", "X"}
    [] y = 4 /\ b \in {"1", "5", "7"} -> {"P", "X"}
    [] OTHER -> {}
Avail(s, y) == IF HdrOf(s, y) = {} THEN {} ELSE ToSet(Cols(s, y))
Alts(s, y, code) == {SubSeq(code, 1, 2) \o a : a \in SubstClass(y, code)} \cap Avail(s, y)
SubOk(s, y, code, new) ==
  IF HdrOf(s, y) = {} \/ code \in Avail(s, y) \/ Alts(s, y, code) = {}
  THEN new = code ELSE new \in Alts(s, y, code)
Match(s, old, new) ==
  /\ Len(old) = Len(new)
  /\ \A k \in DOMAIN old :
       /\ old[k][1] = new[k][1] /\ old[k][2] = new[k][2]
       /\ Len(old[k][3]) = Len(new[k][3])
       /\ \A m \in DOMAIN old[k][3] : SubOk(s, old[k][1], old[k][3][m], new[k][3][m])
Subst(s, e) ==
  IF Match(s, s.req, e.out.req) THEN [st |-> [s EXCEPT !.req = e.out.req], out |-> e.out]
  ELSE [st |-> s, out |-> [req |-> s.req]]

----------------------------------------------------------------------------
(* Header values besides the observation types: position, eccentricity      *)
(* (printed height, east, north; kept east, north, up), equipment, first and *)
(* last epoch, GLONASS channels.                                             *)
HdrMeta(e) ==
  [pos |-> e.pos, ecc |-> <<e.hen[2], e.hen[3], e.hen[1]>>,
   ant |-> e.ant, rcv |-> e.rcv, ts |-> e.ts, te |-> e.te,
   glo |-> UNION {{<<x[1], x[2]>>} : x \in ToSet(e.glo)}]

(* Writing: tab is a sequence of [y |-> constellation, w |-> codes without   *)
(* type, ty |-> types]; the columns are those of the first code, in the      *)
(* order C, L, D, S, then of the second, ...; a row is                       *)
(* [s |-> satellite, v |-> <<P, L, D, S>>, lli]; <<-999999999, 0>> is NaN.   *)
(* The file has the written values in these columns (missing ones blank),    *)
(* and reading the file yields the rows.                                     *)
WTypes(t) == SelectSeq(Types, LAMBDA ty : ty \in ToSet(t.ty))
WCols(t) == LET ty == WTypes(t)  n == Len(ty) IN
  [k \in 1..(n * Len(t.w)) |-> ty[((k - 1) % n) + 1] \o t.w[((k - 1) \div n) + 1]]
TabOf(tab, y) == CHOOSE t \in ToSet(tab) : t.y = y
TypeIx(ty) == CHOOSE k \in 1..4 : Types[k] = ty
WVal(x) == IF x[1] = -999999999 THEN <<0, 0>> ELSE x
WFields(tab, r) ==
  LET t == TabOf(tab, Sys(r.s))  ty == WTypes(t)  n == Len(ty) IN
  [k \in 1..(n * Len(t.w)) |->
     LET y == ty[((k - 1) % n) + 1]  m == ((k - 1) \div n) + 1
         x == WVal(r.v[TypeIx(y)][m])
     IN <<x[1], x[2], IF y = "L" /\ x # <<0, 0>> THEN r.lli[m] ELSE 0>>]
WRead(tab, r) ==
  LET t == TabOf(tab, Sys(r.s))
      V(k) == IF Types[k] \in ToSet(t.ty)
              THEN [m \in DOMAIN t.w |-> WVal(r.v[k][m])] ELSE <<>>
  IN <<r.s, V(1), V(2), V(3), V(4),
       [m \in DOMAIN t.w |-> IF V(2)[m] = <<0, 0>> THEN 0 ELSE r.lli[m] % 2]>>
Written(e) ==
  [hdr |-> {<<e.tab[k].y, WCols(e.tab[k])>> : k \in DOMAIN e.tab},
   first |-> e.eps[1].t, pos |-> e.pos,
   eps |-> [k \in DOMAIN e.eps |->
      [t |-> e.eps[k].t,
       file |-> [m \in DOMAIN e.eps[k].rows |->
                   <<e.eps[k].rows[m].s, WFields(e.tab, e.eps[k].rows[m])>>],
       read |-> [m \in DOMAIN e.eps[k].rows |-> WRead(e.tab, e.eps[k].rows[m])]]]]

NDo(s, e) ==
  CASE e.op = "next" -> Next1(s)
    [] e.op = "sync" -> Sync(s)
    [] e.op = "subst" -> Subst(s, e)
    [] e.op = "hdr" -> [st |-> s, out |-> [map |->
         UNION {{<<h[1], k - 1, h[2][k]>> : k \in DOMAIN h[2]} : h \in ToSet(s.hdr)}]]
    [] e.op = "meta" -> [st |-> s, out |-> HdrMeta(e)]
    [] e.op = "wr" -> [st |-> s, out |-> Written(e)]
NSets == {"map", "glo", "hdr"}
NInv(s) == s.i \in 0..Len(s.rov) /\ s.j \in 0..Len(s.base)
==============================================================================

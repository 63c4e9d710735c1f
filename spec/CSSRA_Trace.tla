----------------------------- MODULE CSSRA_Trace -----------------------------
(* Interpolation of the stored atmosphere corrections (P05), in exact        *)
(* integer arithmetic: offsets from the reference point are quarter degrees, *)
(* weights are sixteenths, results are in 1/16000 TECU and 1/16000 m.        *)
EXTENDS CSSR_Trace

RowOf(set, s) == CHOOSE r \in set : r[1] = s
AnyNan(s) == \E i \in 1..Len(s) : s[i] = NAN
Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)

StecAt(a, s, dl, dm, idx, w) ==
  LET f == IF Bit(a.stec, 1) = 1
           THEN LET c == Tail(RowOf(a.ci, s)) IN
                IF AnyNan(c) THEN NAN
                ELSE c[1]*800 + c[2]*dl*80 + c[3]*dm*80 + c[4]*dl*dm*20
                     + c[5]*dl*dl*5 + c[6]*dm*dm*5
           ELSE 0
      g == IF Bit(a.stec, 0) = 1
           THEN LET d == RowOf(a.dst, s)[2]
                    v == [i \in 1..Len(idx) |-> d[idx[i]]]
                IN IF AnyNan(v) THEN NAN
                   ELSE Sum([i \in 1..Len(idx) |-> v[i] * w[i] * 40])
           ELSE 0
  IN IF f = NAN \/ g = NAN THEN NAN ELSE f + g

TropAt(a, dl, dm, idx, w) ==
  LET h == IF Bit(a.trop, 1) = 1
           THEN IF AnyNan(SubSeq(a.ct, 1, 4)) THEN NAN
                ELSE a.ct[1]*16 + a.ct[2]*dl*4 + a.ct[3]*dm*4 + a.ct[4]*dl*dm
           ELSE 0
      f == IF Bit(a.trop, 1) = 1 THEN a.ct[5] * 16 ELSE 0
      v == IF Bit(a.trop, 0) = 1 THEN [i \in 1..Len(idx) |-> a.dtw[idx[i]]] ELSE <<0>>
      g == IF AnyNan(v) THEN NAN
           ELSE IF Bit(a.trop, 0) = 1
                THEN Sum([i \in 1..Len(idx) |-> v[i] * w[i] * 4]) ELSE 0
  IN << h, IF g = NAN THEN NAN ELSE f + g >>

------------------------------------------------------------------------------
(* selection of the surrounding grid points: pts is a sequence of            *)
(* <<network, id, x, y>> around the receiver, all distances integers         *)
D2(p) == p[3]*p[3] + p[4]*p[4]
Root(n) == CHOOSE k \in 0..100 : k*k = n
SortD(S) == SetToSortSeq(S, LAMBDA p, q : D2(p) < D2(q))

GridSel(e) ==
  LET P == ToSet(e.pts)
      near == CHOOSE p \in P : \A q \in P : D2(p) <= D2(q)
      mine == SortD({p \in P : p[1] = near[1]})
      n0 == IF Len(mine) < 3 THEN Len(mine) ELSE 3
      first == SubSeq(mine, 1, n0)
      fourth == SelectSeq(SubSeq(mine, n0+1, Len(mine)), LAMBDA p : p[2] = e.fourth)
      used == IF D2(near) = 0 THEN <<near>> ELSE first \o fourth
      r1 == Root(D2(used[1]))
      Inv_(p) == IF D2(p) = 0 THEN 1000
                 ELSE (2000*r1 + Root(D2(p))) \div (2*Root(D2(p)))
  IN [ net |-> near[1], n |-> Len(used), distinct |-> 1,
       near |-> [i \in 1..(IF Len(used) < 3 THEN Len(used) ELSE 3) |-> used[i][2]],
       inv |-> [i \in 1..Len(used) |-> Inv_(used[i])],
       sum |-> 1000000 ]

CADo(st, e) ==
  CASE e.op = "interp" ->
         LET a == st.atm[e.net] IN
         [st |-> st,
          out |-> [ trop |-> TropAt(a, e.a, e.b, e.idx, e.w),
                    stec |-> [i \in 1..Len(a.sats) |->
                               StecAt(a, a.sats[i], e.a, e.b, e.idx, e.w)] ]]
    [] e.op = "gridsel" -> [st |-> st, out |-> GridSel(e)]
    [] OTHER -> CDo(st, e)
==============================================================================

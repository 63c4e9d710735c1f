------------------------------- MODULE Pos_MC --------------------------------
(* Resolved ambiguities: every set of up to four satellites of two systems   *)
(* with two signals, each eligible or not, is walked through.  The pairs of  *)
(* the search and their restoration in the same order give every fixed       *)
(* ambiguity its true difference to all others of its group, and leave the   *)
(* rest alone.  The state is the list of ambiguities; an event appends one.  *)
EXTENDS Pos
Sats == <<1003, 1007, 3002, 3005, 3009>>
Tru(x, f) == 10 * (x % 10) + 3 * f
Flt(x, f) == 1000 * Tru(x, f) + 137 * Sys(x) + 11 * f + (x % 3)
RowOf(x, f, el) == <<x, f, Flt(x, f), Tru(x, f), el>>
MCEv(s) == {[op |-> "add", r |-> RowOf(Sats[i], f, el)] : i \in DOMAIN Sats,
            f \in 1..2, el \in {0, 1}}
Key(r) == <<r[1], r[2]>>
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
MCStart(c) == [rows |-> <<>>]
MCDo(s, e) == [st |-> [rows |-> IF \A k \in DOMAIN s.rows : Less(Key(s.rows[k]), Key(e.r))
                              THEN Append(s.rows, e.r) ELSE s.rows]]
MCCf == {[x |-> 0]}
MCBnd(s) == Len(s.rows) < 9
Dif(rows, p) == [i \in DOMAIN p |-> rows[p[i][1]][4] - rows[p[i][2]][4]]
Right(s) ==
  LET p == Pairs(s.rows, <<1, 3>>, 2)
      x == Restore(s.rows, p, Dif(s.rows, p))
      G(k) == Group(s.rows, Sys(s.rows[k][1]), s.rows[k][2])
  IN /\ Len(p) = Count(s.rows)
     /\ \A k \in DOMAIN s.rows : x[k] = Fixed(s.rows, k)
     /\ \A k, j \in DOMAIN s.rows :
          (j \in G(k) /\ k \in G(k)) => x[k] - x[j] = 1000 * (s.rows[k][4] - s.rows[j][4])
     /\ \A k \in DOMAIN s.rows : k \notin G(k) => x[k] = s.rows[k][3]
StepP(s, e, n) == TRUE
VARIABLES xcfg, xs
INSTANCE Explore WITH Start <- MCStart, Do <- MCDo, Inv <- Right,
  MCCfgs <- MCCf, MCEvents <- MCEv, MCBound <- MCBnd, StepInv <- StepP
==============================================================================

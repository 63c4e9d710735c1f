------------------------------- MODULE Qznma ---------------------------------
(* QZSS navigation message authentication with ideal signatures.             *)
(*                                                                           *)
(* A navigation message consists of parts; the content of a part (its bits   *)
(* covered by signatures) is a number.  An RDS names a key and carries a     *)
(* signature made with the key sk over a content; `bad' if any bit of it     *)
(* was altered afterwards.                                                   *)
(*  - QZSS satellites send the RDS of their own message in three pieces,     *)
(*    followed by the parts of the message in the next three slots           *)
(*    (L1 C/A, L5) or in the next frame (L1C);                               *)
(*  - RDSs for GPS and Galileo satellites come in the L6 signal and refer to *)
(*    messages received before, by satellite, type and issue.                *)
(* types: 1 LNAV, 2 CNAV, 3 CNAV2, 4 F/NAV, 5 I/NAV                          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

WEEK == 604800
Parts(mt) == CASE mt \in {1, 2} -> 1..3 [] mt = 4 -> 1..4 [] mt = 5 -> 1..5
\* cfg.keys: known keys, cfg.rds: table of the RDSs of QZSS satellites:
\* [kid, sk, bad, m: signed parts <<content, time>>]
QStart(c) == [cfg |-> c, store |-> {}, auth |-> {}, seen |-> {}, q |-> <<>>]
Known(s, k) == \E i \in DOMAIN s.cfg.keys : s.cfg.keys[i] = k

Count(s, sat, iod) ==
  LET R == {r \in s.auth : r[1] = sat /\ r[2] = iod}
      n == IF R = {} THEN 0 ELSE (CHOOSE r \in R : TRUE)[3]
  IN  [s EXCEPT !.auth = (@ \ R) \cup {<<sat, iod, n + 1>>}]

(* ------------------ messages of GPS and Galileo -------------------------- *)
\* rows: <<sat, part, issue, content>> in the order of reception; b: the last
\* received part of each kind: part -> <<issue, content>>
Whole(mt, b, p) ==
  /\ \A k \in Parts(mt) : k \in DOMAIN b
  /\ \A k \in Parts(mt) : (mt = 5 /\ k = 5) \/ b[k][1] = b[1][1]
  /\ mt = 5 => p = 5
Row(mt, S, b, r) ==
  LET n == (r[2] :> <<r[3], r[4]>>) @@ b
      key == <<r[1], mt, n[1][1]>>
  IN  IF Whole(mt, n, r[2]) /\ ~(\E x \in S : SubSeq(x, 1, 3) = key)
      THEN <<S \cup {key \o [k \in 1..Cardinality(Parts(mt)) |-> n[k][2]]}, n>>
      ELSE <<S, n>>
RECURSIVE Load(_, _, _, _, _)
Load(mt, S, B, rows, i) ==
  IF i > Len(rows) THEN S
  ELSE LET r == rows[i]
           b == IF r[1] \in DOMAIN B THEN B[r[1]] ELSE <<>>
           x == Row(mt, S, b, r)
       IN  Load(mt, x[1], (r[1] :> x[2]) @@ B, rows, i + 1)
DoLoad(s, e) == [s EXCEPT !.store = Load(e.mt, @, <<>>, e.rows, 1)]

\* one RDS of an L6 message
Good(s, r) == /\ Known(s, r.kid) /\ r.sk = r.kid /\ ~r.bad
              /\ \E x \in s.store : x = <<r.sat, r.mt, r.iod>> \o r.m
Mode(sat) == IF sat \div 1000 = 1 THEN 1 ELSE 5
Rds(s, r) == IF ~Good(s, r) THEN s
             ELSE LET n == Count(s, r.sat, r.iod)
                  IN  IF r.mt = Mode(r.sat) THEN [n EXCEPT !.seen = @ \cup {r.sat}] ELSE n
DoL6(s, e) == IF e.vendor # 3 THEN s ELSE FoldLeft(Rds, s, e.rds)

(* ------------------ QZSS satellites -------------------------------------- *)
New == [pc |-> <<>>, id |-> <<>>, t |-> -1, buf |-> <<>>, got |-> {}]
Q(s, sat) == IF sat \in DOMAIN s.q THEN s.q[sat] ELSE New
Up(s, sat, v) == [s EXCEPT !.q = (sat :> v) @@ @]
\* pieces of the RDS number id; the first one begins a new RDS
DoPiece(s, e) ==
  LET v == Q(s, e.sat)
      p == (e.part :> e.id) @@ (IF e.part = 1 THEN <<>> ELSE v.pc)
  IN  IF 1..3 \subseteq DOMAIN p
      THEN Up(s, e.sat, [v EXCEPT !.pc = <<>>, !.id = <<p[1], p[2], p[3]>>,
                                  !.t = e.tow, !.got = {}])
      ELSE Up(s, e.sat, [v EXCEPT !.pc = p, !.id = <<>>])
Valid(s, id, m) == /\ id[1] = id[2] /\ id[2] = id[3]
                   /\ LET d == s.cfg.rds[id[1]] IN
                        Known(s, d.kid) /\ d.sk = d.kid /\ ~d.bad /\ d.m = m
Take(s, sat, id, m) ==
  IF Valid(s, id, m)
  THEN [Count(s, sat, 0) EXCEPT !.seen = @ \cup {sat}] ELSE s
Slot(v, tow) == IF v.t < 0 \/ v.id = <<>> THEN -1 ELSE ((tow - v.t) % WEEK) \div 6
DoPart(s, e) ==
  LET v == Q(s, e.sat)
      k == Slot(v, e.tow)
      n == [v EXCEPT !.buf = (k :> <<e.c, e.tow>>) @@ @, !.got = @ \cup {k}]
  IN  IF s.cfg.mode = 3
      THEN IF k = 3 THEN Take(s, e.sat, v.id, <<<<e.c, e.tow>>>>) ELSE s
      ELSE IF k \notin 1..3 THEN s
      ELSE IF n.got = 1..3
      THEN Take(Up(s, e.sat, [n EXCEPT !.got = {}]), e.sat, n.id,
                <<n.buf[1], n.buf[2], n.buf[3]>>)
      ELSE Up(s, e.sat, n)

QDo(s, e) ==
  LET n == CASE e.op = "load" -> DoLoad(s, e)
             [] e.op = "l6" -> DoL6(s, e)
             [] e.op = "piece" -> DoPiece(s, e)
             [] e.op = "part" -> DoPart(s, e)
             [] e.op = "other" -> s
  IN [st |-> n,
      out |-> [auth |-> n.auth, valid |-> Cardinality({r[1] : r \in n.auth}),
               nsat |-> [i \in 1..3 |-> Cardinality({x \in n.seen :
                           x \div 1000 = <<1, 3, 5>>[i]})]] @@
              (IF e.op = "load" THEN [store |-> n.store] ELSE <<>>)]
QSets == {"auth", "store"}

QInv(s) ==
  /\ \A x, y \in s.store : SubSeq(x, 1, 3) = SubSeq(y, 1, 3) => x = y
  /\ \A x, y \in s.auth : (x[1] = y[1] /\ x[2] = y[2]) => x = y
  /\ \A x \in s.auth : x[3] > 0
  /\ \A x \in s.seen : \E y \in s.auth : y[1] = x
==============================================================================

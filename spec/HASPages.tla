------------------------------ MODULE HASPages -------------------------------
(* Collection of Galileo HAS pages (HAS SIS ICD 1.0, section 6).             *)
(* One message is collected at a time: the first page of a message that was  *)
(* not delivered recently starts a collection, further distinct pages of the *)
(* same message are added, and with `ms` distinct pages the message is       *)
(* delivered.  A collection that is not completed within 2*ms further epochs *)
(* is abandoned.                                                             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

HStart(c) == [mid |-> -1, ms |-> 0, rec |-> {}, done |-> <<>>, cnt |-> 0]

Usable(p) == p.k = 0          \* 1: dummy page, 2: status reserved / do not use

Page(st, p) ==
  IF ~Usable(p) THEN st
  ELSE LET a == IF st.mid = -1 /\ p.mid \notin ToSet(st.done)
                THEN [st EXCEPT !.mid = p.mid, !.ms = p.ms, !.rec = {}, !.cnt = 0]
                ELSE st
       IN IF a.mid = p.mid THEN [a EXCEPT !.rec = @ \cup {p.pid}] ELSE a

Last10(s) == IF Len(s) > 10 THEN Tail(s) ELSE s

\* pages of one epoch; msg is the delivered message (-1: none)
Epoch(st, pages) ==
  LET a == FoldLeft(Page, st, pages) IN
  IF a.mid # -1 /\ Cardinality(a.rec) >= a.ms
  THEN [st |-> [a EXCEPT !.mid = -1, !.rec = {}, !.cnt = 0, !.done = Last10(Append(@, a.mid))],
        msg |-> a.mid]
  ELSE LET b == IF a.mid = -1 THEN a ELSE [a EXCEPT !.cnt = @ + 1] IN
       IF b.mid # -1 /\ b.cnt > 2 * b.ms
       THEN [st |-> [b EXCEPT !.mid = -1, !.rec = {}, !.cnt = 0], msg |-> -1]
       ELSE [st |-> b, msg |-> -1]

HDo(st, e) ==
  LET r == Epoch(st, e.pages) IN
  [st |-> r.st, out |-> [msg |-> r.msg]]

HInv(st) ==
  /\ st.mid # -1 => st.mid \notin ToSet(st.done) /\ Cardinality(st.rec) < st.ms
  /\ st.mid = -1 => st.rec = {}
  /\ Len(st.done) <= 10
HSets == {}
==============================================================================

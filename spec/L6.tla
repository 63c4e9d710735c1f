---------------------------------- MODULE L6 ---------------------------------
(* Assembly of QZSS L6 data parts into Compact SSR subframes.                *)
(* A part is identified by a positive number; 0 is "no data".                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Cap == 11                       \* parts of 1695 bits that fit in the buffer

\* CLAS (vendor 5): the facility identifiers of the two patterns
Facility(m) ==
  IF m.vendor = 5
  THEN IF m.pt = 0 THEN <<0, 2, 1, 3>>[m.fac + 1] ELSE <<2, 0, 3, 1>>[m.fac + 1]
  ELSE m.fac

LStart(c) == [n |-> -1, fac |-> -1, buf |-> <<>>, prev |-> <<>>]

Recv(st, m) ==
  IF m.pre # 0 THEN [st |-> st, acc |-> FALSE]
  ELSE
  LET a == IF m.sid = 1 THEN [st EXCEPT !.n = 0, !.prev = st.buf, !.buf = <<>>] ELSE st
      f == Facility(m)
      b == IF st.fac >= 0 /\ f # st.fac THEN [a EXCEPT !.n = -1] ELSE a
      c == [b EXCEPT !.fac = f]
  IN IF c.n < 0 THEN [st |-> c, acc |-> FALSE]
     ELSE IF c.n >= Cap THEN [st |-> [c EXCEPT !.n = -1], acc |-> FALSE]
     ELSE [st |-> [c EXCEPT !.buf = Append(@, m.id), !.n = @ + 1], acc |-> TRUE]

LDo(st, e) ==
  LET r == Recv(st, e.m) IN
  [st |-> r.st,
   out |-> [n |-> r.st.n, buf |-> r.st.buf, prev |-> r.st.prev,
            fac |-> r.st.fac, acc |-> IF r.acc THEN 1 ELSE 0]]

\* while a subframe is being assembled the buffer holds its parts, all of them
LInv(st) == st.n >= 0 => Len(st.buf) = st.n
LSets == {}
==============================================================================

--------------------------------- MODULE Sig ---------------------------------
(* Satellite numbering and RINEX 3/4 observation codes.                       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC

Let == <<"G", "R", "E", "C", "J", "S", "I">>       \* systems 1..7
Lo == <<1, 1, 1, 1, 193, 120, 1>>
Hi == <<32, 32, 36, 63, 209, 158, 14>>
Sats == UNION {{<<s, p>> : p \in Lo[s]..Hi[s]} : s \in 1..7}
NSat == Cardinality(Sats)
\* number in the RINEX name
NameNo(s, p) == IF s = 5 THEN p - 192 ELSE IF s = 6 THEN p - 100 ELSE p
Dig == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
Name(s, p) == Let[s] \o Dig[(NameNo(s, p) \div 10) + 1] \o Dig[(NameNo(s, p) % 10) + 1]

\* bands of a system: frequency in kHz, attributes
C(f, a) == [f |-> f, a |-> a]
Bands == <<
  (1 :> C(1575420, {"C", "S", "L", "X", "P", "W", "Y", "M", "N"}) @@
   2 :> C(1227600, {"C", "D", "S", "L", "X", "P", "W", "Y", "M", "N"}) @@
   5 :> C(1176450, {"I", "Q", "X"})),
  (1 :> C(1602000, {"C", "P"}) @@ 2 :> C(1246000, {"C", "P"}) @@
   3 :> C(1202025, {"I", "Q", "X"}) @@ 4 :> C(1600995, {"A", "B", "X"}) @@
   6 :> C(1248060, {"A", "B", "X"})),
  (1 :> C(1575420, {"A", "B", "C", "X", "Z"}) @@ 5 :> C(1176450, {"I", "Q", "X"}) @@
   6 :> C(1278750, {"A", "B", "C", "X", "Z"}) @@ 7 :> C(1207140, {"I", "Q", "X"}) @@
   8 :> C(1191795, {"I", "Q", "X"})),
  (1 :> C(1575420, {"D", "P", "X", "S", "L", "Z"}) @@ 2 :> C(1561098, {"I", "Q", "X"}) @@
   5 :> C(1176450, {"D", "P", "X"}) @@ 6 :> C(1268520, {"I", "Q", "X", "D", "P", "Z"}) @@
   7 :> C(1207140, {"I", "Q", "X", "D", "P", "Z"}) @@ 8 :> C(1191795, {"D", "P", "X"})),
  (1 :> C(1575420, {"C", "E", "S", "L", "X", "Z", "B"}) @@ 2 :> C(1227600, {"S", "L", "X"}) @@
   5 :> C(1176450, {"I", "Q", "X", "D", "P", "Z"}) @@ 6 :> C(1278750, {"S", "L", "X", "E", "Z"})),
  (1 :> C(1575420, {"C"}) @@ 5 :> C(1176450, {"I", "Q", "X"})),
  (1 :> C(1575420, {"D", "P", "X"}) @@ 5 :> C(1176450, {"A", "B", "C", "X"}) @@
   9 :> C(2492028, {"A", "B", "C", "X"})) >>
Valid(s, b, a) == b \in DOMAIN Bands[s] /\ a \in Bands[s][b].a
\* carrier frequency in units of 100 Hz; GLONASS FDMA channel k; 0: unknown
Freq(s, b, k, hask) ==
  IF s = 2 /\ b \in {1, 2}
  THEN IF hask = 1 THEN 10 * Bands[s][b].f + k * (IF b = 1 THEN 5625 ELSE 4375) ELSE 0
  ELSE 10 * Bands[s][b].f

\* -------------------------------------------------------------------- events
\* state: the satellite numbers seen so far
GStart(c) == [num |-> <<>>, max |-> c.max]
GSets == {}
Inj(f) == \A a, b \in DOMAIN f : f[a] = f[b] => a = b
GInv(st) == Inj(st.num)

\* the number handed out for <<s, p>>: any free one the first time
NumOf(st, s, p, seen) ==
  IF <<s, p>> \in DOMAIN st.num THEN st.num[<<s, p>>]
  ELSE IF seen >= 1 /\ seen <= st.max /\ seen \notin Range(st.num) THEN seen
  ELSE CHOOSE n \in 1..st.max : n \notin Range(st.num)

Code(ty, b, a) == ty \o Dig[b + 1] \o a
GDo(st, e) ==
  CASE e.op = "sat" ->
         LET n == NumOf(st, e.s, e.p, IF "n" \in DOMAIN e.out THEN e.out.n ELSE -1) IN
         [st |-> [st EXCEPT !.num = (<<e.s, e.p>> :> n) @@ @],
          out |-> [n |-> n, s |-> e.s, p |-> e.p, name |-> Name(e.s, e.p), back |-> n]]
    [] e.op = "code" ->
         [st |-> st,
          out |-> IF ~Valid(e.s, e.b, e.a) THEN [rej |-> 1]
                  ELSE [rej |-> 0, str |-> Code(e.ty, e.b, e.a),
                        rep |-> Let[e.s] \o Code(e.ty, e.b, e.a),
                        typ |-> Code(e.ty2, e.b, e.a),
                        att |-> IF Valid(e.s, e.b, e.a2) THEN Code(e.ty, e.b, e.a2) ELSE "",
                        same |-> 1, f |-> Freq(e.s, e.b, e.k, e.hask)]]
    [] e.op = "eq" ->
         [st |-> st, out |-> [eq |-> IF e.x = e.y THEN 1 ELSE 0]]
==============================================================================

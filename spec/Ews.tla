--------------------------------- MODULE Ews ---------------------------------
(* Disaster messages: DC reports of JMA (QZSS L1S message 43) and messages   *)
(* in the common alert message format (message 44).                          *)
(*                                                                           *)
(* Times are <<day since 2000-01-01, minute of the day>>.  Reports have no   *)
(* year, occurrence times neither year nor month: they are the ones next to  *)
(* the reception and to the report.  The text of a Nankai Trough report      *)
(* comes in pages, which are put together per report.                        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

(* ------------------------------ calendar --------------------------------- *)
Leap(y) == y % 4 = 0          \* 1901 to 2099
MDays(y, m) == CASE m \in {4, 6, 9, 11} -> 30
                 [] m = 2 -> IF Leap(y) THEN 29 ELSE 28
                 [] OTHER -> 31
RECURSIVE MOff(_, _)
MOff(y, m) == IF m = 1 THEN 0 ELSE MOff(y, m - 1) + MDays(y, m - 1)
DayOf(y, m, d) == ((y - 2000) * 365) + ((y - 1997) \div 4) + MOff(y, m) + (d - 1)
YearOf(n) == CHOOSE y \in (2000 + ((n - 366) \div 366) .. 2001 + (n \div 365)) :
               DayOf(y, 1, 1) <= n /\ n < DayOf(y + 1, 1, 1)
MonthOf(n) == LET y == YearOf(n) IN
  CHOOSE m \in 1..12 : DayOf(y, m, 1) <= n /\ n < DayOf(y, m, 1) + MDays(y, m)
Dist(a, b) == LET d == ((a[1] - b[1]) * 1440) + (a[2] - b[2])
              IN IF d < 0 THEN -d ELSE d
Near(t, S) == CHOOSE a \in S : \A b \in S : Dist(a, t) <= Dist(b, t)
\* report with month, day, hour, minute
Report(now, m, d, h, mi) ==
  LET y == YearOf(now[1])
      Y == {k \in y - 4 .. y + 4 : d <= MDays(k, m)}
  IN  Near(now, {<<DayOf(k, m, d), (h * 60) + mi>> : k \in Y})
\* occurrence with day, hour, minute
Occur(ta, d, h, mi) ==
  LET k == (YearOf(ta[1]) * 12) + (MonthOf(ta[1]) - 1)
      K == {j \in {k - 1, k, k + 1} : d <= MDays(j \div 12, (j % 12) + 1)}
  IN  Near(ta, {<<DayOf(j \div 12, (j % 12) + 1, d), (h * 60) + mi>> : j \in K})
Arrive(ta, dd, h, mi) == <<ta[1] + dd, (h * 60) + mi>>

(* ---------------------------- DC reports --------------------------------- *)
\* page: content of the pages of the report rep; none: no report yet
WStart(c) == [cfg |-> c, rep |-> <<>>, page |-> <<>>]
Kinds == {1, 2, 3, 4, 5, 6, 8, 9, 10, 11, 12, 14}
Occ == {1, 2, 3, 8, 9, 12}
Keep(rows, P(_)) == SelectSeq(rows, P)
NZ(r) == \E i \in DOMAIN r : r[i] # 0
AllNZ(r) == \A i \in DOMAIN r : r[i] # 0
Flat(rows) == FoldLeft(LAMBDA a, r : a \o r, <<>>, rows)
\* content: x single values, rows repeated groups
Par(e) ==
  CASE e.dc = 1 -> SubSeq(e.x, 4, 8) \o e.regs
    [] e.dc = 2 -> e.x
    [] e.dc = 3 -> Flat(Keep(e.rows, NZ))
    [] e.dc = 4 -> SubSeq(e.x, 2, 3)
    [] e.dc = 5 -> e.x
    [] e.dc = 6 -> e.x
    [] e.dc = 8 -> e.x \o Flat(Keep(e.rows, NZ))
    [] e.dc = 9 -> e.x \o Flat(Keep(e.rows, LAMBDA r : r[3] # 0))
    [] e.dc = 10 -> e.x \o Flat(Keep(e.rows, AllNZ))
    [] e.dc = 11 -> Flat(Keep(e.rows, NZ))
    [] e.dc = 12 -> e.x
    [] e.dc = 14 -> Flat(Keep(e.rows, NZ))
Sg(p) == IF p[1] = 1 THEN -(p[2]) ELSE p[2]
Rep(e) == <<e.mo, e.d, e.h, e.mi, e.it, e.x[1], e.x[3]>>
\* pages of the report that is under way
Pages(s, e) ==
  LET old == IF s.rep = Rep(e) THEN s.page ELSE <<>>
  IN  IF e.x[2] \in 1..e.x[3] THEN (e.x[2] :> e.txt) @@ old ELSE old
Full(p, n) == n > 0 /\ DOMAIN p = 1..n
Text(p, n) == IF Full(p, n) THEN [i \in 1..n |-> p[i]] ELSE <<>>

DoDcr(s, e) ==
  IF e.dc \notin Kinds \/ e.rc \notin {3, 7}
  THEN [st |-> s, out |-> [ok |-> 0]]
  ELSE
  LET ta == Report(e.now, e.mo, e.d, e.h, e.mi)
      p == IF e.dc = 4 THEN Pages(s, e) ELSE s.page
      n == IF e.dc = 4 THEN [s EXCEPT !.rep = Rep(e), !.page = p] ELSE s
      o == [ok |-> 1, rc |-> e.rc, dc |-> e.dc, it |-> e.it, vn |-> e.vn,
            ta |-> ta, year |-> YearOf(ta[1]), par |-> Par(e)]
      t == IF e.dc \in Occ THEN [tb |-> Occur(ta, e.t1[1], e.t1[2], e.t1[3])]
           ELSE <<>>
      q == IF e.dc \in {2, 12} THEN [pos |-> <<Sg(e.lat), Sg(e.lon)>>] ELSE <<>>
      a == IF e.dc \in {5, 6}
           THEN [arr |-> [i \in DOMAIN Keep(e.rows, NZ) |->
                   LET r == Keep(e.rows, NZ)[i]
                   IN  Arrive(ta, r[1], r[2], r[3]) \o <<r[4], r[5]>>]] ELSE <<>>
      x == IF e.dc = 4 THEN [full |-> IF Full(p, e.x[3]) THEN 1 ELSE 0,
                             text |-> Text(p, e.x[3])] ELSE <<>>
  IN [st |-> n, out |-> o @@ t @@ q @@ a @@ x]

(* ------------------------ common alert messages -------------------------- *)
R == <<216, 292, 395, 535, 723, 978, 1322, 1788, 2418, 3269, 4421, 5979, 8085,
       10933, 14784, 19992, 27035, 36559, 49439, 66855, 90407, 122255, 165324,
       223564, 302322, 408824, 552846, 747603, 1010970, 1367116, 1848727,
       2500000>>                                     \* half axes [m]
HazKnown(h) == h \in ((1..26) \cup {30} \cup (32..110) \cup {112, 113})
Code(k) == IF k % 10 = 7 THEN -1 ELSE k      \* codes without name
\* numbers of entries of the tables of details
Size == [d1 |-> 9, d2 |-> 8, d3 |-> 16, d4 |-> 16, d5 |-> 8, d6 |-> 16,
         d7 |-> 5, d8 |-> 13, d9 |-> 8, d10 |-> 6, d11 |-> 6, d12 |-> 11,
         d13 |-> 10, d15 |-> 4, d16 |-> 6, d17 |-> 5, d18 |-> 4, d19 |-> 5,
         d20 |-> 5, d21 |-> 5, d22 |-> 5, d23 |-> 5, d24 |-> 6, d25 |-> 10,
         d26 |-> 21, d27 |-> 12, d28 |-> 6, d29 |-> 14, d30 |-> 9, d31 |-> 16,
         d32 |-> 4, d33 |-> 4, d34 |-> 4, d36 |-> 5]
\* details of the hazards
Det(h) ==
  CASE h = 36 -> <<"d1", "d2", "d3", "d4">>
    [] h \in {43, 44} -> <<"d5">>
    [] h \in {63, 71} -> <<"d6">>
    [] h = 80 -> <<"d7", "d8", "d9">>
    [] h = 82 -> <<"d36", "d8", "d9">>
    [] h = 79 -> <<"d8", "d9", "d11">>
    [] h = 77 -> <<"d8", "d9", "d10", "d16">>
    [] h = 70 -> <<"d12">>
    [] h = 74 -> <<"d9", "d13">>
    [] h = 76 -> <<"d14", "d13">>
    [] h = 68 -> <<"d15">>
    [] h = 72 -> <<"d16">>
    [] h = 81 -> <<"d8", "d6">>
    [] h = 64 -> <<"d8", "d9", "d16", "d11">>
    [] h = 69 -> <<"d17", "d13">>
    [] h = 75 -> <<"d13", "d8">>
    [] h = 65 -> <<"d18">>
    [] h = 33 -> <<"d19">>
    [] h = 32 -> <<"d20">>
    [] h = 47 -> <<"d8", "d5">>
    [] h = 37 -> <<"d21">>
    [] h = 103 -> <<"d22">>
    [] h = 30 -> <<"d23">>
    [] h \in {16, 18, 21} -> <<"d24">>
    [] h = 23 -> <<"d25">>
    [] h \in {51, 53} -> <<"d26", "d35">>
    [] h = 19 -> <<"d27">>
    [] h = 15 -> <<"d28">>
    [] h \in {55, 56, 57, 58, 60} -> <<"d29">>
    [] h \in {9, 10, 11} -> <<"d30">>
    [] h = 5 -> <<"d31">>
    [] h = 4 -> <<"d32", "d33">>
    [] h = 6 -> <<"d34">>
    [] OTHER -> <<>>
DCode(d, v) == IF d \in {"d14", "d35"} THEN Code(v)
               ELSE IF v < Size[d] THEN v ELSE -1
DRows(e) ==
  LET D == Det(e.hcat)
  IN  IF e.subj # 3 THEN {}
      ELSE {x \in {<<D[i], DCode(D[i], e.c[i])>> : i \in DOMAIN D} :
              x[2] >= 0 \/ x[1] \in {"d14", "d35"}}
\* weeks begin on Monday; 2000-01-03 was a Monday
Onset(now, wn, m) ==
  LET mon == now[1] - ((now[1] - 2) % 7)
  IN  <<mon + (7 * wn) + ((m - 1) \div 1440), (m - 1) % 1440>>
Half(i) == R[i + 1]
\* half axis [m/8], refined by c/8 of the step
Axis(i, c) == (8 * Half(i)) - (c * (IF i > 0 THEN Half(i) - Half(i - 1) ELSE R[1]))
Cx(e, k) == IF e.subj = 0 THEN e.c[k] ELSE 0
Off(v) == IF v <= 63 THEN v ELSE v + 1
Gen(e) ==       \* guidance
  IF e.sel = 0 THEN <<Code(e.ga), Code(e.gb)>>
  ELSE <<e.ga, IF e.pid \in {2, 3}
               THEN (IF e.gb \in {0, 1, 127, 255} \cup (128..136) THEN e.gb ELSE -1)
               ELSE (IF e.gb \in (0..7) \cup {127, 255} THEN e.gb ELSE -1)>>
\* names of equal texts
Norm(e, g) == IF e.sel = 0 THEN g
              ELSE IF e.pid \in {2, 3} /\ g[2] = 127 THEN <<g[1], 1>>
              ELSE IF e.pid \notin {2, 3} /\ g[2] = 255 THEN <<g[1], 127>>
              ELSE g
City(k) == k \in 1000..47999 /\ k % 100 < 40
Ext(e) ==       \* extended message, values that are shown
  LET x == e.ext IN
  CASE e.sel = 0 -> <<>>
    [] e.pid = 1 -> IF City(x[1]) THEN x ELSE <<>>
    [] e.pid \in {2, 3} -> IF e.ext8 = 0 THEN x ELSE SelectSeq(x, City)
    [] OTHER -> <<>>
DoCamf(s, e) ==
  LET o0 == [mt |-> e.mt, reg |-> Code(e.regi), pid |-> e.pid]
      o1 == [haz |-> e.hcat, sev |-> e.sev, th |-> Onset(e.now, e.wn, e.tow),
             dur |-> e.dur, sel |-> e.sel]
      o2 == [ver |-> e.ver + 1, guid |-> Norm(e, Gen(e)),
             lat |-> (8 * e.lat) + Cx(e, 1), lon |-> (8 * e.lon) + Cx(e, 2),
             maj |-> Axis(e.maj, Cx(e, 3)), min |-> Axis(e.min, Cx(e, 4)),
             az |-> e.az,
             off |-> IF e.subj = 1 THEN <<Off(e.c[1]), Off(e.c[2])>>
                     ELSE <<64, 64>>,
             sec |-> IF e.subj = 2
                     THEN <<e.c[1] * Half(e.maj), Half(e.maj) * (e.c[2] + 1),
                            Half(e.min) * (e.c[2] + 1), e.c[3]>>
                     ELSE <<0, 0, 0, 0>>,
             det |-> DRows(e)]
      \* shown only
      o3 == IF s.cfg.mon = 1 THEN [ext |-> Ext(e)] ELSE <<>>
  IN  [st |-> s,
       out |-> IF ~HazKnown(e.hcat) THEN o0 @@ [haz |-> -1]
               ELSE IF e.sel = 1 /\ e.regi # 111 THEN o0 @@ o1
               ELSE o0 @@ o1 @@ o2 @@ o3]

WDo(s, e) == CASE e.op = "dcr" -> DoDcr(s, e) [] e.op = "camf" -> DoCamf(s, e)
WSets == {"det"}
WInv(s) == DOMAIN s.page \subseteq 1..63 /\ (s.rep = <<>> => s.page = <<>>)
==============================================================================

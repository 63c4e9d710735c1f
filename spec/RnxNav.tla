------------------------------- MODULE RnxNav --------------------------------
(* RINEX 3/4 navigation files: which number of a record is which parameter,  *)
(* and that writing the stored records and reading them back keeps them.     *)
(*                                                                           *)
(* A record of the file is                                                   *)
(*  [k |-> "EPH" | "ION" | "EOP" | "STO", y |-> system letter, ty |-> type,  *)
(*   sat, t |-> <<week, s>> its printed epoch as week and second of the      *)
(*   calendar counted from 6 January 1980 (GPST, for C BDT, for R UTC),      *)
(*   v |-> the numbers of its first line, L |-> the lines of four numbers]   *)
(* Numbers are integers: the printed decimal number in a unit fixed for each *)
(* parameter (10^-n).  A blank number is 0.  nb: the health flags of a        *)
(* GLONASS record are blank.                                                 *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

WEEK == 604800
Norm(w, s) == <<w + (s \div WEEK), s % WEEK>>
Leq(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
\* leap seconds of GPST-UTC at a UTC instant (2012-07-01, 2015-07-01, 2017-01-01)
Leap(t) == IF Leq(<<1930, 0>>, t) THEN 18 ELSE IF Leq(<<1851, 259200>>, t) THEN 17
           ELSE IF Leq(<<1695, 0>>, t) THEN 16 ELSE 15
Utc(t) == Norm(t[1], t[2] + Leap(t))
Bdt(t) == Norm(t[1], t[2] + 14)
Bit(v, n) == (v \div (2 ^ n)) % 2

\* ------------------------------------------------------------------ layout
Kep(a, b) == << <<a, "crs", "deln", "M0">>, <<"cuc", "e", "cus", "sqrtA">>,
                <<b, "cic", "OMG0", "cis">>, <<"i0", "crc", "omg", "OMGd">> >>
Xyz(c1, c2, c3) == << <<"px", "vx", "ax", c1>>, <<"py", "vy", "ay", c2>>,
                      <<"pz", "vz", "az", c3>> >>
P == [n \in 0..23 |-> "p" \o ToString(n)]
First(r) == IF r.y = "R" THEN <<"ntaun", "gamn", IF r.ty = "FDMA" THEN "tk" ELSE "beta">>
            ELSE IF r.y = "S" THEN <<"af0", "af1", "ttm">>
            ELSE <<"af0", "af1", "af2">>
Body(r, ver) ==
  CASE r.y = "R" /\ r.ty = "FDMA" ->
         Xyz("svh", "frq", "age") \o
         (IF ver >= 305 THEN << <<"flag", "dtaun", "sva", "svhf">> >> ELSE <<>>)
    [] r.y = "R" /\ r.ty # "FDMA" ->
         Xyz("svh", "status", IF r.ty = "L1OC" THEN "isc1" ELSE "isc2") \o
         << <<"sattype", "src", "aode", "aodc">>, <<"flag", "tin", "tau1", "tau2">>,
            <<"psi", "sn", "win", "dw">>, <<"wmax", "dp0", "dp1", "dp2">>,
            <<"urai0", "urai1", "tk", "-">> >>
    [] r.y = "S" -> Xyz("svh", "sva", "iodn")
    [] r.y \in {"G", "J"} /\ r.ty = "LNAV" ->
         Kep("iode", "toes") \o
         << <<"idot", IF r.y = "G" THEN "code" ELSE "-", "week",
              IF r.y = "G" THEN "l2p" ELSE "-">>,
            <<"sva", IF r.y = "G" THEN "svh" ELSE "svhq", "tgd", "iodc">>,
            <<"ttm", "fit", "-", "-">> >>
    [] r.y \in {"G", "J"} /\ r.ty # "LNAV" ->
         Kep("Adot", "tops") \o
         << <<"idot", "delnd", "urai0", "urai1">>, <<"sva", "svh", "tgd", "urai2">>,
            <<"isc0", "isc1", "isc2", "isc3">> >> \o
         (IF r.ty = "CNV2" THEN << <<"isc4", "isc5", "-", "-">> >> ELSE <<>>) \o
         << <<"ttm", "wn_op", "integ", "-">> >>
    [] r.y = "E" ->
         Kep("iode", "toes") \o
         << <<"idot", "code", "week", "-">>, <<"sva", "svh", "bgda", "bgdb">>,
            <<"ttm", "-", "-", "-">> >>
    [] r.y = "C" /\ r.ty \in {"D1", "D2"} ->
         Kep("iode", "toes") \o
         << <<"idot", "-", "week", "-">>, <<"sva", "svh", "tgd", "tgd_b">>,
            <<"ttm", "iodc", "-", "-">> >>
    [] r.y = "C" /\ r.ty \notin {"D1", "D2"} ->
         Kep("Adot", "toes") \o
         << <<"idot", "delnd", "sattype", "tops">>,
            <<"sisai0", "sisai1", "sisai2", "sisai3">> >> \o
         (CASE r.ty = "CNV1" -> << <<"isc0", "-", "tgd", "tgd_b">>,
                                   <<"sismai", "svh", "integ", "iodc">>,
                                   <<"ttm", "-", "-", "iode">> >>
            [] r.ty = "CNV2" -> << <<"-", "isc1", "tgd", "tgd_b">>,
                                   <<"sismai", "svh", "integ", "iodc">>,
                                   <<"ttm", "-", "-", "iode">> >>
            [] OTHER -> << <<"sismai", "svh", "integ", "tgd">>,
                           <<"ttm", "-", "-", "-">> >>)
    [] r.y = "I" /\ r.ty = "LNAV" ->
         Kep("iode", "toes") \o
         << <<"idot", "-", "week", "-">>, <<"sva", "svh", "tgd", "-">>,
            <<"ttm", "-", "-", "-">> >>
    [] r.y = "I" /\ r.ty # "LNAV" ->
         Kep("Adot", "iode") \o << <<"idot", "delnd", "-", "integ">> >> \o
         (IF r.L[5][4] = 0
          THEN << <<"urai", "svh", "tgd", "-">>, <<"isc5", "isc4", "-", "-">> >>
          ELSE << <<"urai", "svh", "-", "tgd">>, <<"-", "-", "isc5", "isc4">> >>) \o
         << <<"ttm", "-", "-", "-">> >>
Names(r, ver) == <<First(r)>> \o Body(r, ver)
Cells(r) == <<r.v>> \o r.L
\* parameters of a record, by name
Get(N, C) ==
  LET I == {p \in (1..Len(N)) \X (1..4) : p[2] <= Len(N[p[1]]) /\ N[p[1]][p[2]] # "-"}
      nm(p) == N[p[1]][p[2]]
  IN [a \in {nm(p) : p \in I} |->
        LET p == CHOOSE p \in I : nm(p) = a IN C[p[1]][p[2]]]
Drop(f, D) == [a \in (DOMAIN f) \ D |-> f[a]]

\* -------------------------------------------------------------- ephemerides
Mode(r, ver) ==
  IF r.y = "E" /\ ver < 400 THEN Bit(r.L[5][2], 1)
  ELSE CASE r.ty \in {"CNAV", "CNV1", "FNAV", "L1OC"} -> 1
         [] r.ty \in {"CNV2", "L1NV"} -> 2
         [] r.ty \in {"CNV3", "L3OC"} -> 3
         [] OTHER -> 0
Glo(r, f, m) ==
  LET tu == IF m = 0 THEN Norm(r.t[1], ((r.t[2] + 450) \div 900) * 900) ELSE r.t
      day == r.t[2] \div 86400
      tf == Norm(r.t[1], day * 86400 + (f.tk % 86400))
      d == (tf[1] - tu[1]) * WEEK + tf[2] - tu[2]
      tg == IF d < -43200 THEN Norm(tf[1], tf[2] + 86400)
            ELSE IF d > 43200 THEN Norm(tf[1], tf[2] - 86400) ELSE tf
      un == IF m = 0 THEN 900 ELSE 90
      h == "svhf" \in DOMAIN f /\ ~r.nb
  IN Drop(f, {"tk", "ntaun", "svhf"} \cup (IF h THEN {"svh"} ELSE {}))
     @@ [sat |-> r.sat, mode |-> m, taun |-> -f.ntaun, toe |-> Utc(tu), tof |-> Utc(tg),
         iode |-> (2 * ((r.t[2] + 10800) % 86400) + un) \div (2 * un)]
Frq(f) == IF "frq" \in DOMAIN f /\ f.frq > 128 THEN [f EXCEPT !.frq = f.frq - 256] ELSE f
Sbs(r, f) == Drop(f, {"ttm"}) @@
  [sat |-> r.sat, mode |-> 0, toc |-> r.t, tof |-> Norm(r.t[1], f.ttm)]
Kepl(r, f, m) ==
  LET own == r.y \in {"G", "J", "I"} /\ m > 0
      w == IF own \/ (r.y = "C" /\ m > 0) THEN r.t[1] - (IF r.y = "C" THEN 1356 ELSE 0)
           ELSE f.week
      toes == IF own THEN r.t[2] ELSE f.toes
      ofs == IF r.y = "C" THEN 1356 ELSE 0
      G(t) == IF r.y = "C" THEN Bdt(t) ELSE t
      e5b == r.y = "E" /\ Bit(f.code, 9) = 1
      x == CASE r.y = "E" -> [tgd |-> IF e5b THEN f.bgdb ELSE f.bgda,
                              tgd_b |-> IF e5b THEN f.bgda ELSE f.bgdb,
                              iodc |-> f.iode]
             [] r.y = "J" /\ m = 0 ->
                  [code |-> 16 * Bit(f.svhq, 4) + Bit(f.svhq, 0),
                   svh |-> f.svhq - 16 * Bit(f.svhq, 4) - Bit(f.svhq, 0)]
             [] r.y \in {"G", "J"} /\ m > 0 -> [urai3 |-> f.sva \div 100]
             [] r.y = "I" -> [iodc |-> f.iode]
             [] OTHER -> [mode |-> m]
  IN Drop(f, {"ttm", "bgda", "bgdb", "svhq"}) @@ x @@
     [sat |-> r.sat, mode |-> m, week |-> w, toes |-> toes, toc |-> G(r.t),
      toe |-> G(Norm(w + ofs, toes)), tot |-> G(Norm(w + ofs, f.ttm))]
Eph(r, ver) ==
  LET f == Get(Names(r, ver), Cells(r))  m == Mode(r, ver) IN
  CASE r.y = "R" -> [c |-> "R", a |-> Glo(r, Frq(f), m)]
    [] r.y = "S" -> [c |-> "S", a |-> Sbs(r, f)]
    [] OTHER -> [c |-> "K", a |-> Kepl(r, f, m)]

\* ------------------------------------------------- other records (RINEX 4)
Ty == <<"LNAV", "FDMA", "IFNV", "D1D2", "SBAS", "CNVX", "L1NV", "LXOC">>
TyIx(t) == CHOOSE n \in 1..8 : Ty[n] = t
KnownTy(t) == \E n \in 1..8 : Ty[n] = t
ParN(r) ==
  CASE r.k = "EOP" -> << <<P[0], P[1], P[2]>>, <<"-", P[3], P[4], P[5]>>,
                         <<"ttm", P[6], P[7], P[8]>> >>
    [] r.k = "STO" -> << <<"-", "-", "-">>, <<"ttm", P[0], P[1], P[2]>> >>
    [] r.k = "ION" /\ r.y = "E" -> << <<P[0], P[1], P[2]>>, <<P[3], "-", "-", "-">> >>
    [] r.k = "ION" /\ r.y = "C" /\ r.ty = "CNVX" ->
         << <<P[0], P[1], P[2]>>, <<P[3], P[4], P[5], P[6]>>, <<P[7], P[8], "-", "-">> >>
    [] r.k = "ION" /\ r.y = "R" -> << <<P[0], P[1], P[2]>> >>
    [] r.k = "ION" /\ r.y = "I" /\ r.ty = "L1NV" /\ r.sub = "KLOB" ->
         << <<"iod", "-", "-">>, <<P[0], P[1], P[2], P[3]>>, <<P[4], P[5], P[6], P[7]>>,
            <<"r0", "r1", "r2", "r3">> >>
    [] r.k = "ION" /\ r.y = "I" /\ r.ty = "L1NV" /\ r.sub = "NEQN" ->
         << <<"iod", "-", "-">>, <<P[0], P[1], P[2], P[3]>>, <<P[4], P[5], P[6], P[7]>>,
            <<P[8], P[9], P[10], P[11]>>, <<P[12], P[13], P[14], P[15]>>,
            <<P[16], P[17], P[18], P[19]>>, <<P[20], P[21], P[22], P[23]>> >>
    [] OTHER -> << <<P[0], P[1], P[2]>>, <<P[3], P[4], P[5], P[6]>>,
                   <<P[7], P[8], "-", "-">> >>
Par(r) == Get(ParN(r), Cells(r)) @@ [t |-> r.t, src |-> r.src]
\* the latest parameters of each kind, system and message type
PutPar(par, r) ==
  IF ~KnownTy(r.ty) THEN par
  ELSE [key \in (DOMAIN par) \cup {<<r.k, r.y, r.ty>>} |->
          IF key = <<r.k, r.y, r.ty>> THEN Par(r) ELSE par[key]]
PutPars(par, rs) == FoldSeq(LAMBDA r, p : PutPar(p, r), par, rs)

\* ------------------------------------------------------------------ system
RStart(c) == [rec |-> <<>>, par |-> <<>>]
IsEph(r) == r.k = "EPH"
NotEph(r) == r.k # "EPH"
ReadRecs(recs, ver) ==
  LET q == SelectSeq(recs, IsEph) IN [n \in DOMAIN q |-> Eph(q[n], ver)]
\* what a writer leaves out: the same issue and time as last written for the
\* satellite and message
Key(x) == CASE x.c = "R" -> <<x.a.iode, x.a.toe>>
            [] x.c = "S" -> <<x.a.iodn, x.a.toc>>
            [] OTHER -> <<IF "iode" \in DOMAIN x.a THEN x.a.iode ELSE 0,
                          <<x.a.week, x.a.toes>>>>
Again(q, n) ==
  LET B == {m \in 1..(n-1) : q[m].a.sat = q[n].a.sat /\ q[m].a.mode = q[n].a.mode}
  IN  B # {} /\ LET l == CHOOSE m \in B : \A k \in B : k <= m IN Key(q[l]) = Key(q[n])
Once(q) == LET I == SelectSeq([n \in DOMAIN q |-> n], LAMBDA n : ~Again(q, n))
           IN [n \in DOMAIN I |-> q[I[n]]]

\* observed parameters agree with the expected ones
Fits(x, o) == o.c = x.c /\ \A a \in DOMAIN x.a : a \in DOMAIN o.a /\ o.a[a] = x.a[a]
ParFits(x, o) == \A a \in DOMAIN x : a \in DOMAIN o /\ o[a] = x[a]
Bad(q, o) == IF Len(o) # Len(q) THEN <<"number of records", Len(q)>>
  ELSE LET B == {n \in DOMAIN q : ~Fits(q[n], o[n])} IN
       IF B = {} THEN <<>>
       ELSE LET n == CHOOSE n \in B : \A m \in B : n <= m IN
            <<n, {<<a, q[n].a[a]>> : a \in {b \in DOMAIN q[n].a :
                    ~(b \in DOMAIN o[n].a /\ o[n].a[b] = q[n].a[b])}}>>
BadPar(p, o) ==
  LET ks == {<<x.k, x.y, x.ty>> : x \in ToSet(o)} IN
  IF ks # DOMAIN p THEN <<"kinds", DOMAIN p>>
  ELSE LET B == {x \in ToSet(o) : ~ParFits(p[<<x.k, x.y, x.ty>>], x.a)} IN
       IF B = {} THEN <<>>
       ELSE LET x == CHOOSE x \in B : TRUE IN
            <<x.k, x.y, x.ty, {<<a, p[<<x.k, x.y, x.ty>>][a]>> :
               a \in {b \in DOMAIN p[<<x.k, x.y, x.ty>>] :
                      ~(b \in DOMAIN x.a /\ x.a[b] = p[<<x.k, x.y, x.ty>>][b])}}>>

\* a disagreement shows as a field that is never recorded
Why(b) == IF b = <<>> THEN <<>> ELSE [why |-> b]

RDo(s, e) ==
  CASE e.op = "nav" ->
         LET new == ReadRecs(e.recs, e.ver)
             all == IF e.app THEN s.rec \o new ELSE new
             par == IF e.ver >= 400
                    THEN PutPars(s.par, SelectSeq(e.recs, NotEph)) ELSE s.par
             \* ephemerides by class, each in file order
             Cl(c) == SelectSeq(all, LAMBDA x : x.c = c)
             ord == Cl("K") \o Cl("R") \o Cl("S")
             b == IF e.exc = "" THEN Bad(ord, e.out.rec) ELSE <<>>
             bp == IF e.exc = "" THEN BadPar(par, e.out.par) ELSE <<>>
         IN [st |-> [rec |-> all, par |-> par],
             out |-> Why(b \o bp) @@
                     [rec |-> IF e.exc = "" THEN e.out.rec ELSE <<>>,
                      par |-> IF e.exc = "" THEN e.out.par ELSE <<>>,
                      ion |-> e.ion, leaps |-> e.leaps]]
    [] e.op = "wr" ->
         LET Cl(c) == SelectSeq(s.rec, LAMBDA x : x.c = c)
             ord == Once(Cl("K")) \o Once(Cl("R")) \o Once(Cl("S"))
             b == IF e.exc = "" THEN Bad(ord, e.out.rec) ELSE <<>>
         IN [st |-> s,
             out |-> Why(b) @@ [rec |-> IF e.exc = "" THEN e.out.rec ELSE <<>>]]
RInv(s) == \A n \in DOMAIN s.rec : s.rec[n].a.mode \in 0..3
RSets == {}
==============================================================================

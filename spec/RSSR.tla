-------------------------------- MODULE RSSR ---------------------------------
(* State space representation corrections received as RTCM 3 (1057..1068,    *)
(* 1240..1270, draft test messages) or IGS SSR (4076) messages.              *)
(*                                                                           *)
(* Messages of one epoch may be split (constellations, multiple-message      *)
(* flag): a message of a later epoch than the last one of its class starts   *)
(* the class afresh; otherwise it adds to, or replaces parts of, what was    *)
(* received.  All values are the transmitted integers.                       *)
(*                                                                           *)
(* Satellites are 1000 * system + PRN; systems 1 GPS 2 GLO 3 GAL 4 BDS 5 QZS *)
(* 6 SBAS.  The stores are sets of tuples:                                   *)
(*   orb <<sat, iode, 3 positions, 3 rates>>  clk <<sat, c0, c1, c2>>        *)
(*   hclk <<sat, c>>  ura <<sat, q>>  cb <<sat, signal, v>>                  *)
(*   pb <<sat, signal, v, integer ind., discontinuity, wide-lane>>           *)
(*   yaw <<sat, yaw, rate>>   t0 <<sat, class, time>>                        *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

NA == -999999999
Pow2(n) == 2^n
SV(v, n) == IF v = -(2^(n-1)) THEN NA ELSE v

\* signal identifiers of the interface documents (system -> id -> RINEX)
SigTab == <<
  (0 :> "1C" @@ 1 :> "1P" @@ 2 :> "1W" @@ 5 :> "2C" @@ 6 :> "2D" @@ 7 :> "2S"
   @@ 8 :> "2L" @@ 9 :> "2X" @@ 10 :> "2P" @@ 11 :> "2W" @@ 14 :> "5I"
   @@ 15 :> "5Q" @@ 16 :> "5X" @@ 17 :> "1S" @@ 18 :> "1L" @@ 19 :> "1X"),
  (0 :> "1C" @@ 1 :> "1P" @@ 2 :> "2C" @@ 3 :> "2P" @@ 4 :> "4A" @@ 5 :> "4B"
   @@ 6 :> "6A" @@ 7 :> "6B" @@ 10 :> "3I" @@ 11 :> "3Q"),
  (0 :> "1A" @@ 1 :> "1B" @@ 2 :> "1C" @@ 3 :> "1X" @@ 4 :> "1Z" @@ 5 :> "5I"
   @@ 6 :> "5Q" @@ 7 :> "5X" @@ 8 :> "7I" @@ 9 :> "7Q" @@ 10 :> "7X"
   @@ 11 :> "8I" @@ 12 :> "8Q" @@ 13 :> "8X" @@ 14 :> "6A" @@ 15 :> "6B"
   @@ 16 :> "6C" @@ 17 :> "6X" @@ 18 :> "6Z"),
  (0 :> "2I" @@ 1 :> "2Q" @@ 2 :> "2X" @@ 3 :> "6I" @@ 4 :> "6Q" @@ 5 :> "6X"
   @@ 6 :> "7I" @@ 7 :> "7Q" @@ 8 :> "7X" @@ 9 :> "1D" @@ 10 :> "1P"
   @@ 11 :> "1X" @@ 12 :> "5D" @@ 13 :> "5P" @@ 14 :> "5X" @@ 15 :> "1A"),
  (0 :> "1C" @@ 1 :> "1S" @@ 2 :> "1L" @@ 3 :> "2S" @@ 4 :> "2L" @@ 5 :> "2X"
   @@ 6 :> "5I" @@ 7 :> "5Q" @@ 8 :> "5X" @@ 9 :> "6S" @@ 10 :> "6L"
   @@ 11 :> "6X" @@ 12 :> "1X" @@ 17 :> "6E" @@ 19 :> "1E"),
  (0 :> "1C" @@ 1 :> "5I" @@ 2 :> "5Q" @@ 3 :> "5X") >>

Classes == {"orb", "clk", "cb", "pb", "ura", "hclk"}
RStart(c) == [orb |-> {}, clk |-> {}, hclk |-> {}, ura |-> {}, cb |-> {},
              pb |-> {}, yaw |-> {}, t0 |-> {}, iod |-> -1,
              T |-> [k \in Classes |-> -1], iods |-> [k \in Classes |-> -1],
              st |-> {}]

\* accuracy in units of 0.25 mm
Qual(c, v) == IF c = 0 /\ v = 0 THEN NA
              ELSE IF c = 7 /\ v = 7 THEN 21866
              ELSE 3^c * (4 + v) - 4

Put(S, rows, n) ==       \* replace by the first n components
  {x \in S : \A r \in rows : SubSeq(x, 1, n) # SubSeq(r, 1, n)} \cup rows
Sats(rows) == {r[1] : r \in rows}

\* one class of a message: (newer epoch => start afresh), then add
Fresh(s, k, t) == IF t > s.T[k]
  THEN CASE k = "orb" -> [s EXCEPT !.orb = {}]
         [] k = "clk" -> [s EXCEPT !.clk = {}]
         [] k = "hclk" -> [s EXCEPT !.hclk = {}]
         [] k = "ura" -> [s EXCEPT !.ura = {}]
         [] k = "cb" -> [s EXCEPT !.cb = {}]
         [] k = "pb" -> [s EXCEPT !.pb = {}]
  ELSE s
Stamp(s, k, t, iod, sats) ==
  [s EXCEPT !.T[k] = t, !.iods[k] = iod, !.iod = iod, !.st = @ \cup {k},
            !.t0 = Put(@, {<<x, k, t>> : x \in sats}, 2)]

\* last row of each satellite wins (rows is a sequence)
LastRows(rows) ==
  {rows[i] : i \in {j \in 1..Len(rows) :
                      \A m \in (j+1)..Len(rows) : rows[m][1] # rows[j][1]}}
OrbRow(r) == <<r[1], r[2], SV(r[3], 22), SV(r[4], 20), SV(r[5], 20),
               SV(r[6], 21), SV(r[7], 19), SV(r[8], 19)>>
ClkRow(r) == <<r[1], SV(r[2], 22), SV(r[3], 21), SV(r[4], 27)>>
AddOrb(s, e) == LET R == {OrbRow(r) : r \in LastRows(e.orows)} IN
  Stamp([Fresh(s, "orb", e.t) EXCEPT !.orb = Put(@, R, 1)], "orb", e.t, e.iod, Sats(R))
AddClk(s, e) == LET R == {ClkRow(r) : r \in LastRows(e.crows)} IN
  Stamp([Fresh(s, "clk", e.t) EXCEPT !.clk = Put(@, R, 1)], "clk", e.t, e.iod, Sats(R))
AddHclk(s, e) == LET R == {<<r[1], SV(r[2], 22)>> : r \in LastRows(e.crows)} IN
  Stamp([Fresh(s, "hclk", e.t) EXCEPT !.hclk = Put(@, R, 1)], "hclk", e.t, e.iod, Sats(R))
AddUra(s, e) == LET R == {<<r[1], Qual(r[2], r[3])>> : r \in LastRows(e.crows)} IN
  Stamp([Fresh(s, "ura", e.t) EXCEPT !.ura = Put(@, R, 1)], "ura", e.t, e.iod, Sats(R))

\* biases: e.sats is a sequence of [s, y, dy, g], g a sequence of
\* <<identifier, value, integer, discontinuity, wide-lane>>
Known(e, q) == q[1] \in DOMAIN SigTab[e.sys]
CbRows(e) == UNION {{<<x.s, "C" \o SigTab[e.sys][q[1]], SV(q[2], 14)>> :
                       q \in {p \in ToSet(x.g) : Known(e, p)}} : x \in ToSet(e.sats)}
PbRows(e) == UNION {{<<x.s, "L" \o SigTab[e.sys][q[1]], SV(q[2], 20), q[3], q[4],
                       q[5]>> :
                       q \in {p \in ToSet(x.g) : Known(e, p)}} : x \in ToSet(e.sats)}
SatSet(e) == {x.s : x \in ToSet(e.sats)}
AddCb(s, e) == Stamp([Fresh(s, "cb", e.t) EXCEPT !.cb = Put(@, CbRows(e), 2)],
                     "cb", e.t, e.iod, SatSet(e))
AddPb(s, e) ==
  LET Y == {<<x.s, x.y, SV(x.dy, 8)>> : x \in ToSet(e.sats)}
      s1 == [Fresh(s, "pb", e.t) EXCEPT !.pb = Put(@, PbRows(e), 2),
                 !.yaw = IF e.yaw = 1 THEN Put(@, Y, 1) ELSE @]
  IN  Stamp(s1, "pb", e.t, e.iod, SatSet(e))

Ssr(s, e) ==
  CASE e.k = "orb" -> AddOrb(s, e)
    [] e.k = "clk" -> AddClk(s, e)
    [] e.k = "comb" -> AddClk(AddOrb(s, e), e)
    [] e.k = "hclk" -> AddHclk(s, e)
    [] e.k = "ura" -> AddUra(s, e)
    [] e.k = "cb" -> AddCb(s, e)
    [] e.k = "pb" -> AddPb(s, e)
    [] e.k = "vtec" -> [s EXCEPT !.st = @ \cup {"vtec"}]

View(s) == [orb |-> s.orb, clk |-> s.clk, hclk |-> s.hclk, ura |-> s.ura,
            cb |-> s.cb, pb |-> s.pb, yaw |-> s.yaw, t0 |-> s.t0, st |-> s.st,
            iod |-> s.iod, iods |-> s.iods]

Mine(S, sys) == {x \in S : x[1] \div 1000 = sys}
\* encoding one class of one constellation and decoding it in an empty decoder
Trip(s, e) ==
  CASE e.k = "orb" -> [rows |-> Mine(s.orb, e.sys)]
    [] e.k = "clk" -> [rows |-> Mine(s.clk, e.sys)]
    [] e.k = "hclk" -> [rows |-> Mine(s.hclk, e.sys)]
    [] e.k = "comb" ->
         LET o == Mine(s.orb, e.sys)  c == Mine(s.clk, e.sys)
         IN [rows |-> {<<"o">> \o x : x \in {y \in o : y[1] \in Sats(c)}} \cup
                      {<<"c">> \o x : x \in {y \in c : y[1] \in Sats(o)}}]
    [] e.k = "ura" -> [rows |-> Mine(s.ura, e.sys)]
    [] e.k = "cb" -> [rows |-> Mine(s.cb, e.sys)]
    [] e.k = "pb" -> [rows |-> {SubSeq(x, 1, 5) : x \in Mine(s.pb, e.sys)}]

RDo(s, e) ==
  IF e.op = "ssr" THEN LET n == Ssr(s, e) IN [st |-> n, out |-> View(n)]
  ELSE IF e.op = "trip" THEN [st |-> s, out |-> Trip(s, e)]
  ELSE [st |-> s, out |-> [t |-> e.t]]           \* decode_time

RSets == {"orb", "clk", "hclk", "ura", "cb", "pb", "yaw", "t0", "st", "rows"}
One(S, n) == \A x, y \in S : SubSeq(x, 1, n) = SubSeq(y, 1, n) => x = y
RInv(s) ==
  /\ One(s.orb, 1) /\ One(s.clk, 1) /\ One(s.hclk, 1) /\ One(s.ura, 1)
  /\ One(s.cb, 2) /\ One(s.pb, 2) /\ One(s.yaw, 1) /\ One(s.t0, 2)
  \* whatever is stored has a reference time of its class
  /\ \A x \in s.orb : \E y \in s.t0 : y[1] = x[1] /\ y[2] = "orb"
  /\ \A x \in s.clk : \E y \in s.t0 : y[1] = x[1] /\ y[2] = "clk"
  /\ \A x \in s.cb : \E y \in s.t0 : y[1] = x[1] /\ y[2] = "cb"
  /\ \A x \in s.pb : \E y \in s.t0 : y[1] = x[1] /\ y[2] = "pb"
==============================================================================

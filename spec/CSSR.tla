-------------------------------- MODULE CSSR ---------------------------------
(* Compact SSR correction store (IS-QZSS-L6 / Compact SSR v08).              *)
(*                                                                           *)
(* State of a receiver that is fed a stream of Compact SSR messages:         *)
(*   week     GPS week given by the user (-1 unknown)                        *)
(*   tow0     hour the last mask message belongs to (-1: no mask yet)        *)
(*   tow,time time of the last message header                                *)
(*   iod/iodp current / previous mask issue                                  *)
(*   sats     current mask: sequence of <<sat, sequence of signals>>         *)
(*   satsp    satellites of the previous mask                                *)
(*   iodc     issue under which <<orbit, clock, code bias, phase bias>> were *)
(*            received                                                       *)
(*   lc       per network (0 = global) the corrections in force              *)
(* A message is a record with the values the *sender* put in it, satellite   *)
(* by satellite; the receiver has only the bits and its own mask, so the     *)
(* correspondence of values and satellites is exactly what is checked.       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

NAN == -999999999
NOTIME == -1

RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n-1)

\* two's complement field of n bits: the most negative value means "unknown"
SVal(v, n) == IF v = -Pow(2, n-1) THEN NAN ELSE v

\* quality indicator in units of 0.25 mm (DF389): 0/0 unknown, 7/7 > 5.4665 m
Quality(c, v) ==
  IF c = 7 /\ v = 7 THEN 21866
  ELSE IF c = 0 /\ v = 0 THEN NAN
  ELSE Pow(3, c) * (4 + v) - 4

EmptyLC == [ orb |-> {}, clk |-> {}, cb |-> {}, pb |-> {}, ura |-> {},
             st |-> {}, t |-> {} ]

EmptyAtm == [ ng |-> 0, sats |-> <<>>, trop |-> 0, stec |-> 0, ct |-> <<>>,
              dth |-> <<>>, dtw |-> <<>>, ci |-> {}, dst |-> {},
              tq |-> NAN, sq |-> {}, st |-> {} ]

CStart(c) ==
  [ week |-> c.week, tow0 |-> -1, tow |-> 0, time |-> NOTIME,
    iod |-> -1, iodp |-> -1, sats |-> <<>>, satsp |-> <<>>,
    iodc |-> <<-1, -1, -1, -1>>,
    lc |-> [n \in ToSet(c.nets) |-> EmptyLC],
    atm |-> [n \in ToSet(c.nets) |-> EmptyAtm] ]

------------------------------------------------------------------------------
Head_(st, m) ==
  LET tow0 == IF m.t = "MASK" THEN (m.tow \div 3600) * 3600 ELSE st.tow0
      tow  == IF m.t = "MASK" THEN m.tow
              ELSE IF st.tow0 >= 0 THEN st.tow0 + m.dtow ELSE st.tow
      time == IF st.week >= 0 THEN (st.week - 2000) * 604800 + tow ELSE st.time
  IN [st EXCEPT !.tow0 = tow0, !.tow = tow, !.time = time]

SatIds(s) == [i \in 1..Len(s) |-> s[i][1]]

Mask(st, m) ==
  LET chg == st.iod # m.iod IN
  [st EXCEPT !.iodp  = IF chg THEN st.iod ELSE @,
             !.satsp = IF chg THEN SatIds(st.sats) ELSE @,
             !.iod   = m.iod,
             !.sats  = m.sats,
             !.lc[0].st = @ \cup {"mask"}]

\* replace the times of application of (sat,type) pairs
Stamp(t, ids, ty, time) ==
  {x \in t : ~ (x[2] = ty /\ x[1] \in ids)} \cup {<<s, ty, time>> : s \in ids}

OrbRow(r) == <<r[1], r[2], SVal(r[3], 15), SVal(r[4], 13), SVal(r[5], 13)>>
ClkRow(r) == <<r[1], SVal(r[2], 15)>>
CbRow(r)  == <<r[1], r[2], SVal(r[3], 11)>>
PbRow(r)  == <<r[1], r[2], SVal(r[3], 15), r[4]>>
UraRow(r) == <<r[1], Quality(r[2], r[3])>>

MapSet(F(_), s) == {F(s[i]) : i \in 1..Len(s)}
Ids(s) == {s[i][1] : i \in 1..Len(s)}

PutOrb(st, n, rows) ==
  [st EXCEPT !.lc[n].orb = MapSet(OrbRow, rows),
             !.lc[n].t = Stamp(@, Ids(rows), "orb", st.time),
             !.lc[n].st = @ \cup {"orb"}]
PutClk(st, n, rows) ==
  [st EXCEPT !.lc[n].clk = MapSet(ClkRow, rows),
             !.lc[n].t = Stamp(@, Ids(rows), "clk", st.time),
             !.lc[n].st = @ \cup {"clk"}]
PutCb(st, n, rows) ==
  [st EXCEPT !.lc[n].cb = MapSet(CbRow, rows),
             !.lc[n].t = Stamp(@, Ids(rows), "cb", st.time),
             !.lc[n].st = @ \cup {"cb"}]
PutPb(st, n, rows) ==
  [st EXCEPT !.lc[n].pb = MapSet(PbRow, rows),
             !.lc[n].t = Stamp(@, Ids(rows), "pb", st.time),
             !.lc[n].st = @ \cup {"pb"}]
SetIod(st, k, iod) == [st EXCEPT !.iodc[k] = iod]

Bias(st, m) ==
  LET n == IF m.net = 1 THEN m.inet ELSE 0
      a == IF m.cb = 1 THEN SetIod(PutCb(st, n, m.cbrows), 3, m.iod) ELSE st
      b == IF m.pb = 1 THEN SetIod(PutPb(a, n, m.pbrows), 4, m.iod) ELSE a
  IN b

Comb(st, m) ==
  LET n == IF m.net = 1 THEN m.inet ELSE 0
      a == IF m.orb = 1 THEN PutOrb(st, n, m.orows) ELSE st
      b == IF m.clk = 1 THEN PutClk(a, n, m.crows) ELSE a
  IN b

------------------------------------------------------------------------------
(* atmosphere *)
CI(r) == <<r[1], SVal(r[2], 14),
           IF r[8] > 0 THEN SVal(r[3], 12) ELSE 0,
           IF r[8] > 0 THEN SVal(r[4], 12) ELSE 0,
           IF r[8] > 1 THEN SVal(r[5], 10) ELSE 0,
           IF r[8] > 2 THEN SVal(r[6], 8) ELSE 0,
           IF r[8] > 2 THEN SVal(r[7], 8) ELSE 0>>

StecSz  == <<4, 4, 5, 7>>
StecScl == <<1, 3, 4, 6>>          \* in units of 0.04 TECU
StecRes(v, k) == LET x == SVal(v, StecSz[k+1]) IN
                 IF x = NAN THEN NAN ELSE x * StecScl[k+1]

SeqMap(F(_), s) == [i \in 1..Len(s) |-> F(s[i])]

\* m.sats local satellites; m.ci rows <<sat,c00..c02,stype>>, m.q <<sat,cl,v>>
Stec(st, m) ==
  [st EXCEPT !.atm[m.inet].sats = m.sats,
             !.atm[m.inet].stec = 2,
             !.atm[m.inet].ci = MapSet(CI, m.ci),
             !.atm[m.inet].sq = MapSet(UraRow, m.q),
             !.atm[m.inet].st = @ \cup {"stec"}]

Grid(st, m) ==
  LET sz == IF m.range = 0 THEN 7 ELSE 16
      S9(v) == SVal(v, 9)
      S8(v) == SVal(v, 8)
      RowG(r) == <<r[1], [j \in 1..m.ng |-> SVal(r[2][j], sz)]>>
  IN [st EXCEPT !.atm[m.inet] =
        [@ EXCEPT !.ng = m.ng, !.sats = m.sats,
                  !.trop = IF m.ttype > 0 THEN 3 ELSE 0,
                  !.tq = Quality(m.tq[1], m.tq[2]),
                  \* ZTD nominal values 2.3 m and 0.252 m, LSB 1 mm
                  !.ct = <<2300, 0, 0, 0, 252>>,
                  !.dth = IF m.ttype > 0 THEN SeqMap(S9, m.dth)
                          ELSE [j \in 1..m.ng |-> 0],
                  !.dtw = IF m.ttype > 0 THEN SeqMap(S8, m.dtw)
                          ELSE [j \in 1..m.ng |-> 0],
                  !.dst = MapSet(RowG, m.dst),
                  !.st = @ \cup {"trop"}]]

\* coefficients of the functional troposphere in units of 1 mm
Mm(v, n, k) == LET x == SVal(v, n) IN IF x = NAN THEN NAN ELSE k * x

Bit(v, k) == (v \div Pow(2, k)) % 2

Atmos(st, m) ==
  LET fun == Bit(m.trop, 1) = 1
      res == Bit(m.trop, 0) = 1
      szt == IF m.tsz = 0 THEN 6 ELSE 8
      RT(v) == SVal(v, szt)
      t00 == Mm(m.tc[1], 9, 4)
      ct == IF fun
            THEN << IF t00 = NAN THEN NAN ELSE t00 + 2300,
                    IF m.ttype > 0 THEN Mm(m.tc[2], 7, 2) ELSE 0,
                    IF m.ttype > 0 THEN Mm(m.tc[3], 7, 2) ELSE 0,
                    IF m.ttype > 1 THEN Mm(m.tc[4], 7, 1) ELSE 0 >>
            ELSE <<0, 0, 0, 0>>
      RowA(r) == <<r[1], [j \in 1..m.ng |-> StecRes(r[3][j], r[2])]>>
      a == st.atm[m.inet]
  IN [st EXCEPT !.atm[m.inet] =
        [a EXCEPT !.ng = m.ng, !.sats = m.sats,
                  !.trop = m.trop, !.stec = m.stec,
                  !.tq = IF m.trop > 0 THEN Quality(m.tq[1], m.tq[2]) ELSE @,
                  !.ct = ct \o << IF res THEN 20 * m.tof ELSE 0 >>,
                  !.dtw = IF res THEN SeqMap(RT, m.dtw) ELSE @,
                  !.sq = IF m.stec > 0 THEN MapSet(UraRow, m.q) ELSE {},
                  !.ci = IF Bit(m.stec, 1) = 1 THEN MapSet(CI, m.ci) ELSE @,
                  !.dst = IF Bit(m.stec, 0) = 1 THEN MapSet(RowA, m.dst) ELSE @,
                  !.st = @ \cup (IF m.trop > 0 THEN {"trop"} ELSE {})
                           \cup (IF m.stec > 0 THEN {"stec"} ELSE {})]]

------------------------------------------------------------------------------
(* one message: [st, go] - go FALSE means the rest of the buffer is dropped. *)
(* A message whose issue is not that of the mask in force is not applied:    *)
(* its cells cannot be attributed to satellites.                             *)
Message(st0, m) ==
  LET st == Head_(st0, m)
      good == m.iod = st.iod
  IN CASE m.t = "MASK" -> [st |-> Mask(st, m), go |-> TRUE]
       [] ~good        -> [st |-> st, go |-> FALSE]
       [] m.t = "ORB"  -> [st |-> SetIod(PutOrb(st, 0, m.orows), 1, m.iod), go |-> TRUE]
       [] m.t = "CLK"  -> [st |-> SetIod(PutClk(st, 0, m.crows), 2, m.iod), go |-> TRUE]
       [] m.t = "CB"   -> [st |-> SetIod(PutCb(st, 0, m.cbrows), 3, m.iod), go |-> TRUE]
       [] m.t = "PB"   -> [st |-> SetIod(PutPb(st, 0, m.pbrows), 4, m.iod), go |-> TRUE]
       [] m.t = "BIAS" -> [st |-> Bias(st, m), go |-> TRUE]
       [] m.t = "COMB" -> [st |-> Comb(st, m), go |-> TRUE]
       [] m.t = "URA"  -> [st |-> [st EXCEPT !.lc[0].ura = MapSet(UraRow, m.rows),
                                              !.lc[0].st = @ \cup {"ura"}],
                           go |-> TRUE]
       [] m.t = "STEC" -> [st |-> Stec(st, m), go |-> TRUE]
       [] m.t = "GRID" -> [st |-> Grid(st, m), go |-> TRUE]
       [] m.t = "ATM"  -> [st |-> Atmos(st, m), go |-> TRUE]

Buffer(st, msgs) ==
  FoldLeft(LAMBDA a, m : IF a.go THEN Message(a.st, m) ELSE a,
           [st |-> st, go |-> TRUE], msgs)

------------------------------------------------------------------------------
(* completeness and expiry (P06) *)
Complete(st, inet, localpb) ==
  /\ {"mask", "orb", "clk", "cb"} \subseteq st.lc[0].st
  /\ {"stec", "trop"} \subseteq st.atm[inet].st
  /\ localpb => "pb" \in st.lc[inet].st

TMaxClk == 30
TMaxOrb == 120
Stamps(st, s, ty) == {x[3] : x \in {y \in st.lc[0].t : y[1] = s /\ y[2] = ty}}
Seen(st, s) == \E y \in st.lc[0].t : y[1] = s
Old(st, s, ty, now, lim) ==
  LET q == Stamps(st, s, ty) \ {NOTIME} IN
  q = {} \/ \E x \in q : now - x > lim

\* clock and orbit corrections of the satellites of the mask that are too old
\* are replaced by "no correction" (zero, and an issue that matches nothing)
Expire(st, now) ==
  LET mine == {s \in ToSet(SatIds(st.sats)) : Seen(st, s)}
      xc == IF "clk" \in st.lc[0].st
            THEN {s \in mine : Old(st, s, "clk", now, TMaxClk)} ELSE {}
      xo == IF "orb" \in st.lc[0].st
            THEN {s \in mine : Old(st, s, "orb", now, TMaxOrb)} ELSE {}
  IN [st EXCEPT
        !.lc[0].clk = {r \in @ : r[1] \notin xc} \cup {<<s, 0>> : s \in xc},
        !.lc[0].orb = {r \in @ : r[1] \notin xo}
                      \cup {<<s, -1, 0, 0, 0>> : s \in xo}]

------------------------------------------------------------------------------
(* observations *)
ObsLC(st, n) == LET c == st.lc[n] IN
  <<n, c.orb, c.clk, c.cb, c.pb, c.ura, c.st, c.t>>

\* flattened: every row is tagged with its network
Flat(st, f) == UNION {{<<n>> \o x : x \in st.lc[n][f]} : n \in DOMAIN st.lc}
FlatS(st, f) == UNION {{<<ToString(n), x>> : x \in st.lc[n][f]} : n \in DOMAIN st.lc}

ObsGlobal(st) ==
  [ iod |-> st.iod, iodp |-> st.iodp, tow |-> st.tow, time |-> st.time,
    sats |-> SatIds(st.sats), satsp |-> st.satsp,
    sigs |-> [i \in 1..Len(st.sats) |-> st.sats[i][2]],
    iodc |-> st.iodc,
    orb |-> Flat(st, "orb"), clk |-> Flat(st, "clk"), cb |-> Flat(st, "cb"),
    pb |-> Flat(st, "pb"), ura |-> Flat(st, "ura"), st |-> FlatS(st, "st"),
    tt |-> {x \in Flat(st, "t") : x[4] # NOTIME} ]

GlobalSets == {"orb", "clk", "cb", "pb", "ura", "st", "tt"}

ObsAtm(st, n) ==
  LET a == st.atm[n] IN
  [ ng |-> a.ng, lsats |-> a.sats, trop |-> a.trop, stec |-> a.stec,
    ct |-> a.ct, dth |-> a.dth, dtw |-> a.dtw, ci |-> a.ci, dst |-> a.dst,
    tq |-> a.tq, sq |-> a.sq ]
==============================================================================

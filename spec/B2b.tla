--------------------------------- MODULE B2b ----------------------------------
(* BeiDou PPP-B2b corrections (message types 1 to 7).                        *)
(*                                                                           *)
(* Satellites are 1000*system + PRN (1 GPS, 2 GLO, 3 GAL, 4 BDS).  A slot of *)
(* the mask denotes one satellite: 1..63 BDS, 64..100 GPS, 101..137 Galileo, *)
(* 138..174 GLONASS.  The mask in force is the sequence of its satellites in *)
(* slot order; clock (type 4), accuracy (type 5) and combined (type 6)       *)
(* messages refer to positions of that sequence, orbit, bias and type 7      *)
(* messages to slots.  Values are the transmitted integers.                  *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

NA == -999999999
Mx(n) == 2^(n-1)
\* the two most negative values are "not available"
SV(v, n) == IF v = -Mx(n) \/ v = 1 - Mx(n) THEN NA ELSE v
Neg(v) == IF v = NA THEN NA ELSE 0 - v

Sat(slot) == IF slot \in 1..63 THEN 4000 + slot
             ELSE IF slot \in 64..100 THEN 1000 + slot - 63
             ELSE IF slot \in 101..137 THEN 3000 + slot - 100
             ELSE IF slot \in 138..174 THEN 2000 + slot - 137 ELSE 0
Sys(s) == s \div 1000
SigTab == <<
  (0 :> "1C" @@ 1 :> "1P" @@ 4 :> "1L" @@ 5 :> "1X" @@ 7 :> "2L" @@ 8 :> "2X"
   @@ 11 :> "5I" @@ 12 :> "5Q" @@ 13 :> "5X"),
  (0 :> "1C" @@ 1 :> "1P" @@ 2 :> "2C"),
  (1 :> "1B" @@ 2 :> "1C" @@ 4 :> "5Q" @@ 5 :> "5I" @@ 7 :> "7I" @@ 8 :> "7Q"
   @@ 11 :> "6C"),
  (0 :> "2I" @@ 1 :> "1D" @@ 2 :> "1P" @@ 4 :> "5D" @@ 5 :> "5P" @@ 7 :> "7D"
   @@ 8 :> "7P" @@ 12 :> "6I") >>

\* accuracy in units of 0.25 mm
Qual(c, v) == IF c = 0 /\ v = 0 THEN NA
              ELSE IF c = 7 /\ v = 7 THEN 21866
              ELSE 3^c * (4 + v) - 4

BStart(c) == [iod |-> -1, iodp |-> -1, sats |-> <<>>, orb |-> {}, clk |-> {},
              clkp |-> {}, cb |-> {}, ura |-> {}, t0 |-> {}, st |-> {},
              iods |-> [k \in {"orb", "clk", "cb"} |-> -1], T |-> -1]

InMask(s, x) == \E i \in 1..Len(s.sats) : s.sats[i] = x
Put(S, r, n) == {x \in S : SubSeq(x, 1, n) # SubSeq(r, 1, n)} \cup {r}
Get1(S, k) == CHOOSE x \in S : x[1] = k
Has(S, k) == \E x \in S : x[1] = k

\* type 1: a new mask issue withdraws everything, a repeated one nothing
MaskSeq(e) == [i \in DOMAIN e.slots |-> Sat(e.slots[i])]
DoMask(s, e) ==
  LET n == [s EXCEPT !.iod = e.iod, !.st = @ \cup {"mask"}, !.T = e.t]
  IN  IF e.iodp = s.iodp THEN n
      ELSE [n EXCEPT !.iodp = e.iodp, !.sats = MaskSeq(e), !.orb = {},
                     !.clk = {}, !.clkp = {}, !.cb = {}, !.ura = {}]

\* <<slot, IODN, IODCorr, radial, along, cross, class, value>>
OrbRow(s, r, t) ==
  LET x == Sat(r[1])
      n == IF Sys(x) \in {1, 4} THEN r[2] % 256 ELSE r[2]
  IN  IF ~InMask(s, x) THEN s
      ELSE [s EXCEPT
             !.orb = Put(@, <<x, n, r[3], SV(r[4], 15), SV(r[5], 13),
                              SV(r[6], 13)>>, 1),
             !.ura = Put(@, <<x, Qual(r[7], r[8])>>, 1),
             !.t0 = Put(@, <<x, "orb", t>>, 2)]
OrbRows(s, rows, e) ==
  [FoldLeft(LAMBDA q, r : OrbRow(q, r, e.t), s, rows)
   EXCEPT !.st = @ \cup {"orb"}, !.iods["orb"] = e.iod]

\* clock of satellite x; the one of the previous IODCorr is kept aside
ClkSat(s, x, iodc, v, t) ==
  LET old == IF Has(s.clk, x) THEN Get1(s.clk, x) ELSE <<>>
      p == IF old # <<>> /\ old[2] # iodc THEN Put(s.clkp, old, 1) ELSE s.clkp
  IN  [s EXCEPT !.clk = Put(@, <<x, iodc, Neg(SV(v, 15))>>, 1), !.clkp = p,
                !.t0 = Put(@, <<x, "clk", t>>, 2)]
ClkDone(s, e) == [s EXCEPT !.st = @ \cup {"clk"}, !.iods["clk"] = e.iod]
\* rows <<iodc, v>> from position k0 (counting from 0) of the mask
ClkPos(s, rows, k0, e) ==
  LET F[i \in 0..Len(rows)] ==
        IF i = 0 THEN s
        ELSE LET p == k0 + i IN
             IF p \in 1..Len(s.sats)
             THEN ClkSat(F[i-1], s.sats[p], rows[i][1], rows[i][2], e.t)
             ELSE F[i-1]
  IN  ClkDone(F[Len(rows)], e)
\* rows <<slot, iodc, v>>
ClkSlot(s, rows, e) ==
  ClkDone(FoldLeft(LAMBDA q, r : IF InMask(s, Sat(r[1]))
                     THEN ClkSat(q, Sat(r[1]), r[2], r[3], e.t) ELSE q,
                   s, rows), e)

\* type 3: [slot, g], g a sequence of <<identifier, value>>
CbSat(s, r, t) ==
  LET x == Sat(r.slot)
      tab == SigTab[Sys(x)]
      new == {<<x, "C" \o tab[r.g[i][1]], SV(r.g[i][2], 12)>> : i \in
                {j \in DOMAIN r.g : r.g[j][1] \in DOMAIN tab}}
  IN  IF ~InMask(s, x) THEN s
      ELSE [s EXCEPT !.cb = {q \in @ : q[1] # x} \cup new,
                     !.t0 = Put(@, <<x, "cb", t>>, 2)]
DoCb(s, e) == [FoldLeft(LAMBDA q, r : CbSat(q, r, e.t), s, e.rows)
               EXCEPT !.st = @ \cup {"cb"}, !.iods["cb"] = e.iod]

\* type 5: rows <<class, value>> from position 70*st
DoUra(s, e) ==
  LET F[i \in 0..Len(e.rows)] ==
        IF i = 0 THEN s
        ELSE LET p == 70 * e.sub + i IN
             IF p \in 1..Len(s.sats)
             THEN [F[i-1] EXCEPT !.ura = Put(@, <<s.sats[p],
                                   Qual(e.rows[i][1], e.rows[i][2])>>, 1)]
             ELSE F[i-1]
  IN  [F[Len(e.rows)] EXCEPT !.st = @ \cup {"ura"}]

Part(s, e) ==      \* one message, or one half of a combined message
  IF e.iod # s.iod THEN s
  ELSE IF e.k = "orb" THEN OrbRows(s, e.rows, e)
  ELSE IF e.k = "cb" THEN DoCb(s, e)
  ELSE IF e.k = "clks" THEN ClkSlot(s, e.rows, e)
  ELSE IF e.iodp # s.iodp THEN s
  ELSE IF e.k = "clk" THEN ClkPos(s, e.rows, e.sub, e)
  ELSE DoUra(s, e)
At(s, e) == [s EXCEPT !.T = e.t]
\* e.parts: the clock half, then the orbit half; an empty half is absent
Comb(s, e) == FoldLeft(LAMBDA q, p : IF p.rows = <<>> THEN q
                                     ELSE At(Part(q, p), p), s, e.parts)

View(s) == [orb |-> s.orb, clk |-> s.clk, clkp |-> s.clkp, cb |-> s.cb,
            ura |-> s.ura, t0 |-> s.t0, st |-> s.st, iod |-> s.iod,
            iodp |-> s.iodp, sats |-> s.sats, iods |-> s.iods, T |-> s.T]
BNext(s, e) == CASE e.op = "mask" -> DoMask(s, e)
                 [] e.op = "msg" -> At(Part(s, e), e)
                 [] e.op = "comb" -> Comb(s, e)
                 [] e.op = "other" -> s
BDo(s, e) == LET n == BNext(s, e) IN [st |-> n, out |-> View(n)]
BSets == {"orb", "clk", "clkp", "cb", "ura", "t0", "st"}

Keys(S) == {x[1] : x \in S}
One(S, n) == \A x, y \in S : SubSeq(x, 1, n) = SubSeq(y, 1, n) => x = y
BInv(s) ==
  /\ One(s.orb, 1) /\ One(s.clk, 1) /\ One(s.clkp, 1) /\ One(s.cb, 2)
  /\ One(s.ura, 1) /\ One(s.t0, 2)
  \* corrections exist only for satellites of the mask in force
  /\ \A S \in {Keys(s.orb), Keys(s.clk), Keys(s.clkp), Keys(s.cb), Keys(s.ura)} :
        \A x \in S : InMask(s, x)
  /\ \A x \in s.orb : \E y \in s.t0 : y[1] = x[1] /\ y[2] = "orb"
  /\ \A x \in s.clk : \E y \in s.t0 : y[1] = x[1] /\ y[2] = "clk"
  /\ \A x \in s.clkp : \E y \in s.clk : y[1] = x[1] /\ x # y
  /\ s.iod = -1 => s.orb = {} /\ s.clk = {} /\ s.cb = {} /\ s.ura = {}
==============================================================================

--------------------------------- MODULE Eph ---------------------------------
(* Broadcast ephemeris selection and application of orbit/clock corrections. *)
(* Satellites are numbers  system*1000 + prn  (1 GPS, 2 GLO, 3 GAL, 4 BDS,    *)
(* 5 QZS, 6 SBS, 7 IRN); times are seconds.                                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC

NaN == -999999999
Abs(x) == IF x < 0 THEN -x ELSE x
Sys(s) == s \div 1000
\* validity limit of an ephemeris around its reference time
MaxAge(sys) == <<7201, 1800, 14400, 7201, 7201, 360, 7201>>[sys]

\* ---------------------------------------------------------------- selection
\* records: [id, sat, iode, toe, mode]
Fits(r, t, sat, iode, mode, u) ==
  /\ r.sat = sat /\ r.mode = mode
  /\ (iode >= 0 => r.iode = iode)
  /\ Abs(t - r.toe) <= MaxAge(Sys(sat)) * u
\* u: clock ticks per second
Candidates(recs, t, sat, iode, mode, u) ==
  LET C == {r \in recs : Fits(r, t, sat, iode, mode, u)} IN
  IF iode >= 0 THEN C
  ELSE {r \in C : \A q \in C : Abs(t - r.toe) <= Abs(t - q.toe)}

FStart(c) == [recs |-> {}]
FSets == {}
FInv(st) == TRUE

Pick(C, seen) ==
  IF C = {} THEN 0
  ELSE IF \E r \in C : r.id = seen THEN seen
  ELSE (CHOOSE r \in C : TRUE).id

FDo(st, e) ==
  CASE e.op = "add" -> [st |-> [recs |-> st.recs \cup {e.r}], out |-> [n |-> Cardinality(st.recs) + 1]]
    [] e.op = "find" ->
         LET C == Candidates(st.recs, e.t, e.sat, e.iode, e.mode, 1000)
             seen == IF "id" \in DOMAIN e.out THEN e.out.id ELSE -1
         IN [st |-> st, out |-> [id |-> Pick(C, seen)]]

\* ------------------------------------------------------- applied corrections
\* state: cur/prev mask issue and satellites, issue of the orbit and clock
\* sets held, per-satellite values, mask of the HAS clock set
AStart(c) == [kind |-> c.kind, cur |-> -1, prev |-> -1, sn |-> {}, snp |-> {},
              oi |-> -1, ci |-> -1, mid |-> -1, midc |-> -1, hc |-> 0,
              orb |-> <<>>, clk |-> <<>>, clkp |-> <<>>, hck |-> <<>>, recs |-> {}]
ASets == {"store"}

Put(f, k, v) == (k :> v) @@ f
Has(f, k) == k \in DOMAIN f
Rates(k) == k \in {"PVS", "SBAS1", "SBAS5"}

\* mode of the navigation message the corrections refer to
NavMode(kind, sys) ==
  CASE kind = "PVS" -> IF sys = 3 THEN 1 ELSE 0
    [] kind \in {"SBAS1", "SBAS5", "DGPS"} -> IF sys = 3 THEN 1 ELSE 0
    [] OTHER -> IF sys = 4 THEN 1 ELSE 0

OrbitOk(st, s) ==
  \/ st.cur >= 0 /\ st.oi = st.cur /\ s \in st.sn
  \/ st.prev >= 0 /\ st.oi = st.prev /\ st.oi # st.cur /\ s \in st.snp
ClockSetOk(st, s) ==
  IF st.kind = "HAS" THEN (st.mid # st.midc => s \in st.snp)
  ELSE \/ st.ci = st.cur /\ s \in st.sn
       \/ st.ci = st.prev /\ st.ci # st.cur /\ s \in st.snp

\* clock value in use: <<found, value, rate, t0>>
ClockOf(st, s) ==
  IF st.kind = "BDS"
  THEN IF Has(st.clk, s) /\ st.clk[s].iodc = st.orb[s].iodc THEN <<TRUE, st.clk[s].v, 0, 0>>
       ELSE IF Has(st.clkp, s) /\ st.clkp[s].iodc = st.orb[s].iodc THEN <<TRUE, st.clkp[s].v, 0, 0>>
       ELSE <<FALSE, 0, 0, 0>>
  ELSE IF ~ClockSetOk(st, s) \/ ~Has(st.clk, s) THEN <<FALSE, 0, 0, 0>>
  ELSE LET c == st.clk[s]
           h == IF st.hc = 1 /\ Has(st.hck, s) /\ st.hck[s] # NaN THEN st.hck[s] ELSE 0
       IN IF c.v = NaN THEN <<FALSE, 0, 0, 0>> ELSE <<TRUE, c.v + h, c.r, c.t0>>

Corr(st, s) ==
  IF ~OrbitOk(st, s) \/ ~Has(st.orb, s) THEN [ok |-> FALSE]
  ELSE LET o == st.orb[s]   c == ClockOf(st, s) IN
       IF ~c[1] \/ c[2] = NaN \/ NaN \in {o.d[1], o.d[2], o.d[3]} THEN [ok |-> FALSE]
       ELSE [ok |-> TRUE, o |-> o, c |-> c]

\* the correction at time t, in mm
\* (seen: among equally good records the code may take any)
Apply(st, s, t, seen) ==
  LET x == Corr(st, s) IN
  IF ~x.ok THEN [use |-> 0, id |-> 0, h |-> 0, d |-> <<0, 0, 0>>, c |-> 0]
  ELSE LET C == Candidates(st.recs, t, s, x.o.iode, NavMode(st.kind, Sys(s)), 1) IN
       IF C = {} THEN [use |-> 0, id |-> 0, h |-> 1, d |-> <<0, 0, 0>>, c |-> 0]
       ELSE LET r == CHOOSE q \in C : q.id = Pick(C, seen)
                dt == t - x.o.t0
                v == IF Rates(st.kind) THEN x.o.v ELSE <<0, 0, 0>>
                rt == IF Rates(st.kind) THEN x.c[3] * (t - x.c[4]) ELSE 0
                tgd == IF (Rates(st.kind) \/ st.kind = "DGPS") /\ Sys(s) = 1 THEN r.tgd ELSE 0
            IN [use |-> 1, id |-> r.id, h |-> r.h,
                d |-> <<x.o.d[1] + v[1]*dt, x.o.d[2] + v[2]*dt, x.o.d[3] + v[3]*dt>>,
                c |-> x.c[2] + rt - tgd]

\* what the user sees stored
Store(st) ==
  {<<s, "orb", st.orb[s].iode, st.orb[s].d[1], st.orb[s].d[2], st.orb[s].d[3]>> : s \in DOMAIN st.orb}
  \cup {<<s, "clk", st.clk[s].v, 0, 0, 0>> : s \in DOMAIN st.clk}

Upd(st, e) ==
  CASE e.op = "mask" ->
         [st EXCEPT !.prev = st.cur, !.snp = st.sn, !.cur = e.iod, !.sn = ToSet(e.sats),
                    !.mid = e.iod]
    [] e.op = "orb" ->
         [st EXCEPT !.oi = e.iod,
                    !.orb = FoldSeq(LAMBDA r, f : Put(f, r[1],
                              [iode |-> r[2], iodc |-> r[3], d |-> <<r[4], r[5], r[6]>>,
                               v |-> <<r[7], r[8], r[9]>>, t0 |-> e.t]), @, e.rows)]
    [] e.op = "clk" ->
         LET new == FoldSeq(LAMBDA r, f : Put(f, r[1],
                       [iodc |-> r[2], v |-> r[3], r |-> r[4], t0 |-> e.t]), st.clk, e.rows)
             ch == {s \in DOMAIN st.clk : Has(new, s) /\ new[s].iodc # st.clk[s].iodc}
         IN [st EXCEPT !.ci = e.iod, !.midc = e.iod, !.clk = new,
                       !.clkp = [s \in (DOMAIN @) \cup ch |-> IF s \in ch THEN st.clk[s] ELSE @[s]]]
    [] e.op = "hclk" -> [st EXCEPT !.hc = e.on, !.hck = FoldSeq(LAMBDA r, f : Put(f, r[1], r[2]), @, e.rows)]
    [] e.op = "add" -> [st EXCEPT !.recs = @ \cup {e.r}]
    [] OTHER -> st

ADo(st, e) ==
  IF e.op = "pos"
  THEN [st |-> st,
        out |-> [r |-> [k \in 1..Len(e.sats) |-> Apply(st, e.sats[k], e.t, IF "r" \in DOMAIN e.out THEN e.out.r[k].id ELSE -1)],
                 store |-> Store(st)]]
  ELSE [st |-> Upd(st, e), out |-> [x |-> 0]]
AInv(st) == TRUE
==============================================================================

--------------------------------- MODULE HAS ---------------------------------
(* Galileo HAS correction messages (HAS SIS ICD 1.0, section 5).             *)
(* A message carries a mask id, an IOD set id and any of the blocks mask,    *)
(* orbit, clock, clock subset, code bias, phase bias.  Blocks other than the *)
(* mask are attributed to satellites through the mask held; a message whose  *)
(* mask is neither in it nor held changes nothing.                           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

NAN == -999999999
NOTIME == -1
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n-1)

\* both ends of the range are reserved: not available / do not use
V(v, n) == IF v = -Pow(2, n-1) \/ v = Pow(2, n-1)-1 THEN NAN ELSE v
Neg(x) == IF x = NAN THEN NAN ELSE -x
Mul(x, k) == IF x = NAN THEN NAN ELSE x * k

AStart(c) ==
  [ week |-> c.week, tow0 |-> c.tow0, tow |-> 0, time |-> NOTIME,
    mid |-> -1, midc |-> -1, iod |-> -1, iodc |-> <<-1, -1, -1, -1>>,
    sats |-> <<>>, orb |-> {}, clk |-> {}, cb |-> {}, pb |-> {}, t |-> {} ]

SatIds(s) == [i \in 1..Len(s) |-> s[i][1]]
Ids(s) == {s[i][1] : i \in 1..Len(s)}
MapSet(F(_), s) == {F(s[i]) : i \in 1..Len(s)}
Stamp(t, ids, ty, time) ==
  {x \in t : ~ (x[2] = ty /\ x[1] \in ids)} \cup {<<s, ty, time>> : s \in ids}

\* HAS corrections are added by the user: stored with the opposite sign of the
\* Compact SSR convention
OrbRow(r) == <<r[1], r[2], Neg(V(r[3], 13)), Neg(V(r[4], 12)), Neg(V(r[5], 12))>>
CbRow(r) == <<r[1], r[2], V(r[3], 11)>>
PbRow(r) == <<r[1], r[2], V(r[3], 11), r[4]>>
\* r = <<sat, value, multiplier>>
ClkRow(r) == <<r[1], Mul(V(r[2], 13), r[3])>>

Msg(st0, m) ==
  IF m.toh >= 3600 \/ (m.mask = 0 /\ m.mid # st0.mid) THEN st0
  ELSE
  LET tow == st0.tow0 + m.toh
      st1 == [st0 EXCEPT !.iod = m.iod]
      blocks == m.mask + m.orb + m.clk + m.sub + m.cb + m.pb > 0
      st2 == IF blocks /\ st0.tow0 >= 0
             THEN [st1 EXCEPT !.tow = tow,
                     !.time = IF st0.week >= 0 THEN (st0.week-2000)*604800 + tow ELSE @]
             ELSE st1
      st3 == IF m.mask = 1
             THEN [st2 EXCEPT !.mid = m.mid, !.sats = m.sats] ELSE st2
      st4 == IF m.orb = 1
             THEN [st3 EXCEPT !.orb = MapSet(OrbRow, m.orows), !.iodc[1] = m.iod,
                              !.t = Stamp(@, Ids(m.orows), "orb", st3.time)] ELSE st3
      st5 == IF m.clk = 1
             THEN [st4 EXCEPT !.clk = MapSet(ClkRow, m.crows), !.iodc[2] = m.iod,
                              !.midc = m.mid,
                              !.t = Stamp(@, Ids(m.crows), "clk", st4.time)] ELSE st4
      st6 == IF m.sub = 1
             THEN [st5 EXCEPT !.clk = {r \in @ : r[1] \notin Ids(m.srows)}
                                      \cup MapSet(ClkRow, m.srows),
                              !.t = Stamp(@, Ids(m.srows), "clk", st5.time)] ELSE st5
      st7 == IF m.cb = 1
             THEN [st6 EXCEPT !.cb = MapSet(CbRow, m.cbrows), !.iodc[3] = m.iod,
                              !.t = Stamp(@, Ids(m.cbrows), "cb", st6.time)] ELSE st6
      st8 == IF m.pb = 1
             THEN [st7 EXCEPT !.pb = MapSet(PbRow, m.pbrows), !.iodc[4] = m.iod,
                              !.t = Stamp(@, Ids(m.pbrows), "pb", st7.time)] ELSE st7
  IN st8

Obs(st) ==
  [ mid |-> st.mid, iod |-> st.iod, tow |-> st.tow, time |-> st.time,
    iodc |-> st.iodc, sats |-> SatIds(st.sats), orb |-> st.orb, clk |-> st.clk,
    cb |-> st.cb, pb |-> st.pb, tt |-> {x \in st.t : x[3] # NOTIME} ]
ASets == {"orb", "clk", "cb", "pb", "tt"}

ADo(st, e) == LET n == Msg(st, e.m) IN [st |-> n, out |-> Obs(n)]
AInv(st) == TRUE
==============================================================================

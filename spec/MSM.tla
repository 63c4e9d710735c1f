--------------------------------- MODULE MSM ---------------------------------
(* RTCM 3 multiple signal messages.                                          *)
(*                                                                           *)
(* A message [sys, k (1..7), w (GPS week of the receiver), ep, sats, sigs,   *)
(* cells, data]: sats is a sequence of <<sat, rough ms, rough ms/1024,       *)
(* extended info, rough rate m/s>>, sigs the signal numbers, cells[i] the    *)
(* set (sorted sequence) of the signal numbers sent for satellite i, and     *)
(* data one row <<pseudorange, phase, lock, half, cnr, rate>> for each cell, *)
(* satellite by satellite.  Ranges come out in milliseconds of light travel  *)
(* <<ms, 1/1024 ms, fine>> where fine counts 2^-29 ms (pseudorange: 2^19 of  *)
(* them in 1/1024 ms) or 2^-31 ms (phase), rates in 0.1 mm/s, C/N0 in 1/16   *)
(* dB-Hz.                                                                    *)
(*                                                                           *)
(* Memory: the last lock-time indicator of every cell seen, and the channel  *)
(* number of GLONASS satellites.                                             *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

NA == -999999999
NAR == <<-1, 0, 0>>
SigTab == <<
 (2 :> "1C" @@ 3 :> "1P" @@ 4 :> "1W" @@ 8 :> "2C" @@ 9 :> "2P" @@ 10 :> "2W"
  @@ 15 :> "2S" @@ 16 :> "2L" @@ 17 :> "2X" @@ 22 :> "5I" @@ 23 :> "5Q"
  @@ 24 :> "5X" @@ 30 :> "1S" @@ 31 :> "1L" @@ 32 :> "1X"),
 (2 :> "1C" @@ 3 :> "1P" @@ 8 :> "2C" @@ 9 :> "2P"),
 (2 :> "1C" @@ 3 :> "1A" @@ 4 :> "1B" @@ 5 :> "1X" @@ 6 :> "1Z" @@ 8 :> "6C"
  @@ 9 :> "6A" @@ 10 :> "6B" @@ 11 :> "6X" @@ 12 :> "6Z" @@ 14 :> "7I"
  @@ 15 :> "7Q" @@ 16 :> "7X" @@ 18 :> "8I" @@ 19 :> "8Q" @@ 20 :> "8X"
  @@ 22 :> "5I" @@ 23 :> "5Q" @@ 24 :> "5X"),
 (2 :> "2I" @@ 3 :> "2Q" @@ 4 :> "2X" @@ 8 :> "6I" @@ 9 :> "6Q" @@ 10 :> "6X"
  @@ 14 :> "7I" @@ 15 :> "7Q" @@ 16 :> "7X" @@ 22 :> "5D" @@ 23 :> "5P"
  @@ 24 :> "5X" @@ 25 :> "7D" @@ 30 :> "1D" @@ 31 :> "1P" @@ 32 :> "1X"),
 (2 :> "1C" @@ 9 :> "6S" @@ 10 :> "6L" @@ 11 :> "6X" @@ 15 :> "2S" @@ 16 :> "2L"
  @@ 17 :> "2X" @@ 22 :> "5I" @@ 23 :> "5Q" @@ 24 :> "5X" @@ 30 :> "1S"
  @@ 31 :> "1L" @@ 32 :> "1X"),
 (2 :> "1C" @@ 22 :> "5I" @@ 23 :> "5Q" @@ 24 :> "5X"),
 (8 :> "9A" @@ 22 :> "5A") >>

MStart(c) == [lock |-> {}, fcn |-> {}]

\* epoch: GPS and the like <<0, ms of week>>; GLONASS <<day, ms of day>>
\* (Moscow time); result <<week, second, millisecond>>
Epoch(e) ==
  LET s == e.ep[2] \div 1000
      u == IF e.sys = 2 THEN e.ep[1] * 86400 + s - 10800 + 18
           ELSE IF e.sys = 4 THEN s + 14 ELSE s
  IN  <<e.w, u % 604800, e.ep[2] % 1000>>

RECURSIVE Flat(_, _)
Flat(e, i) == IF i > Len(e.cells) THEN <<>>
              ELSE [k \in DOMAIN e.cells[i] |-> <<i, e.cells[i][k]>>] \o Flat(e, i + 1)

\* u units of fine in 1/1024 ms; a value of exactly zero counts as none
\* (records of observables use zero for a missing value)
Norm(ms, m, f, u) ==
  LET h == m + f \div u
      v == <<ms + h \div 1024, h % 1024, f % u>>
  IN  IF v = <<0, 0, 0>> THEN NAR ELSE v
Rough(e, q) == IF e.k <= 3 THEN <<0, q[3]>> ELSE <<q[2], q[3]>>
RoughOk(e, q) == e.k <= 3 \/ q[2] # 255
HasPr(k) == k # 2
HasCp(k) == k # 1
HasCn(k) == k > 3
HasRate(k) == k \in {5, 7}
Hi(k) == k > 5                              \* extended resolution
Pr(e, q, d) ==
  IF ~HasPr(e.k) \/ ~RoughOk(e, q) \/ d[1] = -(2^(IF Hi(e.k) THEN 19 ELSE 14))
  THEN NAR
  ELSE Norm(Rough(e, q)[1], Rough(e, q)[2], d[1] * (IF Hi(e.k) THEN 1 ELSE 32), 2^19)

Fcns(s, e) ==     \* channels known with this message
  LET new == IF e.sys = 2 /\ HasRate(e.k)
             THEN {<<q[1], q[4] - 7>> : q \in {x \in ToSet(e.sats) : x[4] <= 13}}
             ELSE {}
  IN  {x \in s.fcn : \A y \in new : y[1] # x[1]} \cup new
Known(s, e, q) == e.sys # 2 \/ \E x \in Fcns(s, e) : x[1] = q[1]
Cp(s, e, q, d) ==
  IF ~HasCp(e.k) \/ ~RoughOk(e, q) \/ ~Known(s, e, q)
     \/ d[2] = -(2^(IF Hi(e.k) THEN 23 ELSE 21))
  THEN NAR
  ELSE Norm(Rough(e, q)[1], Rough(e, q)[2], d[2] * (IF Hi(e.k) THEN 1 ELSE 4), 2^21)
Cn(e, d) == IF ~HasCn(e.k) THEN 0 ELSE IF Hi(e.k) THEN d[5] ELSE d[5] * 16
\* range rate; the Doppler shift is its negative in cycles
Rate(s, e, q, d) ==
  IF ~HasRate(e.k) \/ q[5] = -8192 \/ d[6] = -16384 \/ q[5] * 10000 + d[6] = 0
     \/ ~Known(s, e, q)
  THEN NA ELSE q[5] * 10000 + d[6]

Prev(s, sat, g) == {x \in s.lock : x[1] = sat /\ x[2] = g}
Slip(s, e, q, g, d) ==
  HasCp(e.k) /\ (d[4] = 1 \/ \E x \in Prev(s, q[1], g) : d[3] < x[3])

Row(s, e, c, d) ==
  LET q == e.sats[c[1]] IN
  <<q[1], SigTab[e.sys][c[2]], Pr(e, q, d), Cp(s, e, q, d), Rate(s, e, q, d),
    Cn(e, d), IF Slip(s, e, q, c[2], d) THEN 1 ELSE 0>>
Blank(r) == r[3] = NAR /\ r[4] = NAR /\ r[5] = NA /\ r[6] = 0 /\ r[7] = 0

Msm(s, e) ==
  LET F == Flat(e, 1)
      rows == {Row(s, e, F[k], e.data[k]) : k \in DOMAIN F}
      locks == IF HasCp(e.k)
               THEN {<<e.sats[F[k][1]][1], F[k][2], e.data[k][3]>> : k \in DOMAIN F}
               ELSE {}
  IN [st |-> [lock |-> {x \in s.lock : \A y \in locks : y[1] # x[1] \/ y[2] # x[2]}
                          \cup locks,
              fcn |-> Fcns(s, e)],
      out |-> [t |-> Epoch(e), sats |-> [k \in DOMAIN e.sats |-> e.sats[k][1]],
               rows |-> {r \in rows : ~Blank(r)}]]

MDo(s, e) ==
  CASE e.op = "msm" -> Msm(s, e)
    [] e.op = "geph" -> [st |-> [s EXCEPT !.fcn = {x \in @ : x[1] # e.s}
                                     \cup {<<e.s, e.frq>>}], out |-> [x |-> 0]]
MSets == {"rows"}
MInv(s) ==
  /\ \A x, y \in s.lock : x[1] = y[1] /\ x[2] = y[2] => x = y
  /\ \A x, y \in s.fcn : x[1] = y[1] => x = y
==============================================================================

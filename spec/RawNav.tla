------------------------------- MODULE RawNav ---------------------------------
(* Assembly of broadcast navigation data from raw messages.                  *)
(*                                                                           *)
(* A message of kind m from satellite s carries part p of the data set with  *)
(* the transmitted integers f (more than 31 bits: <<high, low 16 bits>>).    *)
(* The latest copy of every part of a satellite is kept; a message completes *)
(* an ephemeris iff it belongs to a complete set of parts of that satellite  *)
(* with one common issue (the same issue of data or reference time, or, for  *)
(* messages without an issue, transmission as one contiguous frame).         *)
(* Every field of an emitted ephemeris is one of the kept parts.             *)
(*                                                                           *)
(* Times are <<GPS week, second of week>>.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RStart(c) == {}         \* set of <<kind, satellite, [part -> fields]>>
Key(S, m, s) == {x \in S : x[1] = m /\ x[2] = s}
Parts(S, m, s) == IF Key(S, m, s) = {} THEN <<>>
                  ELSE (CHOOSE x \in Key(S, m, s) : TRUE)[3]
Keep(S, m, s, p, f) ==
  (S \ Key(S, m, s)) \cup {<<m, s, (p :> f) @@ Parts(S, m, s)>>}

Norm(w, t) == <<w + t \div 604800, t % 604800>>
\* week of an epoch t that is within half a week of the transmission time
Near(w, tow, t) == IF t < tow - 302400 THEN w + 1
                   ELSE IF t > tow + 302400 THEN w - 1 ELSE w
Drop(F, ks) == [k \in DOMAIN F \ ks |-> F[k]]
None == [ok |-> 0, s |-> 0]
All(P, ks) == ks \subseteq DOMAIN P
\* two parts of one frame: d units later
Later(P, p, q, d) == P[p].sow + d = P[q].sow

\* week: of toe in the week count of the system; w0 its offset from GPS
\* weeks; ofs: system time to GPS time
Eph(F, w, w0, ofs, tow, toe, toc, mode, rest) ==
  [ok |-> 1, f |-> F, week |-> Near(w, tow, toe),
   toe |-> Norm(Near(w, tow, toe) + w0, toe + ofs),
   toc |-> Norm(Near(w, tow, toc) + w0, toc + ofs),
   tot |-> Norm(w + w0, tow + ofs), mode |-> mode] @@ rest
NoX == [ok |-> 1]

Inav(P, e) ==
  IF ~All(P, 1..5) \/ \E i \in 2..4 : P[i].iod # P[1].iod THEN None
  ELSE LET F == P[1] @@ P[2] @@ P[3] @@ P[4] @@ P[5]
       IN  Eph(Drop(F, {"toe", "toc", "wn", "tow", "svid"}), F.wn + 1024, 0, 0, F.tow,
               F.toe * 60, F.toc * 60, 0,
               [code |-> IF e.src = 0 THEN 513 ELSE 516])

Fnav(P, e) ==
  IF ~All(P, 1..4) \/ (\E i \in 2..4 : P[i].iod # P[1].iod)
     \/ P[1].svid # e.s % 1000 THEN None
  ELSE LET F == P[1] @@ P[2] @@ P[3] @@ P[4]
       IN  Eph(Drop(F, {"toe", "toc", "wn", "tow", "svid"}), F.wn + 1024, 0, 0, F.tow,
               F.toe * 60, F.toc * 60, 1, [code |-> 258])

Lnav(P, e) ==
  IF ~All(P, 1..3) \/ P[2].iode # P[3].iode \/ P[2].iode # P[1].iodc % 256
  THEN None
  ELSE LET F == P[1] @@ P[2] @@ P[3]
           w == (e.w \div 1024) * 1024 + F.wn
       IN  Eph(Drop(F, {"toe", "toc", "wn", "tow"}), w, 0, 0, F.tow * 6,
               F.toe * 16, F.toc * 16, 0, NoX)

\* part 3 is any message of type 3x (61 for QZSS); only 30 and 61 carry the
\* group delays
Cnav(P, e) ==
  IF ~All(P, 1..3) \/ P[1].toe # P[2].toe \/ P[1].toe # P[3].toc
     \/ P[3].mt \notin {30, 61} THEN None
  ELSE LET F == P[1] @@ P[2] @@ P[3]
       IN  Eph(Drop(F, {"toe", "toc", "wn", "tow", "top", "wnop", "mt"}),
               F.wn, 0, 0, F.tow * 6, F.toe * 300, F.toc * 300, 1,
               [top |-> Norm((F.wn \div 256) * 256 + F.wnop, P[3].top * 300)])

Cnav2(P, e) ==
  LET F == P[1] IN
  IF F.page \notin {1, 61} THEN None
  ELSE Eph(Drop(F, {"toe", "wn", "toi", "itow", "top", "wnop", "page"}
                   \cup IF e.s \div 1000 = 1 THEN {"esf"} ELSE {}), F.wn,
           0, 0, F.itow * 7200 + F.toi * 18, F.toe * 300, F.toe * 300, 2,
           [top |-> Norm((F.wn \div 256) * 256 + F.wnop, F.top * 300)])

B1c(P, e) ==
  LET F == P[1] IN
  IF F.page # 1 \/ F.iodc % 256 # F.iode THEN None
  ELSE Eph(Drop(F, {"toe", "toc", "wn", "how", "soh", "page"}), F.wn, 1356, 14,
           F.how * 3600 + F.soh * 18, F.toe * 300, F.toc * 300, 1, NoX)
\* the accuracy indices of type 40 take precedence over those of type 34
B2a(P, e) ==
  IF ~All(P, {10, 11, 30, 40}) \/ ~Later(P, 10, 11, 1)
     \/ ~Later(P, 11, 30, 1) \/ P[30].iodc % 256 # P[10].iode
  THEN None
  ELSE LET F == P[10] @@ P[11] @@ P[30] @@ P[40]
       IN  Eph(Drop(F, {"toe", "toc", "wn", "sow"}), F.wn, 1356, 14, P[10].sow * 3,
               F.toe * 300, F.toc * 300, 2, NoX)
B2b(P, e) ==
  IF ~All(P, {10, 30}) \/ ~Later(P, 10, 30, 1) THEN None
  ELSE LET F == P[10] @@ P[30]
       IN  Eph(Drop(F, {"toe", "toc", "wn", "sow"}), F.wn, 1356, 14, P[10].sow,
               F.toe * 300, F.toc * 300, 3, NoX)

D1(P, e) ==
  IF ~All(P, 1..3) \/ ~Later(P, 1, 2, 6) \/ ~Later(P, 2, 3, 6)
  THEN None
  ELSE LET F == P[1] @@ P[2] @@ P[3]
       IN  Eph(Drop(F, {"toeh", "toel", "toc", "wn", "sow"}), F.wn, 1356, 14,
               P[1].sow, (F.toeh * 32768 + F.toel) * 8, F.toc * 8, 0, NoX)

Hi(h, n) == h \div 2^(16 - n)              \* of h * 2^n + l as a pair
Lo(h, l, n) == (h % 2^(16 - n)) * 2^n + l
D2(P, e) ==
  IF ~All(P, {1} \cup 3..10) \/ ~Later(P, 1, 3, 6)
     \/ \E k \in 3..9 : ~Later(P, k, k+1, 3) THEN None
  ELSE LET F == P[1] @@ P[3] @@ P[4] @@ P[5] @@ P[6] @@ P[7] @@ P[8] @@ P[9]
                @@ P[10]
           G == [af1 |-> F.af1h * 2^18 + F.af1l, cuc |-> F.cuch * 16 + F.cucl,
                 e |-> <<F.eh * 64 + F.el \div 65536, F.el % 65536>>,
                 cic |-> F.cich * 256 + F.cicl,
                 i0 |-> <<Hi(F.i0h, 11), Lo(F.i0h, F.i0l, 11)>>,
                 OMGd |-> F.OMGdh * 32 + F.OMGdl,
                 omg |-> <<Hi(F.omgh, 5), Lo(F.omgh, F.omgl, 5)>>]
       IN  Eph(Drop(F, {"toe", "toc", "wn", "sow", "af1h", "af1l", "cuch",
                        "cucl", "eh", "el", "cich", "cicl", "i0h", "i0l",
                        "OMGdh", "OMGdl", "omgh", "omgl"}) @@ G,
               F.wn, 1356, 14, P[1].sow, F.toe * 8, F.toc * 8, 0, NoX)

\* only the first two subframes matter, and only their reception emits
Irn(P, e) ==
  IF e.p > 2 \/ ~All(P, 0..1) \/ P[1].tow # P[0].tow + 1 THEN None
  ELSE LET F == P[0] @@ P[1]
           w == F.wn + ((e.w - F.wn + 512) \div 1024) * 1024
       IN  Eph(Drop(F, {"toe", "toc", "wn", "tow"}), w, 0, 0, P[0].tow * 12,
               F.toe * 16, F.toc * 16, 0, NoX)
IrnL1(P, e) ==
  LET F == P[1] IN
  IF F.prn # e.s % 1000 THEN None
  ELSE Eph(Drop(F, {"toe", "wn", "toi", "itow", "ura", "prn"}), F.wn, 1024, 0,
           F.itow * 7200 + F.toi * 18, F.toe * 300, F.toe * 300, 2, NoX)

\* GLONASS: strings 1-4 received two seconds apart; UTC + 18 s = GPS time
NearDay(t, tod) == IF t < tod - 43200 THEN t + 86400
                   ELSE IF t > tod + 43200 THEN t - 86400 ELSE t
GloCa(P, e) ==
  IF ~All(P, 1..4) \/ (\E k \in 1..3 : P[k+1].rx - P[k].rx # 2) THEN None
  ELSE LET F0 == P[1] @@ P[2] @@ P[3] @@ P[4]
           F == IF 5 \in DOMAIN P THEN F0 @@ P[5] ELSE F0
           tod == e.t % 86400
           toe == NearDay(F.tb * 900 - 10800, tod)
           tof == NearDay(F.tkh * 3600 + F.tkm * 60 + F.tks * 30 - 10800, tod)
       IN  [ok |-> 1, f |-> Drop(F, {"rx", "tkh", "tkm", "tks"}), mode |-> 0,
            toe |-> Norm(e.w, e.t - tod + toe + 18),
            tof |-> Norm(e.w, e.t - tod + tof + 18)]
\* days from 1996-01-01 (5839 days after the GPS epoch), Moscow time
GloTime(n4, nt, sod) ==
  LET d == 5839 + 1461 * (n4 - 1) + nt - 1
      s == sod - 10800 + 18
  IN  Norm(d \div 7, (d % 7) * 86400 + s)
GloCd(P, e, per, mode) ==
  IF ~All(P, 10..12) \/ P[10].ts + 1 # P[11].ts
     \/ P[11].ts + 1 # P[12].ts THEN None
  ELSE LET F0 == P[10] @@ P[11] @@ P[12]
           F == IF 16 \in DOMAIN P THEN F0 @@ P[16] ELSE F0
       IN  [ok |-> 1, f |-> Drop(F, {"ts", "n4", "nt"}), mode |-> mode,
            toe |-> GloTime(F.n4, F.nt, F.tb * 90),
            tof |-> GloTime(F.n4, F.nt, P[10].ts * per)]

NearTod(w, t, tod) ==
  LET d == NearDay(tod, (t % 86400)) IN Norm(w, (t - (t % 86400)) + d)
Sbs(P, e) ==
  LET F == P[1]
  IN  [ok |-> 1, f |-> Drop(F, {"t0"}), tof |-> Norm(e.w, e.t), mode |-> 0,
       toe |-> NearTod(e.w, e.t, F.t0 * 16)]

Emitted(P, e) ==
  CASE e.m = "inav" -> Inav(P, e)   [] e.m = "fnav" -> Fnav(P, e)
    [] e.m = "lnav" -> Lnav(P, e)   [] e.m = "cnav" -> Cnav(P, e)
    [] e.m = "cnav2" -> Cnav2(P, e) [] e.m = "b1c" -> B1c(P, e)
    [] e.m = "b2a" -> B2a(P, e)     [] e.m = "b2b" -> B2b(P, e)
    [] e.m = "d1" -> D1(P, e)       [] e.m = "d2" -> D2(P, e)
    [] e.m = "irn" -> Irn(P, e)     [] e.m = "irnl1" -> IrnL1(P, e)
    [] e.m = "gloca" -> GloCa(P, e) [] e.m = "sbs" -> Sbs(P, e)
    [] e.m = "glol1" -> GloCd(P, e, 2, 1)
    [] e.m = "glol3" -> GloCd(P, e, 3, 3)

\* parts that are taken note of: any of them may complete an ephemeris (parts
\* 4 and 5 of lnav, 4 of cnav, 2 of d2, 2 and 3 of irn and 40 of b2b carry
\* no ephemeris data)
Kept(m) == CASE m \in {"inav"} -> 1..5   [] m = "fnav" -> 1..4
             [] m = "lnav" -> 1..5       [] m = "cnav" -> 1..4
             [] m \in {"cnav2", "b1c", "irnl1", "sbs"} -> {1}
             [] m = "b2a" -> {10, 11, 30, 34, 40}
             [] m = "b2b" -> {10, 30, 40} [] m = "d1" -> 1..3
             [] m = "d2" -> 1..10        [] m = "irn" -> 0..3
             [] m = "gloca" -> 1..5      [] m = "glol1" -> 10..12
             [] m = "glol3" -> {10, 11, 12, 16}
\* op "sub": a message; op "junk": bad preamble, foreign type or satellite
RNext(S, e) ==
  IF e.op # "sub" \/ e.p \notin Kept(e.m) THEN S
  ELSE Keep(S, e.m, e.s, e.p, e.f)
RDo(S, e) ==
  LET n == RNext(S, e)
  IN  [st |-> n,
       out |-> IF e.op # "sub" \/ e.p \notin Kept(e.m) THEN None
               ELSE [s |-> IF Emitted(Parts(n, e.m, e.s), e).ok = 1 THEN e.s ELSE 0]
                    @@ Emitted(Parts(n, e.m, e.s), e)]
RSets == {}
RInv(S) == \A x, y \in S : x[1] = y[1] /\ x[2] = y[2] => x = y
==============================================================================

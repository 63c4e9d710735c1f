------------------------------- MODULE RtcmEph -------------------------------
(* RTCM 3 ephemeris messages (1019 GPS, 1020 GLONASS, 1041 NavIC, 1042 BDS,  *)
(* 1043 SBAS, 1044 QZSS, 1045/1046 Galileo F/NAV, I/NAV).                    *)
(*                                                                           *)
(* The receiver has a reference time <<GPS week, second of week>>, which     *)
(* only resolves what a message leaves ambiguous: the epochs of the week     *)
(* count (10 bits, 1024 weeks) and of the day (GLONASS, SBAS).  Everything   *)
(* else of the decoded record is the transmitted integer.  Values of more    *)
(* than 31 bits are <<high, low 16 bits>>.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

EStart(c) == [w |-> c.w, t |-> c.t]
Drop(F, ks) == [k \in DOMAIN F \ ks |-> F[k]]
\* the week = n modulo 1024 next to the reference
Near1024(n, ref) == n + ((ref - n + 512) \div 1024) * 1024
Norm(w, t) == <<w + t \div 604800, t % 604800>>
NearDay(t, tod) == IF t < tod - 43200 THEN t + 86400
                   ELSE IF t > tod + 43200 THEN t - 86400 ELSE t

\* w: week of the record; w0, ofs: its offset from GPS weeks and GPS time
Kep(F, e, w, w0, ofs, u, mode) ==
  [s |-> e.s, week |-> w, mode |-> mode,
   toe |-> Norm(w + w0, F.toe * u + ofs), toc |-> Norm(w + w0, F.toc * u + ofs),
   f |-> Drop(F, {"wn", "toe", "toc", "prn"})]
\* health bits of RINEX: E5b 8-6, E5a 5-3, E1-B 2-0
GalEph(s, e, code, mode) ==
  LET F == e.f IN
  Kep(F, e, Near1024(F.wn, s.w), 0, 0, 60, mode) @@ [code |-> code]

GloEph(s, e) ==
  LET F == e.f
      tod == (s.t - 18) % 86400
      day == s.t - 18 - tod
      toe == NearDay(F.tb * 900 - 10800, tod)
      tof == NearDay(F.tkh * 3600 + F.tkm * 60 + F.tks * 30 - 10800, tod)
  IN [s |-> e.s, mode |-> 0, toe |-> Norm(s.w, day + toe + 18),
      tof |-> Norm(s.w, day + tof + 18), f |-> Drop(F, {"prn", "tkh", "tkm", "tks"})]
SbsEph(s, e) ==
  LET tod == s.t % 86400
  IN [s |-> e.s, mode |-> 0, toe |-> Norm(s.w, s.t - tod + NearDay(e.f.t0 * 16, tod)),
      f |-> Drop(e.f, {"prn", "t0"})]

EphOf(s, e) ==
  CASE e.mt = 1019 -> Kep(e.f, e, Near1024(e.f.wn, s.w), 0, 0, 16, 0)
    [] e.mt = 1044 -> Kep(e.f, e, Near1024(e.f.wn, s.w), 0, 0, 16, 0)
    [] e.mt = 1041 -> Kep(e.f, e, Near1024(e.f.wn, s.w), 0, 0, 16, 0)
    [] e.mt = 1042 -> Kep(e.f, e, e.f.wn, 1356, 14, 8, 0)
    [] e.mt = 1045 -> GalEph(s, e, 258, 1)
    [] e.mt = 1046 -> GalEph(s, e, 517, 0)
    [] e.mt = 1020 -> GloEph(s, e)
    [] e.mt = 1043 -> SbsEph(s, e)
EDo(s, e) == IF e.op = "time" THEN [st |-> [w |-> e.w, t |-> e.t], out |-> [x |-> 0]]
             ELSE [st |-> s, out |-> EphOf(s, e)]
ESets == {}
EInv(s) == s.w >= 0 /\ s.t \in 0..604799
==============================================================================

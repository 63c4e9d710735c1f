----------------------------- MODULE RtcmEph_MC ------------------------------
(* The week count is resolved for every true week next to the reference, and *)
(* the time of day for every true epoch within half a day of it.             *)
EXTENDS RtcmEph, IOUtils
Weeks == {0, 1, 1023, 1024, 1025, 1535, 1536, 2047, 2048, 2049, 2300, 3071, 3072}
Tods == {0, 5, 17, 18, 19, 10800, 43210, 75600, 75617, 75618, 86399, 302000, 600000, 604799}
MCCf == {[w |-> 2047, t |-> 0]}
MCEv(s) == {[op |-> "time", w |-> w, t |-> t] : w \in Weeks, t \in Tods}
             \cup {[op |-> "week", d |-> d] : d \in -500..500}
             \cup {[op |-> "glo", d |-> d] : d \in -47..47}
             \cup {[op |-> "sbs", d |-> d] : d \in -2699..2699}
MCDo(s, e) == [st |-> IF e.op = "time" THEN [w |-> e.w, t |-> e.t] ELSE s]
MCBnd(s) == TRUE
Secs(x) == x[1] * 604800 + x[2]
\* a true epoch d units from the reference is recovered
StepP(s, e, n) ==
  CASE e.op = "week" -> Near1024((s.w + e.d) % 1024, s.w) = s.w + e.d
    [] e.op = "glo" ->     \* frame boundary: next multiple of 900 s of Moscow time
         LET k == ((s.t - 18) % 86400) \div 900
             true == (s.t - 18) - ((s.t - 18) % 86400) + (k + e.d) * 900
             tb == ((k + e.d) + 12) % 96
             r == GloEph(s, [s |-> 0, f |-> [tb |-> tb, tkh |-> 0, tkm |-> 0, tks |-> 0]])
         IN  r.toe = Norm(s.w, true + 18)
    [] e.op = "sbs" ->
         LET k == (s.t % 86400) \div 16
             true == s.t - (s.t % 86400) + (k + e.d) * 16
             r == SbsEph(s, [s |-> 0, f |-> [t0 |-> (k + e.d) % 5400]])
         IN  r.toe = Norm(s.w, true)
    [] OTHER -> TRUE
VARIABLES xcfg, xs
INSTANCE Explore WITH Start <- EStart, Do <- MCDo, Inv <- EInv,
  MCCfgs <- MCCf, MCEvents <- MCEv, MCBound <- MCBnd, StepInv <- StepP
==============================================================================

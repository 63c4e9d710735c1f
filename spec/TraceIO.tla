------------------------------- MODULE TraceIO -------------------------------
(* Generic trace-validation loop.                                            *)
(*                                                                           *)
(* A trace is a newline-delimited JSON file of events recorded from the real *)
(* implementation.  It is a concatenation of histories; each one starts with *)
(* an event [op |-> "reset", cfg |-> ...].  Every other event carries its    *)
(* inputs, the projection `out` of what the implementation did, and `exc`    *)
(* ("" or the class of the exception that escaped).                          *)
(*                                                                           *)
(*   Start(cfg)   the initial state of the specification for a history       *)
(*   Do(st, e)    the specification's transition: a record                   *)
(*                [st |-> next state, out |-> expected observation].         *)
(*                `out` may contain exc |-> "X" when the specification says  *)
(*                the call must raise.                                       *)
(*   SetKeys      the names of observation fields that are sets              *)
(*                (recorded as JSON arrays without duplicates)               *)
(*   Inv(st)      invariant of the specification, evaluated at every step    *)
(*                                                                           *)
(* The verdict is total: TLC consumes every line; the first disagreement of  *)
(* a history is reported as a MISMATCH line and the rest of that history is  *)
(* skipped.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Start(_), Do(_, _), SetKeys, Inv(_)

TraceLog == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tl, tst, tok
tvars == <<tl, tst, tok>>

Rng(s) == {s[i] : i \in 1..Len(s)}

SameField(k, seen, expd) ==
  IF k \in SetKeys
  THEN /\ Len(seen) = Cardinality(expd)
       /\ Rng(seen) = expd
  ELSE seen = expd

Disagree(e, r) ==
  IF e.exc # ""
  THEN IF "exc" \in DOMAIN r.out /\ r.out.exc = e.exc THEN {} ELSE {"exc:" \o e.exc}
  ELSE IF "exc" \in DOMAIN r.out THEN {"expected-exc:" \o r.out.exc}
  ELSE {k \in (DOMAIN e.out) \cup (DOMAIN r.out) :
          ~ ( /\ k \in DOMAIN e.out
              /\ k \in DOMAIN r.out
              /\ SameField(k, e.out[k], r.out[k]) )}

Expected(r, bad) == [k \in (bad \cap DOMAIN r.out) |-> r.out[k]]

TInit == tl = 1 /\ tok = TRUE /\ tst = <<>>

TNext ==
  /\ tl <= Len(TraceLog)
  /\ tl' = tl + 1
  /\ LET e == TraceLog[tl] IN
     IF e.op = "reset"
     THEN tst' = Start(e.cfg) /\ tok' = TRUE
     ELSE IF ~tok THEN UNCHANGED <<tst, tok>>
     ELSE LET r == Do(tst, e)
              bad == Disagree(e, r) \cup (IF Inv(r.st) THEN {} ELSE {"invariant"})
          IN  /\ tst' = r.st
              /\ IF bad = {}
                 THEN tok' = TRUE
                 ELSE /\ tok' = FALSE
                      /\ PrintT("MISMATCH " \o ToJson([l |-> tl, clauses |-> bad,
                                 expected |-> ToString(Expected(r, bad))]))
  /\ IF tl = Len(TraceLog) THEN PrintT("CONSUMED " \o ToString(tl)) ELSE TRUE

TSpec == TInit /\ [][TNext]_tvars

Consumed == TLCGet("stats").diameter - 1 = Len(TraceLog)
==============================================================================

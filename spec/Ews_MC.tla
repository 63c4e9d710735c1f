------------------------------- MODULE Ews_MC --------------------------------
(* Pages of reports in any order with losses and repetitions; the calendar   *)
(* is checked for all days of nine years.                                    *)
EXTENDS Ews, IOUtils
Em == "EMIT" \in DOMAIN IOEnv /\ IOEnv.EMIT = "1"
Days == DayOf(2019, 12, 1)..DayOf(2028, 3, 31)
DOf(n) == (n - DayOf(YearOf(n), MonthOf(n), 1)) + 1
ASSUME DayOf(2000, 1, 1) = 0 /\ DayOf(2000, 3, 1) = 60 /\ DayOf(2025, 8, 21) = 9364
ASSUME \A n \in Days : DayOf(YearOf(n), MonthOf(n), DOf(n)) = n
\* time and date of a report are recovered up to some months after
ASSUME \A n \in Days : \A k \in {-1, 0, 1, 3, 31, 120} :
         Report(<<n + k, 5>>, MonthOf(n), DOf(n), 23, 59) = <<n, 1439>>
\* and those of an occurrence within 13 days
ASSUME \A n \in Days : \A k \in {-13, -1, 0, 1, 13} :
         Occur(<<n, 0>>, DOf(n + k), 0, 1) = <<n + k, 1>>
\* onset: in the week (Monday to Sunday) of the reception or the next one
ASSUME \A n \in Days : \A m \in {1, 1440, 1441, 8640, 8641, 10080} :
         LET o == Onset(<<n, 0>>, 0, m)
             p == Onset(<<n, 0>>, 1, m)
         IN  /\ (o[1] - n) \in -6..6 /\ p[1] = o[1] + 7 /\ p[2] = o[2]
             /\ (o[1] - 2) % 7 = (m - 1) \div 1440
Now == <<9364, 600>>
Pg(rep, p, n) ==
  [op |-> "dcr", now |-> Now, rc |-> 3, dc |-> 4, mo |-> 8, d |-> 21,
   h |-> 9, mi |-> rep, it |-> 0, vn |-> 1, t1 |-> <<1, 0, 0>>,
   x |-> <<rep % 4, p, n>>, rows |-> <<>>, regs |-> <<>>, lat |-> <<0, 0>>,
   lon |-> <<0, 0>>, txt |-> (100 * rep) + p]
MCEv(s) == {Pg(r, p, 2) : r \in 1..2, p \in 0..3} \cup
           (IF Em THEN {} ELSE {Pg(3, p, 3) : p \in 1..3})
MCDo(s, e) == WDo(s, e)
MCCf == {[path |-> 0, mon |-> 1]}
MCBnd(s) == TRUE
StepP(s, e, n) ==
  LET o == WDo(s, e).out
  IN  /\ o.full = 1 => \A k \in DOMAIN o.text : o.text[k] = (100 * e.mi) + k
      /\ \A k \in DOMAIN n.page : n.page[k] = (100 * n.rep[4]) + k
VARIABLES xcfg, xs
INSTANCE Explore WITH Start <- WStart, Do <- MCDo, Inv <- WInv,
  MCCfgs <- MCCf, MCEvents <- MCEv, MCBound <- MCBnd, StepInv <- StepP
==============================================================================

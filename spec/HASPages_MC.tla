----------------------------- MODULE HASPages_MC -----------------------------
(* Messages 1 (2 pages) and 2 (1 page) and 3 (3 pages); epochs of up to two  *)
(* pages in any order with duplicates, dummy and unusable pages.             *)
EXTENDS HASPages
Ms == <<2, 1, 3>>
Pids == {1, 2, 33}
P(m, i) == [k |-> 0, mid |-> m, ms |-> Ms[m], pid |-> i]
Pages == {P(1, i) : i \in Pids} \cup {P(2, 1)} \cup {P(3, i) : i \in Pids}
         \cup {[k |-> 1, mid |-> 1, ms |-> 2, pid |-> 1],
               [k |-> 2, mid |-> 1, ms |-> 2, pid |-> 2]}
Seqs == {<<>>} \cup {<<p>> : p \in Pages}
        \cup {<<P(1, a), P(3, b)>> : a, b \in {1, 33}}
        \cup {<<P(3, b), P(1, a)>> : a, b \in {1, 33}}
        \cup {<<P(1, 1), P(1, 1)>>, <<P(1, 1), P(1, 2)>>, <<P(1, 33), P(1, 2), P(1, 1)>>}
MCEv(s) == {[op |-> "epoch", pages |-> q] : q \in Seqs}
MCDo(s, e) == [st |-> Epoch(s, e.pages).st]
MCCf == {[x |-> 0]}
MCBnd(s) == TRUE
\* a message is delivered only with enough distinct pages, and at most once
StepP(s, e, t) ==
  LET r == Epoch(s, e.pages) IN
  r.msg # -1 =>
    /\ r.msg \notin ToSet(s.done)
    /\ Cardinality(s.rec \cup {p.pid : p \in {q \in ToSet(e.pages) : Usable(q) /\ q.mid = r.msg}})
         >= Ms[r.msg]
VARIABLES xcfg, xs
INSTANCE Explore WITH Start <- HStart, Do <- MCDo, Inv <- HInv,
  MCCfgs <- MCCf, MCEvents <- MCEv, MCBound <- MCBnd, StepInv <- StepP
==============================================================================

------------------------------- MODULE Osnma_MC ------------------------------
(* One genuine satellite operator (chain 1, issue 1), an adversary who can    *)
(* send any message he is able to build: MACs and keys of an own chain (2)    *)
(* with the seed of the genuine one, the disclosed keys, root keys signed     *)
(* with an own key or with another header, the public root key of a chain     *)
(* that has not started (3), other navigation data (issue 2).                 *)
EXTENDS Osnma, IOUtils
H1 == [nmas |-> 1, cid |-> 0, cpks |-> 1]
D(c, t0, pk, pkid, hdr) == [kind |-> "kroot", did |-> c, nb |-> 1, hb |-> 1, pkid |-> pkid,
  pk |-> pk, hdr |-> hdr, bad |-> FALSE, pdk |-> TRUE, oam |-> FALSE, c |-> c, t0 |-> t0,
  lt |-> 41, ids |-> <<10 * c + pkid>>]
Cfg(slow) == [par |-> 0, keys |-> <<<<1, 1>>>>, root |-> TRUE, slow |-> slow, vmin |-> 1,
  dsm |-> <<D(1, 1, 1, 1, 1), D(2, 1, 9, 1, 1), D(2, 1, 9, 7, 1), D(3, 3, 1, 1, 1)>>]
W(i) == [k \in 1..6 \cup {10} |-> <<i, i>>]
Dat(k, i) == IF k = 4 THEN <<i, i>> ELSE <<i, i, i, i, i, i>>
\* MACK of satellite a in slot n under key q with data of issue i
Mk(s, a, n, q, i, key) ==
  LET odd == Odd(s, n)
      k(j) == TagAdkd[41][Slot(41, j, odd)]
      tag(j) == [d |-> a, k |-> k(j), key |-> q, bad |-> FALSE,
                 m |-> [d |-> a, a |-> a, sf |-> n, i |-> j, nmas |-> 1, dat |-> Dat(k(j), i)]]
      t == [j \in 1..4 |-> tag(j)]
      fl == Flex(s, 41, [tags |-> t], n, 1)
  IN [tags |-> t, key |-> key,
      seq |-> [a |-> a, sf |-> n, key |-> q, fl |-> fl, bad |-> FALSE]]
Hks == {[nmas |-> m, cid |-> 0, cpks |-> 1, did |-> IF d = 1 THEN 1 ELSE IF d = 4 THEN 3 ELSE 2,
         bid |-> 0, x |-> IF d = 4 THEN 31 ELSE IF d = 3 THEN 27 ELSE 11 + 10 * (d - 1), hdr |-> m] : m \in {1}, d \in {1, 2, 4}}
\* a satellite sends one subframe per slot
MCSt(c) == [s |-> OStart(c), n |-> 1, sent |-> {}]
MCEv(x) ==
  {[op |-> "tick"]} \cup
  {[op |-> "osn", a |-> a, hk |-> h, i |-> w[1], j |-> w[2], q |-> w[3], key |-> w[4]] :
     a \in {1, 2} \ x.sent, h \in Hks,
     w \in {<<1, 1, <<1, x.n + 1>>, <<1, x.n>>>>,           \* the operator
            <<2, 2, <<2, x.n + 1>>, <<2, x.n>>>>,           \* own chain, own data
            <<2, 2, <<1, x.n>>, <<1, x.n>>>>,               \* disclosed key
            <<2, 2, <<2, x.n + 1>>, <<1, x.n>>>>,
            <<2, 1, <<3, 2>>, <<3, 2>>>>}}                   \* root key as key
MCDo(x, e) ==
  IF e.op = "tick" THEN [st |-> [x EXCEPT !.n = @ + 1, !.sent = {}]]
  ELSE LET s1 == [x.s EXCEPT !.wc = (e.a :> W(e.j)) @@ @]
       IN [st |-> [x EXCEPT !.sent = @ \cup {e.a}, !.s = Osn(s1, [a |-> e.a, n |-> x.n, full |-> TRUE, hk |-> e.hk,
                     mack |-> Mk(s1, e.a, x.n, e.q, e.i, e.key)])]]
MCCf == {Cfg(FALSE)}
MCBnd(x) == x.n <= (IF "DEEP" \in DOMAIN IOEnv THEN 3 ELSE 2)
\* whatever the adversary sends, only the operator's data become authentic
Safe(x) ==
  /\ OInv(x.s)
  /\ \A q \in DOMAIN x.s.vs : q[2] \in {0, 1}
  /\ x.s.kc => x.s.key[1] = 1
  /\ x.s.ver => x.s.cfg.dsm[x.s.kr].pk = 1
StepP(x, e, y) ==
  /\ e.op = "tick" => y.s = x.s
  \* authentic only with a key verified for this slot
  /\ y.s.vs # x.s.vs => y.s.kc /\ y.s.kn = x.n
VARIABLES xcfg, xs
INSTANCE Explore WITH Start <- MCSt, Do <- MCDo, Inv <- Safe,
  MCCfgs <- MCCf, MCEvents <- MCEv, MCBound <- MCBnd, StepInv <- StepP
==============================================================================

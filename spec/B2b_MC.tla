------------------------------- MODULE B2b_MC --------------------------------
(* Two masks (issues 1 and 2) that share a satellite at different positions, *)
(* two issues of the data; messages of both issues in any order.  The value  *)
(* of satellite s under data issue d is V(d, s) (plus 1 in a second clock).  *)
EXTENDS B2b, IOUtils
Slots(m) == IF m = 1 THEN <<5, 70>> ELSE <<70, 138>>
V(d, s) == 1000 * d + (s % 1000) + 100 * (s \div 1000)
Pad(rows, n) == [i \in 1..n |-> IF i <= Len(rows) THEN rows[i] ELSE <<0, 0>>]
T(d) == 600
OrbE(m, d) == [op |-> "msg", k |-> "orb", iod |-> d, iodp |-> 0, sub |-> 0, t |-> T(d),
   rows |-> [i \in 1..6 |-> IF i <= 2
     THEN <<Slots(m)[i], 256 + d, d, V(d, Sat(Slots(m)[i])), -2, 3, 1, d>>
     ELSE <<0, 0, 0, 0, 0, 0, 0, 0>>]]
ClkE(m, d, c) == [op |-> "msg", k |-> "clk", iod |-> d, iodp |-> m, sub |-> 0, t |-> T(d),
   rows |-> Pad([i \in 1..2 |-> <<c, V(d, Sat(Slots(m)[i])) + c>>], 23)]
CbE(m, d) == [op |-> "msg", k |-> "cb", iod |-> d, iodp |-> 0, sub |-> 0, t |-> T(d),
   rows |-> [i \in 1..2 |-> [slot |-> Slots(m)[i], g |->
               <<<<2, V(d, Sat(Slots(m)[i])) % 1000>>, <<0, 7>>>>]]]
UraE(m, d) == [op |-> "msg", k |-> "ura", iod |-> d, iodp |-> m, sub |-> 0, t |-> T(d),
   rows |-> Pad(<<<<1, d>>, <<2, d>>, <<3, d>>>>, 70)]
C1(m, d, c, z) == [op |-> "comb", t |-> T(d), mt |-> 6, parts |-> <<
   [k |-> "clk", iod |-> d, iodp |-> m, sub |-> z, t |-> T(d),
    rows |-> [i \in 1..(2-z) |-> <<c, V(d, Sat(Slots(m)[i+z])) + c>>]],
   [k |-> "orb", iod |-> d, iodp |-> 0, sub |-> 0, t |-> T(d), rows |->
    <<<<Slots(m)[2], d, d, V(d, Sat(Slots(m)[2])), -2, 3, 1, d>>>>]>>]
C2(m, d, c) == [op |-> "comb", t |-> T(d), mt |-> 7, parts |-> <<
   [k |-> "clks", iod |-> d, iodp |-> 0, sub |-> 0, t |-> T(d), rows |->
    <<<<Slots(m)[1], c, V(d, Sat(Slots(m)[1])) + c>>>>],
   [k |-> "orb", iod |-> d, iodp |-> 0, sub |-> 0, t |-> T(d), rows |-> <<>>]>>]
MaskE(m, d) == [op |-> "mask", iod |-> d, iodp |-> m, slots |-> Slots(m), t |-> T(d)]
MCAll == {MaskE(m, d) : m \in 1..2, d \in 1..2}
   \cup {OrbE(m, d) : m \in 1..2, d \in 1..2}
   \cup {ClkE(m, d, c) : m \in 1..2, d \in 1..2, c \in 0..1}
   \cup {CbE(m, d) : m \in {1}, d \in 1..1}
   \cup {UraE(m, d) : m \in {1}, d \in {1}}
   \cup {C1(m, d, 0, 1) : m \in {2}, d \in {2}}
   \cup {C2(m, 1, 1) : m \in {1}}
Em == "EMIT" \in DOMAIN IOEnv /\ IOEnv.EMIT = "1"
\* behaviours to be replayed: a smaller set of messages
MCSub == {MaskE(m, 1) : m \in 1..2} \cup {MaskE(1, 2)}
   \cup {OrbE(1, d) : d \in 1..2} \cup {ClkE(m, 1, c) : m \in 1..2, c \in 0..1}
   \cup {CbE(1, 1), UraE(1, 1), C1(2, 2, 0, 1), C2(1, 1, 1)}
MCEv(s) == IF Em THEN MCSub ELSE MCAll
MCDo(s, e) == [st |-> BNext(s, e)]
MCCf == {[x |-> 0]}
MCBnd(s) == TRUE
Right(s) ==
  /\ BInv(s)
  /\ \A x \in s.orb : x[4] = V(x[3], x[1]) /\ <<x[1], "orb", T(x[3])>> \in s.t0
  /\ \A x \in s.clk \cup s.clkp : \E d \in 1..2 : x[3] = -(V(d, x[1]) + x[2])
\* a message of another data issue or mask issue changes no correction
StepP(s, e, n) ==
  /\ e.op = "msg" /\ e.iod # s.iod => View([n EXCEPT !.T = s.T]) = View(s)
  /\ e.op = "msg" /\ e.k \in {"clk", "ura"} /\ e.iodp # s.iodp =>
       [n EXCEPT !.T = s.T] = s
  /\ e.op = "mask" /\ e.iodp = s.iodp => n.orb = s.orb /\ n.clk = s.clk /\ n.cb = s.cb
  /\ e.op # "mask" => n.sats = s.sats /\ n.iodp = s.iodp /\ n.iod = s.iod
VARIABLES xcfg, xs
INSTANCE Explore WITH Start <- BStart, Do <- MCDo, Inv <- Right,
  MCCfgs <- MCCf, MCEvents <- MCEv, MCBound <- MCBnd, StepInv <- StepP
==============================================================================

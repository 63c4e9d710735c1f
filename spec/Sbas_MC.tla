------------------------------ MODULE Sbas_MC --------------------------------
(* Two masks that share a satellite at different places, one with a reserved *)
(* slot; two issues of an ionospheric band; messages of both issues.  The    *)
(* value given to place p by a message of mask m is that of satellite V.     *)
EXTENDS Sbas, IOUtils
Slots(m) == IF m = 1 THEN <<2, 38>> ELSE <<2, 34, 121>>
V(x) == (x % 1000) + 10 * (x \div 1000)
Sat(m, p) == IF p \in 1..Len(Slots(m)) THEN Slot(Slots(m)[p]) ELSE 7001
T == 36000
Seqn(n, F(_)) == [i \in 1..n |-> F(i)]
MaskE(m) == [op |-> "mask", iodp |-> m, slots |-> Slots(m), t |-> T]
FastE(m) == [op |-> "fast", mt |-> 2, iodp |-> m, iodf |-> 1, t |-> T,
   fc |-> Seqn(13, LAMBDA p : V(Sat(m, p))), u |-> Seqn(13, LAMBDA p : V(Sat(m, p)) % 16)]
IntE == [op |-> "integ", u |-> Seqn(51, LAMBDA p : 14), t |-> T]
DegrE(m) == [op |-> "degr", iodp |-> m, lat |-> 3, a |-> Seqn(51, LAMBDA p : V(Sat(m, p)) % 16), t |-> T]
R(m, p, vc) == <<p, 7, V(Sat(m, p)), -1, 2, 3>> \o
               (IF vc = 1 THEN <<1, -2, 3, 4>> ELSE <<0, 0, 0, 0>>)
HalfE(m, p, q, vc) == [vc |-> vc, iodp |-> m, toa |-> IF vc = 1 THEN 2240 ELSE 0,
   rows |-> IF vc = 1 THEN <<R(m, p, 1)>> ELSE <<R(m, p, 0), R(m, q, 0)>>]
LongE(m, n) == [op |-> "long", t |-> T, halves |-> <<HalfE(m, 1, 2, 0), HalfE(n, 2, 0, 1)>>]
MixE(m, n) == [op |-> "mixed", iodp |-> m, blk |-> 0, iodf |-> 0, t |-> T,
   fc |-> Seqn(6, LAMBDA p : V(Sat(m, p))), u |-> Seqn(6, LAMBDA p : 1),
   half |-> HalfE(n, 0, 3, 0)]
CovE(m) == [op |-> "cov", iodp |-> m, t |-> T, rows |-> <<
   [p |-> 2, scale |-> 5, e |-> <<1, 2, 3, 4, -5, 6, -7, 8, -9, 10>>],
   [p |-> 0, scale |-> 1, e |-> <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>]>>]
IgpE(d) == [op |-> "igp", nb |-> 1, band |-> 4, iodi |-> d, t |-> T,
   idx |-> IF d = 1 THEN <<12, 13, 62, 63>> ELSE <<13, 62>>]
IonE(d) == [op |-> "iono", band |-> 4, bid |-> 0, iodi |-> d, t |-> T,
   pts |-> Seqn(15, LAMBDA k : IF k = 3 THEN <<511, 2>> ELSE <<10*d + k, d>>)]
ChkE == [op |-> "chk", t |-> T + 121]
DelE == [op |-> "delay", t |-> T, la |-> 10, lo |-> -180]
MCAll == {MaskE(m) : m \in 1..2} \cup {FastE(m) : m \in 1..2}
   \cup {IntE} \cup {DegrE(m) : m \in 1..2}
   \cup {LongE(m, n) : m \in 1..2, n \in 1..2} \cup {MixE(m, n) : m \in 1..2, n \in 1..2}
   \cup {CovE(m) : m \in 1..2} \cup {IgpE(d) : d \in 1..2} \cup {IonE(d) : d \in 1..2}
   \cup {ChkE}
Em == "EMIT" \in DOMAIN IOEnv /\ IOEnv.EMIT = "1"
MCSub == {MaskE(m) : m \in 1..2} \cup {FastE(1), IntE, DegrE(2), LongE(1, 2),
   LongE(2, 1), MixE(2, 1), MixE(2, 2), CovE(1), IgpE(1), IonE(1), ChkE}
MCEv(s) == IF Em THEN MCSub ELSE MCAll
MCDo(s, e) == [st |-> SNext(s, e)]
MCCf == {[x |-> 0]}
MCBnd(s) == TRUE
Right(s) ==
  /\ SInv(s)
  \* whatever mask issue they came with, data are those of the satellite
  /\ \A x \in s.fast : x[2] = V(x[1])
  /\ \A x \in s.ai : x[2] = V(x[1]) % 16
  /\ \A x \in s.long : x[3] = 0 - V(x[1]) /\ x[11] \in {T, 2240*16}
  /\ \A x \in s.igp : \A i \in DOMAIN x.pt :
        x.pt[i] \in {NOPT, <<511, 2>>, <<10*x.iodi + i, x.iodi>>}
StepP(s, e, n) ==
  /\ e.op \in {"fast", "degr", "cov", "mixed"} /\ e.iodp # s.iodp => n = s
  /\ e.op = "iono" /\ ~(\E x \in s.igp : x.iodi = e.iodi) => n = s
  /\ e.op = "mask" /\ e.iodp = s.iodp => n = s
  /\ e.op \in {"igp", "iono"} => [n EXCEPT !.igp = s.igp, !.iodi = s.iodi] = s
VARIABLES xcfg, xs
INSTANCE Explore WITH Start <- SStart, Do <- MCDo, Inv <- Right,
  MCCfgs <- MCCf, MCEvents <- MCEv, MCBound <- MCBnd, StepInv <- StepP
==============================================================================

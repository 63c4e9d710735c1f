-------------------------------- MODULE Amb ----------------------------------
(* Ambiguity states of the PPP / RTK filter.                                  *)
(* An epoch lists the tracked satellites (and those of the base station in    *)
(* RTK), each with validity of its orbit, health, elevation, availability of  *)
(* its biases, ionospheric delay (mm) and, per signal, <<code present, phase  *)
(* present, LLI, C/N0, true ambiguity>>.  The observations are such that an   *)
(* ambiguity initialised in an epoch is the true one of this epoch, and the   *)
(* filter gains are negligible, so that the value of a state tells when it    *)
(* was initialised.                                                           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Sys(sat) == sat \div 1000
Bit0(v) == v % 2 = 1
\* frequency ratio of the first two signals
Ra(sat) == CASE Sys(sat) = 1 -> <<77, 60>> [] Sys(sat) = 2 -> <<9, 7>>
             [] Sys(sat) = 3 -> <<154, 115>> [] Sys(sat) = 5 -> <<154, 115>>
             [] Sys(sat) = 4 -> <<763, 620>>
CnMin(sat, f) == IF Sys(sat) = 1 /\ f = 2 THEN 15 ELSE 25

AStart(cfg) == [cfg |-> cfg, amb |-> {}, ion |-> {}, k |-> 0, z |-> {},
                gf |-> {}, gfr |-> {}, smode |-> 0]

(* ---- editing ----------------------------------------------------------- *)
\* orbit known, healthy, high enough, not excluded
Seen(c, x) == x.eph = 1 /\ x.svh = 0 /\ x.el >= c.elmin
              /\ ~(\E i \in DOMAIN c.excl : c.excl[i] = x.sat)
Whole(c, x) == \A f \in 1..c.nf : LET g == x.sig[f] IN
  g[1] = 1 /\ g[2] = 1 /\ ~Bit0(g[3]) /\ (g[4] = 0 \/ g[4] >= CnMin(x.sat, f))
\* geometry-free combination: <<ambiguity part, ionospheric part>>
HasGf(c, x) == c.nf > 1 /\ x.sig[1][2] = 1 /\ x.sig[2][2] = 1
Gf(x) == <<Ra(x.sat)[2]*x.sig[1][5] - Ra(x.sat)[1]*x.sig[2][5], x.ion>>
Far(p, q) == p[1] # q[1] \/ p[2] - q[2] > 250 \/ q[2] - p[2] > 250
GfSlip(mem, c, x) == HasGf(c, x) /\ \E m \in mem : m[1] = x.sat /\ Far(<<m[2], m[3]>>, Gf(x))
GfMem(mem, c, X) ==
  LET new == {x \in X : Seen(c, x) /\ HasGf(c, x)} IN
  {m \in mem : \A x \in new : x.sat # m[1]} \cup {<<x.sat, Gf(x)[1], Gf(x)[2]>> : x \in new}
Good(mem, c, X) == {x \in X : Seen(c, x) /\ Whole(c, x) /\ ~GfSlip(mem, c, x)}

(* ---- one epoch --------------------------------------------------------- *)
\* usable observations: <<sat, ion, el, bias known, ambiguities>>
Pairs(c, G, B) ==
  IF c.rtk = 0
  THEN {<<x.sat, x.ion, x.el, x.nb = 0, [f \in 1..c.nf |-> x.sig[f][5]]>> : x \in G}
  ELSE {<<x.sat, 0, x.el, TRUE, [f \in 1..c.nf |->
          x.sig[f][5] - (CHOOSE b \in B : b.sat = x.sat).sig[f][5]]>>
        : x \in {y \in G : \E b \in B : b.sat = y.sat}}
Drop(s, S) ==
  [s EXCEPT !.amb = {r \in @ : r[1] \notin S}, !.ion = {r \in @ : r[1] \notin S},
     !.z = {r \in @ : ~(\E q \in s.amb : q[1] = r[1] /\ q[2] = r[2] /\ q[1] \in S)}
           \cup {<<q[1], q[2], s.k>> : q \in {q \in s.amb : q[1] \in S}}]
Lost(X) == {x.sat : x \in {y \in X : \E f \in DOMAIN y.sig : Bit0(y.sig[f][3])}}
Zero(s, sat, f) == LET R == {r \in s.z : r[1] = sat /\ r[2] = f} IN
  IF R = {} THEN 0 ELSE (CHOOSE r \in R : TRUE)[3]

\* the phases used: the satellite has its biases, and there is another one of
\* the constellation to difference with
Used(U) == {u \in U : u[4] /\ \E v \in U : v[4] /\ v[1] # u[1] /\ Sys(v[1]) = Sys(u[1])}
Elig(c, V) == {v \in V : v[3] >= c.elar}
Fixed(c, V) == {v \in Elig(c, V) : \E w \in Elig(c, V) : w[1] # v[1] /\ Sys(w[1]) = Sys(v[1])}

Process(s, U) ==
  LET c == s.cfg
      ok == {u[1] : u \in U}
      s0 == [s EXCEPT !.k = @ + 1]
      old(r) == s0.k - Zero(s, r[1], r[2]) > c.maxout
      gone == {r \in s.amb : r[1] \notin ok \/ old(r)}
      s1 == [s0 EXCEPT !.amb = @ \ gone,
               !.z = {q \in @ : \A r \in gone : <<r[1], r[2]>> # <<q[1], q[2]>>}
                     \cup {<<r[1], r[2], s0.k>> : r \in gone},
               !.ion = {q \in @ : q[1] \in ok /\ \A f \in 1..c.nf :
                                    s0.k - Zero(s, q[1], f) <= c.maxout}]
      amb == s1.amb \cup {<<u[1], f, u[5][f]>> : u \in U, f \in 1..c.nf}
      \* initialised only where there is no state
      amb1 == {r \in amb : r \in s1.amb \/ ~(\E q \in s1.amb : q[1] = r[1] /\ q[2] = r[2])}
      ion1 == IF c.niono = 0 \/ c.nf = 1 THEN {}
              ELSE s1.ion \cup {<<u[1], u[2]>> : u \in {v \in U : ~(\E q \in s1.ion : q[1] = v[1])}}
      V == Used(U)
      vs == {v[1] : v \in V}
      fx == Fixed(c, V)
  IN [s1 EXCEPT !.amb = amb1, !.ion = ion1,
        !.z = {q \in @ : q[1] \notin vs} \cup {<<v, f, s0.k>> : v \in vs, f \in 1..c.nf},
        !.smode = IF c.armode > 0 /\ c.par = 1 /\ fx # {} THEN 4 ELSE 5]

\* what an epoch does: <<new state, processed, used>>
Epoch(s, e) ==
  LET c == s.cfg
      X == ToSet(e.sats)
      B == IF c.rtk = 1 THEN ToSet(e.base) ELSE {}
      n == Cardinality({x \in X : x.eph = 1})
      G == Good(s.gf, c, X)
      GB == Good(s.gfr, c, B)
      U == Pairs(c, G, GB)
      s1 == [s EXCEPT !.gf = GfMem(@, c, X), !.gfr = GfMem(@, c, B)]
      all == {r[1] : r \in s.amb \cup {}} \cup {r[1] : r \in s.ion}
  IN IF X = {} THEN <<s, FALSE, {}>>
     ELSE IF n < 6 THEN <<Drop(s, Lost(X \cup B)), FALSE, {}>>
     ELSE IF Cardinality(U) < 6
          THEN <<Drop(s1, {a \in all : a \notin {x.sat : x \in G}
                                \/ (c.rtk = 1 /\ a \notin {x.sat : x \in GB})}), FALSE, {}>>
     ELSE <<Process(s1, U), TRUE, Used(U)>>

ADo(s, e) ==
  LET r == Epoch(s, e) IN
  [st |-> r[1],
   out |-> [amb |-> r[1].amb, ion |-> r[1].ion, smode |-> IF r[2] THEN r[1].smode ELSE 0] @@
           (IF r[2] /\ s.cfg.armode > 0
            THEN [fixed |-> {<<v[1], f>> : v \in Fixed(s.cfg, r[3]), f \in 1..s.cfg.nf}]
            ELSE <<>>)]
ASets == {"amb", "ion", "fixed"}
AInv(s) ==
  /\ \A p, q \in s.amb : p[1] = q[1] /\ p[2] = q[2] => p = q
  /\ \A p, q \in s.ion : p[1] = q[1] => p = q
  /\ \A p, q \in s.z : p[1] = q[1] /\ p[2] = q[2] => p = q
==============================================================================

------------------------------- MODULE Explore -------------------------------
(* Exhaustive exploration of a specification given in the functional form    *)
(* used by TraceIO (Start/Do/Inv), for small constants.  Every transition is *)
(* printed as an EDGE line when EMIT=1 is in the environment, so that the    *)
(* harness can replay an edge-covering set of TLC's behaviours into the      *)
(* implementation.                                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Start(_), Do(_, _), Inv(_),
          MCCfgs,            \* set of initial configurations
          MCEvents(_),       \* events enabled in a state
          MCBound(_),        \* states beyond which exploration is cut
          StepInv(_, _, _)   \* property of every transition (s, e, s')

VARIABLES xcfg, xs
mcvars == <<xcfg, xs>>

Emit == "EMIT" \in DOMAIN IOEnv /\ IOEnv.EMIT = "1"

MCInit == xcfg \in MCCfgs /\ xs = Start(xcfg)

MCNext ==
  /\ MCBound(xs)
  /\ \E e \in MCEvents(xs) :
       /\ xs' = Do(xs, e).st
       /\ Assert(StepInv(xs, e, xs'), <<"StepInv violated", xs, e, xs'>>)
       /\ UNCHANGED xcfg
       /\ IF Emit
          THEN PrintT("EDGE " \o ToJson([c |-> xcfg, f |-> ToString(xs), e |-> e,
                                         t |-> ToString(xs')]))
          ELSE TRUE

MCSpec == MCInit /\ [][MCNext]_mcvars

MCInv == Inv(xs)
==============================================================================

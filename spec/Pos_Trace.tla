----------------------------- MODULE Pos_Trace -------------------------------
EXTENDS Pos, TraceIO
==============================================================================

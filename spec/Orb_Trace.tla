------------------------------ MODULE Orb_Trace ------------------------------
EXTENDS Orb, TraceIO
==============================================================================

---------------------------- MODULE RnxObs_Trace -----------------------------
EXTENDS RnxObs, TraceIO
==============================================================================

----------------------------- MODULE Amb_Trace -------------------------------
EXTENDS Amb, TraceIO
==============================================================================

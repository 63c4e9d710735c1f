----------------------------- MODULE Osnma_Trace -----------------------------
EXTENDS Osnma, TraceIO
==============================================================================

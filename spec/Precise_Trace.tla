--------------------------- MODULE Precise_Trace -----------------------------
EXTENDS Precise, TraceIO
==============================================================================

------------------------------- MODULE HAS_Trace -----------------------------
EXTENDS HAS, TraceIO
==============================================================================

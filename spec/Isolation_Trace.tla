--------------------------- MODULE Isolation_Trace ---------------------------
EXTENDS Isolation, TraceIO
==============================================================================

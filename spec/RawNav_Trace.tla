----------------------------- MODULE RawNav_Trace -----------------------------
EXTENDS RawNav, TraceIO
==============================================================================

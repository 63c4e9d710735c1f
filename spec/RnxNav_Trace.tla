---------------------------- MODULE RnxNav_Trace -----------------------------
EXTENDS RnxNav, TraceIO
==============================================================================

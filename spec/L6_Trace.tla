------------------------------- MODULE L6_Trace ------------------------------
EXTENDS L6, TraceIO
==============================================================================

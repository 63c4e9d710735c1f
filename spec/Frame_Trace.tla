----------------------------- MODULE Frame_Trace -----------------------------
EXTENDS Frame, TraceIO
==============================================================================

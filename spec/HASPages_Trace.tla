---------------------------- MODULE HASPages_Trace ---------------------------
EXTENDS HASPages, TraceIO
==============================================================================

------------------------------ MODULE Ews_Trace ------------------------------
EXTENDS Ews, TraceIO
==============================================================================

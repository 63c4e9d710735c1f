------------------------------ MODULE B2b_Trace ------------------------------
EXTENDS B2b, TraceIO
==============================================================================

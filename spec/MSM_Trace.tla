------------------------------ MODULE MSM_Trace ------------------------------
EXTENDS MSM, TraceIO
==============================================================================

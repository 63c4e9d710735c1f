----------------------------- MODULE RSSR_Trace ------------------------------
EXTENDS RSSR, TraceIO
==============================================================================

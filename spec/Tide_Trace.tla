------------------------------ MODULE Tide_Trace ------------------------------
EXTENDS Tide, TraceIO
==============================================================================

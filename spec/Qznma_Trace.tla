---------------------------- MODULE Qznma_Trace ------------------------------
EXTENDS Qznma, TraceIO
==============================================================================

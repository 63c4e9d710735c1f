----------------------------- MODULE Slas_Trace ------------------------------
EXTENDS Slas, TraceIO
==============================================================================

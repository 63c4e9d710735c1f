------------------------------ MODULE Sta_Trace ------------------------------
EXTENDS Sta, TraceIO
StaSets == {"res", "trop", "ion", "rsd"}
==============================================================================

----------------------------- MODULE Sbas_Trace ------------------------------
EXTENDS Sbas, TraceIO
==============================================================================

------------------------------ MODULE Geo_Trace ------------------------------
EXTENDS Geo, TraceIO
==============================================================================

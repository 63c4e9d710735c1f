---- MODULE EphA_Trace ----
EXTENDS Eph, TraceIO
====

---- MODULE EphF_Trace ----
EXTENDS Eph, TraceIO
====

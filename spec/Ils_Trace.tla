---- MODULE Ils_Trace ----
EXTENDS Ils, TraceIO
====

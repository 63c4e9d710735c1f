---- MODULE Std_Trace ----
EXTENDS Std, TraceIO
====

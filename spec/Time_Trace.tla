---- MODULE Time_Trace ----
EXTENDS Time, TraceIO
====

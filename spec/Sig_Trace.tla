---- MODULE Sig_Trace ----
EXTENDS Sig, TraceIO
====

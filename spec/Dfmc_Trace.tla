----------------------------- MODULE Dfmc_Trace ------------------------------
EXTENDS Dfmc, TraceIO
==============================================================================

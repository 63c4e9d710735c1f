------------------------------ MODULE Mdc_Trace ------------------------------
EXTENDS Mdc, TraceIO
==============================================================================

---------------------------- MODULE RtcmEph_Trace ----------------------------
EXTENDS RtcmEph, TraceIO
==============================================================================

------------------------------ MODULE JRuntime ------------------------------
EXTENDS Runtime, Trace
=============================================================================

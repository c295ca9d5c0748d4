----------------------------- MODULE JCompList -----------------------------
EXTENDS CompList, Trace
=============================================================================

------------------------------- MODULE JDict -------------------------------
EXTENDS Dict, Trace
=============================================================================

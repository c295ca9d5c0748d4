------------------------------- MODULE JPnode -------------------------------
EXTENDS Pnode, Trace
=============================================================================

------------------------------- MODULE JText -------------------------------
EXTENDS Text, Trace
=============================================================================

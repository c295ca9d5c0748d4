------------------------------ MODULE JConfig ------------------------------
EXTENDS Config, Trace
=============================================================================

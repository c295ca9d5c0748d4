-------------------------------- MODULE JVec --------------------------------
EXTENDS Vec, Trace
=============================================================================

------------------------------ MODULE JStrvec ------------------------------
EXTENDS Strvec, Trace
=============================================================================

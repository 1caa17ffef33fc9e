------------------------------- MODULE MCLeak -------------------------------
EXTENDS Leak
=============================================================================

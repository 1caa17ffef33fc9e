------------------------------ MODULE MCErase ------------------------------
EXTENDS Erase
=============================================================================

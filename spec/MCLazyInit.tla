----------------------------- MODULE MCLazyInit -----------------------------
EXTENDS LazyInit
=============================================================================

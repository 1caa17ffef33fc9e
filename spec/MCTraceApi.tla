----------------------------- MODULE MCTraceApi -----------------------------
EXTENDS TraceApi, Secp256k1
=============================================================================

--------------------------- MODULE TypeModelTrace ---------------------------
EXTENDS TypeModel, TraceKit
=============================================================================

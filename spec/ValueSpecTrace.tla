--------------------------- MODULE ValueSpecTrace ---------------------------
EXTENDS ValueSpec, TraceKit
=============================================================================

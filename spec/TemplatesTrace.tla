--------------------------- MODULE TemplatesTrace ---------------------------
EXTENDS Templates, TraceKit
=============================================================================

----------------------------- MODULE ConfigTrace -----------------------------
EXTENDS Config, TraceKit
=============================================================================

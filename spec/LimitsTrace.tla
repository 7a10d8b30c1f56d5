---------------------------- MODULE LimitsTrace ----------------------------
EXTENDS Limits, TraceKit
=============================================================================

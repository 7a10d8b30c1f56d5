---------------------------- MODULE BehaviorTrace ----------------------------
EXTENDS Behavior, TraceKit
=============================================================================

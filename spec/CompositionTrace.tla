-------------------------- MODULE CompositionTrace --------------------------
EXTENDS Composition, TraceKit
=============================================================================

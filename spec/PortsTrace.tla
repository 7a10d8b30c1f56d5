----------------------------- MODULE PortsTrace -----------------------------
EXTENDS Ports, TraceKit
=============================================================================

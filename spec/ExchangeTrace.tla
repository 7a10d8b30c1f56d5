---------------------------- MODULE ExchangeTrace ----------------------------
EXTENDS Exchange, TraceKit
=============================================================================

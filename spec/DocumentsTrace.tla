--------------------------- MODULE DocumentsTrace ---------------------------
(* Histories recorded from the code, judged against Documents.tla            *)
EXTENDS Documents, TraceKit
=============================================================================

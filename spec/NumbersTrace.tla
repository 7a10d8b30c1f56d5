---------------------------- MODULE NumbersTrace ----------------------------
(* judges recorded [lit, fmt, text, near, back, bfmt, same] records *)
EXTENDS Numbers, IOUtils
VARIABLES vix
Recs == JsonDeserialize(IOEnv.TRACE)
Init == vix \in 1..Len(Recs)
Spec == Init /\ [][UNCHANGED vix]_vix
Judge == LET v == Verdict(Recs[vix]) IN v = "ok" \/ Emit([tid |-> vix, v |-> v])
=============================================================================

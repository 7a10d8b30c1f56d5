-------------------------- MODULE NumberFormsTrace --------------------------
(* judges recorded [sort, text, near, back, bfmt, keeps, fault] records *)
EXTENDS NumberForms, IOUtils
VARIABLES vix
Recs == JsonDeserialize(IOEnv.TRACE)
Init == vix \in 1..Len(Recs)
Spec == Init /\ [][UNCHANGED vix]_vix
Judge == LET v == Verdict1(Recs[vix]) IN v = "ok" \/ Emit([tid |-> vix, v |-> v])
=============================================================================

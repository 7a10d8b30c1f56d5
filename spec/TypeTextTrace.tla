--------------------------- MODULE TypeTextTrace ---------------------------
(* judges recorded generations *)
EXTENDS TypeModel, IOUtils
CONSTANT What
VARIABLES vix
Recs == JsonDeserialize(IOEnv.TRACE)
Init == vix \in 1..Len(Recs)
Spec == Init /\ [][UNCHANGED vix]_vix
Verdict(rec) == IF What = "order" THEN OrderVerdict(rec) ELSE TextVerdict(rec)
Wanted(rec) == LET w == Emitted(rec.c, Sources(rec)) IN
               IF What = "order" THEN Map(Keep(rec.c.types, LAMBDA t : t.r \in w), LAMBDA t : t.r)
               ELSE Flat(Map(Keep(rec.order, LAMBDA r : Has(rec.c, r)), LAMBDA r : Decls(rec.c, At(rec.c, r))))
Judge == LET v == Verdict(Recs[vix]) IN v = "ok" \/ Emit([tid |-> vix, v |-> v, want |-> Wanted(Recs[vix])])
=============================================================================

------------------------------ MODULE TraceKit ------------------------------
(* Validation of traces recorded from the real code.  The file named by the *)
(* environment variable TRACE holds a JSON array of traces                  *)
(*    [cfg |-> ..., steps |-> <<[op |-> ..., res |-> STRING,                *)
(*                               proj |-> Seq(STRING)], ...>>].             *)
(* Every recorded step must be exactly the step the specification takes:    *)
(* same result, same projected state.  The verdict is total: a trace that   *)
(* is no behaviour of the specification ends in a "reject" state, printed   *)
(* with the step, what the specification says and what was recorded.        *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
CONSTANTS TInit(_), TStep(_, _), TProj(_)

VARIABLES tid, l, tst, verdict
tvars == <<tid, l, tst, verdict>>

Traces == JsonDeserialize(IOEnv.TRACE)

TraceInit == /\ tid \in 1..Len(Traces)
             /\ l = 1
             /\ tst = TInit(Traces[tid].cfg)
             /\ verdict = "ok"

TraceStep ==
  /\ verdict = "ok"
  /\ l <= Len(Traces[tid].steps)
  /\ LET rec == Traces[tid].steps[l]
         r   == TStep(tst, rec.op)
         p   == TProj(r.st)
     IN IF r.res = rec.res /\ p = rec.proj
        THEN /\ tst' = r.st /\ l' = l + 1 /\ UNCHANGED <<tid, verdict>>
        ELSE /\ PrintT("@@" \o ToJson([tid |-> tid, step |-> l, op |-> rec.op,
                       want |-> [res |-> r.res, proj |-> p],
                       got  |-> [res |-> rec.res, proj |-> rec.proj]]))
             /\ verdict' = "reject" /\ UNCHANGED <<tid, l, tst>>

TraceSpec == TraceInit /\ [][TraceStep]_tvars
=============================================================================

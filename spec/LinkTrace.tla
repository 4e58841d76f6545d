------------------------------ MODULE LinkTrace -----------------------------
(* Recorded executions of the real driver against Link.                       *)
EXTENDS Link, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, line, host, verdict
tvars == <<tid, line, host, verdict>>

Init == /\ tid \in 1..Len(Traces) /\ line = 1 /\ verdict = {}
        /\ host = Begin(Traces[tid].conf)

Step == /\ verdict = {} /\ line <= Len(Traces[tid].ev)
        /\ LET e == Traces[tid].ev[line]
               late == Late(host, e.t)
               b == IF late # {} THEN late ELSE Broken(host, e)
           IN /\ verdict' = b
              /\ host' = IF b = {} THEN After(host, e) ELSE host
              /\ (b # {} => PrintT(<<"BAD", tid, line, b>>))
        /\ line' = line + 1
        /\ tid' = tid

End == /\ verdict = {} /\ line = Len(Traces[tid].ev) + 1
       /\ PrintT(<<"OK", tid>>)
       /\ line' = line + 1 /\ UNCHANGED <<tid, host, verdict>>

Next == Step \/ End
Spec == Init /\ [][Next]_tvars
=============================================================================

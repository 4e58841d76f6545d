----------------------------- MODULE StartupTrace ---------------------------
(* Recorded starts of the real driver against Startup.                        *)
EXTENDS Startup, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, line, host, since, verdict
tvars == <<tid, line, host, since, verdict>>

AdapterOf(j) ==
  LET a == [prod |-> j.prod, ieee |-> j.ieee, nwk |-> j.nwk, nv |-> j.nv, dev |-> j.dev,
            eps |-> Range(j.eps), groups |-> Range(j.groups), net |-> NoNet,
            prim |-> <<>>, formedOn |-> <<>>, pending |-> <<>>]
  IN  IF j.hasnet THEN [a EXCEPT !.net = NetOf(a)] ELSE a
OptOf(j) == [set |-> Range(j.set), chans |-> Range(j.chans), key |-> j.key, pan |-> j.pan,
             ext |-> j.ext]

(* checking goes on after one of these *)
Findings == {"zstack12-pan-id-ignored", "unset-pan-ext-id-ignored"}

Init == /\ tid \in 1..Len(Traces) /\ line = 1 /\ since = 0 /\ verdict = {}
        /\ host = Begin(AdapterOf(Traces[tid].ad), OptOf(Traces[tid].opt))

Step == /\ verdict = {} /\ line <= Len(Traces[tid].ev)
        /\ LET e == Traces[tid].ev[line]
               b == Broken(host, e) \cup (IF WaitsTooLong(host, since, e) THEN {"waits-too-long"} ELSE {})
               stop == b \ Findings
           IN /\ verdict' = stop
              /\ host' = IF stop = {} THEN After(host, e) ELSE host
              /\ (stop # {} => PrintT(<<"BAD", tid, line, stop>>))
              /\ (b \cap Findings # {} => PrintT(<<"NOTE", tid, line, b \cap Findings>>))
        /\ since' = Traces[tid].ev[line].t
        /\ line' = line + 1
        /\ tid' = tid

End == /\ verdict = {} /\ line = Len(Traces[tid].ev) + 1
       /\ PrintT(<<"OK", tid>>)
       /\ line' = line + 1 /\ UNCHANGED <<tid, host, since, verdict>>

Next == Step \/ End
Spec == Init /\ [][Next]_tvars
=============================================================================

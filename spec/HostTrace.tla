------------------------------ MODULE HostTrace -----------------------------
(* Recorded executions of the real driver against Host.                       *)
EXTENDS Host, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, line, host, verdict
tvars == <<tid, line, host, verdict>>

Tr == Traces[tid]
Events == Tr.ev

(* events as the machine knows them (without the time stamp) *)
Bare(e) ==
  CASE e.k = "msg" -> AppMsg(e.ieee, e.cl, e.se, e.de, e.data, e.lqi)
    [] e.k = "join" -> [k |-> "join", nwk |-> e.nwk, ieee |-> e.ieee]
    [] OTHER -> e

Init == /\ tid \in 1..Len(Traces) /\ line = 1 /\ verdict = {}
        /\ host = Start(Traces[tid].prod, Traces[tid].devs)

Step == /\ verdict = {} /\ line <= Len(Events)
        /\ LET e == Events[line]
               late == Late(host, e.t)
               h1 == Pass(host, e.t)
               b == IF late # {} THEN late ELSE Broken(h1, Bare(e))
           IN /\ verdict' = b
              /\ host' = IF b = {} THEN After(h1, Bare(e)) ELSE host
              /\ (b # {} => PrintT(<<"BAD", tid, line, b>>))
        /\ line' = line + 1
        /\ tid' = tid

End == /\ verdict = {} /\ line = Len(Events) + 1
       /\ PrintT(<<"OK", tid>>)
       /\ line' = line + 1 /\ UNCHANGED <<tid, host, verdict>>

Next == Step \/ End
Spec == Init /\ [][Next]_tvars

(* the machine itself must stay sane on every recorded execution *)
OneOutstanding == Cardinality({i \in Ids(host) : IsCmd(host.ops[i])
                      /\ host.ops[i].st = "flight" /\ host.cur # i}) = 0
=============================================================================

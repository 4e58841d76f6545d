------------------------------ MODULE HostMenu ------------------------------
(* A small world for Host: a menu of calls and frames, the instants which     *)
(* matter, and what a correct driver may do next.                             *)
EXTENDS Host

CONSTANT Menu      \* which calls and frames there are

A == [ieee |-> <<1, 1, 1, 1, 1, 1, 1, 1>>, nwk |-> 4660]
B == [ieee |-> <<2, 2, 2, 2, 2, 2, 2, 2>>, nwk |-> 2]
Devs == <<[ieee |-> <<1, 2, 3, 4, 5, 6, 7, 8>>, nwk |-> 0], A, B>>

-----------------------------------------------------------------------------
(* The menu *)
Direct(ss, name, p, acc) == [op |-> "direct", a |-> [ss |-> ss, name |-> name, p |-> p, acc |-> acc]]
NoP == [x \in {} |-> <<>>]
Req(nwk, prof, cl, tsn, data) ==
  [op |-> "req", a |-> [nwk |-> nwk, prof |-> prof, cl |-> cl, se |-> 1, de |-> 1, tsn |-> tsn,
                        data |-> data, reply |-> TRUE]]
Ep(nwk, tsn) == Req(nwk, 0, 5, tsn, <<tsn>> \o LE2(nwk))
Node(nwk, tsn) == Req(nwk, 0, 2, tsn, <<tsn>> \o LE2(nwk))
Mc(tsn) == [op |-> "mreq", a |-> [grp |-> 7, prof |-> 260, cl |-> 6, se |-> 1, tsn |-> tsn, data |-> <<1, 2>>]]
Bc(tsn) == [op |-> "bcast", a |-> [addr |-> 65533, prof |-> 260, cl |-> 6, se |-> 1, de |-> 255,
                                   radius |-> 0, tsn |-> tsn, data |-> <<3>>]]
WaitFor(name, match, lim) ==
  [op |-> "wait", a |-> [ty |-> AREQ, ss |-> SubZDO, name |-> name, match |-> match, lim |-> lim]]

Bad(app) == [op |-> "broken", a |-> [app |-> app]] \* cannot be encoded

Calls == CASE
     Menu = "sync" -> {Direct(SubSYS, "ping", [capabilities |-> <<1>>], <<0>>),
                       Direct(SubAF, "delete", [endpoint |-> <<1>>], <<0>>),
                       Direct(SubAF, "delete", [endpoint |-> <<2>>], <<0, 9>>)}
  [] Menu = "reset" -> {Direct(SubSYS, "resetReq", [type |-> <<1>>], <<0>>),
                        Direct(SubAF, "delete", [endpoint |-> <<1>>], <<0>>),
                        Direct(SubSAPI, "systemReset", NoP, <<0>>), Bad(FALSE)}
  [] Menu = "wait" -> {WaitFor("stateChangeInd", <<>>, 5000),
                       WaitFor("stateChangeInd", <<<<"state", <<9>>>>>>, 10000),
                       Direct(SubSYS, "resetReq", [type |-> <<1>>], <<0>>)}
  [] Menu = "zdo" -> {Ep(4660, 0), Ep(4660, 5), Node(4660, 6), Ep(2, 7)}
  [] Menu = "app" -> {Req(4660, 260, 6, 3, <<1>>), Mc(4), Ep(4660, 5), Bad(TRUE)}
  [] Menu = "led" -> {[op |-> "permit", a |-> [dur |-> 60]], Ep(4660, 5),
                      Direct(SubAF, "delete", [endpoint |-> <<1>>], <<0>>)}
  [] Menu = "join" -> {Ep(4660, 5)}

Fr(ty, ss, id, data) == [ty |-> ty, ss |-> ss, id |-> id, data |-> data]
EpRsp(nwk) == Fr(AREQ, SubZDO, 133, LE2(nwk) \o <<0>> \o LE2(nwk) \o <<1, 1>>)
NodeRsp(nwk) == Fr(AREQ, SubZDO, 130, LE2(nwk) \o <<0>> \o LE2(nwk) \o <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13>>)
ResetInd == Fr(AREQ, SubSYS, 128, <<0, 2, 0, 2, 6, 3>>)
StateInd(x) == Fr(AREQ, SubZDO, 192, <<x>>)
Announcement(nwk, ieee) == Fr(AREQ, SubZDO, 193, LE2(nwk) \o LE2(nwk) \o ieee \o <<142>>)
InMsg(nwk) == Fr(AREQ, SubAF, 129, <<0, 0, 6, 0>> \o LE2(nwk) \o <<1, 1, 0, 90, 0, 0, 0, 0, 0, 0, 2, 24, 1>>)
InExt(ieee) == Fr(AREQ, SubAF, 130, <<0, 0, 6, 0, 3>> \o ieee \o <<1, 0, 0, 1, 0, 77, 0, 0, 0, 0, 0, 0, 2, 0, 24, 2>>)
PermitInd(d) == Fr(AREQ, SubZDO, 203, <<d>>)
PermitRsp(nwk) == Fr(AREQ, SubZDO, 182, LE2(nwk) \o <<0>>)

Frames == CASE
     Menu = "sync" -> {Fr(SRSP, SubSYS, 1, <<121, 1>>), Fr(SRSP, SubAF, 3, <<0>>), Fr(SRSP, SubAF, 3, <<9>>),
                       Fr(AREQ, SubAF, 3, <<0>>)}
  [] Menu = "reset" -> {ResetInd, Fr(SRSP, SubAF, 3, <<0>>), Fr(SRSP, SubSYS, 0, <<0>>), StateInd(9)}
  [] Menu = "wait" -> {ResetInd, StateInd(9), StateInd(8)}
  [] Menu = "zdo" -> {EpRsp(4660), NodeRsp(4660), EpRsp(2),
                      Fr(SRSP, SubZDO, 5, <<0>>), Fr(SRSP, SubZDO, 5, <<1>>), Fr(SRSP, SubZDO, 2, <<0>>)}
  [] Menu = "app" -> {EpRsp(4660), Fr(SRSP, SubZDO, 5, <<0>>), Fr(SRSP, SubAF, 1, <<0>>),
                      Fr(SRSP, SubAF, 1, <<16>>), Fr(SRSP, SubAF, 2, <<0>>), Fr(SRSP, SubAF, 2, <<16>>)}
  [] Menu = "led" -> {PermitInd(0), PermitInd(60), PermitRsp(0), Fr(SRSP, SubUTIL, 10, <<0>>),
                      Fr(SRSP, SubUTIL, 10, <<1>>), Fr(SRSP, SubZDO, 54, <<0>>), Fr(SRSP, SubZDO, 54, <<2>>),
                      Fr(SRSP, SubAF, 3, <<0>>)}
  [] Menu = "join" -> {Announcement(4660, A.ieee), Announcement(9, A.ieee),
                       Announcement(11, <<3, 3, 3, 3, 3, 3, 3, 3>>),
                       InMsg(4660), InMsg(9), InMsg(11), InExt(A.ieee), EpRsp(4660), EpRsp(9),
                       Fr(SRSP, SubZDO, 5, <<0>>)}

-----------------------------------------------------------------------------
CallIds(h) == {i \in Ids(h) : i > 0}
NextId(h) == Cardinality(CallIds(h)) + 1

Deadlines(h) ==
  {h.ops[i].dl : i \in {j \in Ids(h) : h.ops[j].st \in {"flight", "waiting"}}}
  \cup {h.ops[i].due : i \in {j \in Ids(h) : h.ops[j].st = "settle"}}
  \cup {h.exps[i].until : i \in 1..Len(h.exps)}
  \cup {h.exps[i].until + Grace + 1 : i \in 1..Len(h.exps)}
Instants(h) == {d \in (Deadlines(h) \cup {d - 1 : d \in Deadlines(h)}) : d > h.now}

(* the connection may be closed, the port may refuse a write *)
Mishaps(h) == IF Menu \notin {"reset", "app"} \/ h.gone THEN {}
              ELSE {[k |-> "closed"]} \cup (IF h.fail = 0 THEN {[k |-> "refuse"]} ELSE {})

(* what a correct driver may do *)
TxEvents(h) ==
  {[k |-> "tx", id |-> IF i > 0 THEN i ELSE 0, w |-> "frame",
    b |-> WireFrame(h.ops[i].fr[1], h.ops[i].fr[2], h.ops[i].fr[3], h.ops[i].fr[4])]
     : i \in {j \in Ids(h) : IsCmd(h.ops[j]) /\ h.ops[j].st = "queued"}}
RetEvents(h) ==
  UNION {{[k |-> "ret", id |-> i, r |-> x] : x \in h.ops[i].res \cup
             (IF h.ops[i].k = "bad" THEN {Failed} ELSE IF h.gone THEN {Timeout, Failed} ELSE {Timeout})}
           : i \in {j \in CallIds(h) : h.ops[j].st # "done"}}
DeliveryEvents(h) ==
  UNION {{IF a.m.k = "msg" /\ a.m.lqi = -1 THEN [a.m EXCEPT !.lqi = 0] ELSE a.m : a \in h.due[j].alts}
           : j \in 1..Len(h.due)}

Allowed(h, es) == {e \in es : Broken(h, e) = {}}
=============================================================================

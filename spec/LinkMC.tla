-------------------------------- MODULE LinkMC ------------------------------
(* The reconnect loop as a program against a port which fails at any moment,  *)
(* under the contract of Link.  Time in steps of half a second.               *)
EXTENDS Link, TLC

CONSTANTS Losses, Faults, Stops, Commands, Horizon, Tick, Calls

Conf == [path |-> "auto", baud |-> 115200, flow |-> "none",
         usb |-> <<[dev |-> "a", vid |-> 1105, pid |-> 5800], [dev |-> "b", vid |-> 1, pid |-> 1105]>>]

(* lkPh: off, opening, waking, asking, running, sleeping, dead                *)
(* lkCmd: commands of the attempt still to be answered                        *)
(* lkCalls: requests of the application, st: wait, asked, ok, failed          *)
VARIABLES lkHost, lkPh, lkNow, lkTimer, lkCmd, lkPort, lkFirst, lkLeft, lkBad, lkApp, lkCalls
lkVars == <<lkHost, lkPh, lkNow, lkTimer, lkCmd, lkPort, lkFirst, lkLeft, lkBad, lkApp, lkCalls>>

Ev(k) == [k |-> k, t |-> lkNow]
OpenEv == [k |-> "open", t |-> lkNow, url |-> "a", baud |-> 115200, parity |-> "N", stop |-> 1,
           bits |-> 8, xon |-> FALSE, rts |-> FALSE, dsr |-> FALSE]

RECURSIVE Feed(_, _, _)
Feed(h, bad, es) ==
  IF es = <<>> THEN <<h, bad>>
  ELSE LET e == Head(es)
           late == Late(h, e.t)
       IN Feed(After(h, e), bad \cup late \cup Broken(h, e), Tail(es))

Say(es) == LET r == Feed(lkHost, lkBad, es) IN lkHost' = r[1] /\ lkBad' = r[2]

Init == /\ lkHost = Begin(Conf) /\ lkPh = "off" /\ lkNow = 0 /\ lkTimer = 0 /\ lkCmd = 0
        /\ lkPort = 0 /\ lkFirst = TRUE /\ lkBad = {} /\ lkApp = FALSE /\ lkCalls = <<>>
        /\ lkLeft = [loss |-> Losses, fault |-> Faults, stop |-> Stops]

Start == /\ lkPh = "off" /\ lkNow = 0 /\ lkHost.mode = "none"
         /\ Say(<<Ev("start"), OpenEv>>)
         /\ lkPh' = "opening"
         /\ UNCHANGED <<lkNow, lkTimer, lkCmd, lkPort, lkFirst, lkLeft, lkApp, lkCalls>>

Opened == /\ lkPh = "opening"
          /\ Say(<<[k |-> "opened", t |-> lkNow, id |-> lkPort + 1],
                   [k |-> "tx", t |-> lkNow, id |-> lkPort + 1, w |-> "raw", b |-> <<239>>]>>)
          /\ lkPort' = lkPort + 1 /\ lkPh' = "waking" /\ lkTimer' = lkNow + 1000
          /\ lkApp' = FALSE
          /\ UNCHANGED <<lkNow, lkCmd, lkFirst, lkLeft, lkCalls>>

(* an attempt failed: the first start raises and the application is shut down *)
GiveUpNow(es) ==
  IF lkFirst
  THEN /\ Say(es \o <<[k |-> "startend", t |-> lkNow, r |-> "error"], Ev("shutdown")>>
              \o (IF lkPort \in lkHost.open THEN <<[k |-> "close", t |-> lkNow, id |-> lkPort]>> ELSE <<>>))
       /\ lkPh' = "dead" /\ UNCHANGED <<lkTimer>>
  ELSE /\ Say(es \o (IF lkPort > 0 THEN <<[k |-> "close", t |-> lkNow, id |-> lkPort]>> ELSE <<>>))
       /\ lkPh' = "sleeping" /\ lkTimer' = lkNow + 5000

OpenFails == /\ lkPh = "opening" /\ lkLeft.fault > 0
             /\ lkLeft' = [lkLeft EXCEPT !.fault = @ - 1]
             /\ GiveUpNow(<<Ev("openfail")>>)
             /\ UNCHANGED <<lkNow, lkCmd, lkPort, lkFirst, lkApp, lkCalls>>

TxNow == [k |-> "tx", t |-> lkNow, id |-> lkPort, w |-> "frame", b |-> <<>>]

Woken == /\ lkPh = "waking" /\ lkTimer = lkNow
         /\ IF lkPort \in lkHost.open THEN Say(<<TxNow>>) ELSE UNCHANGED <<lkHost, lkBad>>
         /\ lkPh' = "asking" /\ lkCmd' = Commands /\ lkTimer' = lkNow + 6000
         /\ lkApp' = TRUE
         /\ UNCHANGED <<lkNow, lkPort, lkFirst, lkLeft, lkCalls>>

Silent == lkPort \notin lkHost.open \/ lkHost.faulty

Answered == /\ lkPh = "asking" /\ ~Silent
            /\ IF lkCmd > 1
               THEN /\ Say(<<TxNow>>) /\ lkCmd' = lkCmd - 1 /\ lkTimer' = lkNow + 6000
                    /\ UNCHANGED <<lkPh, lkFirst>>
               ELSE /\ IF lkFirst THEN Say(<<[k |-> "startend", t |-> lkNow, r |-> "ok"]>>)
                       ELSE UNCHANGED <<lkHost, lkBad>>
                    /\ lkPh' = "running" /\ lkFirst' = FALSE /\ lkCmd' = 0 /\ UNCHANGED lkTimer
            /\ UNCHANGED <<lkNow, lkPort, lkLeft, lkApp, lkCalls>>

(* the current command is not answered: it runs into its timeout *)
NoAnswer == /\ lkPh = "asking" /\ ~Silent /\ lkLeft.fault > 0
            /\ lkLeft' = [lkLeft EXCEPT !.fault = @ - 1]
            /\ Say(<<Ev("fault")>>)
            /\ UNCHANGED <<lkPh, lkNow, lkTimer, lkCmd, lkPort, lkFirst, lkApp, lkCalls>>

(* it is answered with an error: the attempt fails at once *)
Rejected == /\ lkPh = "asking" /\ ~Silent /\ lkLeft.fault > 0
            /\ lkLeft' = [lkLeft EXCEPT !.fault = @ - 1]
            /\ GiveUpNow(<<Ev("fault")>>)
            /\ UNCHANGED <<lkNow, lkCmd, lkPort, lkFirst, lkApp, lkCalls>>

TimesOut == /\ lkPh = "asking" /\ lkTimer = lkNow /\ Silent
            /\ GiveUpNow(<<>>)
            /\ UNCHANGED <<lkNow, lkCmd, lkPort, lkFirst, lkLeft, lkApp, lkCalls>>

Lost == /\ lkPh \in {"waking", "asking", "running"} /\ lkPort \in lkHost.open /\ lkLeft.loss > 0
        /\ lkLeft' = [lkLeft EXCEPT !.loss = @ - 1]
        /\ Say(<<[k |-> "lost", t |-> lkNow, id |-> lkPort]>>)
        /\ IF lkApp /\ ~lkFirst
           THEN lkPh' = "sleeping" /\ lkTimer' = lkNow + 5000   \* a new reconnect task
           ELSE UNCHANGED <<lkPh, lkTimer>>                        \* noticed by its timeout
        /\ UNCHANGED <<lkNow, lkCmd, lkPort, lkFirst, lkApp, lkCalls>>

Reopen == /\ lkPh = "sleeping" /\ lkTimer = lkNow
          /\ Say(<<OpenEv>>) /\ lkPh' = "opening"
          /\ UNCHANGED <<lkNow, lkTimer, lkCmd, lkPort, lkFirst, lkLeft, lkApp, lkCalls>>

Shutdown == /\ lkPh \notin {"off", "dead"} /\ ~lkFirst /\ lkLeft.stop > 0
            /\ lkLeft' = [lkLeft EXCEPT !.stop = @ - 1]
            /\ Say(<<Ev("shutdown")>>
                   \o (IF lkPh = "opening" THEN <<Ev("openfail")>> ELSE <<>>)
                   \o (IF lkPort > 0 THEN <<[k |-> "close", t |-> lkNow, id |-> lkPort]>> ELSE <<>>))
            /\ lkPh' = "dead"
            /\ UNCHANGED <<lkNow, lkTimer, lkCmd, lkPort, lkFirst, lkApp, lkCalls>>

-----------------------------------------------------------------------------
(* requests of the running application *)
CallEvent(k, i) == [k |-> k, t |-> lkNow, c |-> i, n |-> i, id |-> lkPort]
EndOf(i, r) == [k |-> "callend", t |-> lkNow, c |-> i, r |-> r]
Linked == lkPort \in lkHost.open /\ lkPh \in {"running", "asking"}
NoneAsked == \A i \in 1..Len(lkCalls) : lkCalls[i].st # "asked"
LinkSame == UNCHANGED <<lkPh, lkNow, lkTimer, lkCmd, lkPort, lkFirst, lkLeft, lkApp>>
Over(c) == IF c.st = "failed" \/ (c.st = "ok" /\ c.rep) THEN [c EXCEPT !.t = 0, !.askT = 0] ELSE c
Become(i, st) == lkCalls' = [lkCalls EXCEPT ![i] = Over([@ EXCEPT !.st = st])]

Call == /\ ~lkFirst /\ lkPh # "dead" /\ Len(lkCalls) < Calls /\ lkNow <= Horizon - 25000
        /\ Say(<<CallEvent("call", Len(lkCalls) + 1)>>)
        /\ lkCalls' = Append(lkCalls, [st |-> "wait", port |-> lkPort, t |-> lkNow, askT |-> 0,
                                       rep |-> FALSE])
        /\ LinkSame
Ask(i) == /\ lkCalls[i].st = "wait" /\ NoneAsked /\ Linked /\ lkCalls[i].port = lkPort
          /\ Say(<<TxNow, CallEvent("ask", i)>>)
          /\ lkCalls' = [lkCalls EXCEPT ![i].st = "asked", ![i].askT = lkNow]
          /\ LinkSame
(* its connection is gone, or not there yet *)
Hopeless(i) == /\ lkCalls[i].st = "wait" /\ NoneAsked /\ ~(Linked /\ lkCalls[i].port = lkPort)
               /\ Say(<<EndOf(i, "error")>>) /\ Become(i, "failed") /\ LinkSame
Accept(i) == /\ lkCalls[i].st = "asked" /\ lkCalls[i].port \in lkHost.open
             /\ Say(<<CallEvent("accept", i), EndOf(i, "ok")>>) /\ Become(i, "ok") /\ LinkSame
Unanswered(i) == /\ lkCalls[i].st = "asked" /\ lkNow = lkCalls[i].askT + AnswerLimit
                 /\ Say(<<EndOf(i, "error")>>) /\ Become(i, "failed") /\ LinkSame
Replied(i) == /\ lkCalls[i].st \in {"asked", "ok"} /\ ~lkCalls[i].rep
              /\ lkCalls[i].port \in lkHost.open /\ lkNow < lkCalls[i].t + ReplyLimit
              /\ Say(<<CallEvent("reply", i), CallEvent("told", i)>>)
              /\ lkCalls' = [lkCalls EXCEPT ![i] = Over([@ EXCEPT !.rep = TRUE])] /\ LinkSame
CallDue == \E i \in 1..Len(lkCalls) :
             \/ lkCalls[i].st = "wait" /\ NoneAsked
             \/ lkCalls[i].st = "asked" /\ lkNow = lkCalls[i].askT + AnswerLimit
CallStep == \E i \in 1..Len(lkCalls) : Ask(i) \/ Hopeless(i) \/ Accept(i) \/ Unanswered(i) \/ Replied(i)

Due == \/ CallDue
       \/ lkPh = "opening"
       \/ lkPh \in {"waking", "sleeping"} /\ lkTimer = lkNow
       \/ lkPh = "asking" /\ (~Silent \/ lkTimer = lkNow)
       \/ lkPh = "off" /\ lkNow = 0
TickOn == /\ ~Due /\ lkNow < Horizon
          /\ lkNow' = lkNow + Tick
          /\ Say(<<[k |-> "tick", t |-> lkNow + Tick]>>)
          /\ UNCHANGED <<lkPh, lkTimer, lkCmd, lkPort, lkFirst, lkLeft, lkApp, lkCalls>>

Progress == CallStep \/ Start \/ Opened \/ Woken \/ Answered \/ TimesOut \/ Reopen \/ TickOn
Trouble == lkNow <= Horizon - 25000 /\ (OpenFails \/ NoAnswer \/ Rejected \/ Lost \/ Shutdown)
Next == Progress \/ Trouble \/ Call
Spec == Init /\ [][Next]_lkVars /\ WF_lkVars(Progress)

Sound == lkBad = {}
OnePort == Cardinality(lkHost.open) <= 1
DeadIsClosed == lkPh = "dead" => lkHost.open = {}
(* unless it is shut down, the link works again some time after the last fault *)
Recovers == <>[](lkPh \in {"running", "dead"})
CallsEnd == <>[](\A i \in 1..Len(lkCalls) : lkCalls[i].st \in {"ok", "failed"})
(* a call is written to the port it was made for, or not at all *)
NoCallMoves == \A i \in 1..Len(lkHost.calls) : lkHost.calls[i].port \in {0, lkCalls[i].port}
=============================================================================

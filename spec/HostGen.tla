------------------------------- MODULE HostGen ------------------------------
(* Schedules for the real driver: one path to (and one more step from) every  *)
(* state of Host which the menu reaches when the driver is eager.  After a    *)
(* step of the outside world the driver either comes to rest or gets no time  *)
(* at all before the next one (two things happen at once).                    *)
EXTENDS HostMenu, Json

CONSTANTS Prod, MaxCalls, MaxFrames, MaxTicks, MaxCancels

VARIABLES genHost, genHist, genLeft
genVars == <<genHost, genHist, genLeft>>

(* the eager driver *)
Ready(h) == {i \in CallIds(h) : LET o == h.ops[i] IN
   \/ o.st \in {"ended", "cancelling"}
   \/ Hopeless(h, o) /\ o.st = "queued" /\ HasTurn(h, o)
   \/ o.st = "settle" /\ o.due <= h.now
   \/ o.st \in {"flight", "waiting"} /\ o.dl <= h.now}
Oldest(h, es) == CHOOSE e \in es : \A x \in es : h.ops[Owner(h, e)].no <= h.ops[Owner(h, x)].no
RECURSIVE Rest(_)
Rest(h) ==
  LET tells == IF h.due = <<>> THEN {}
               ELSE Allowed(h, {IF a.m.k = "msg" /\ a.m.lqi = -1 THEN [a.m EXCEPT !.lqi = 0] ELSE a.m
                                  : a \in h.due[1].alts})
      rets == Allowed(h, UNION {{[k |-> "ret", id |-> i, r |-> x] : x \in h.ops[i].res \cup {Timeout, Failed}}
                                  : i \in Ready(h)})
      txs == Allowed(h, TxEvents(h))
  IN IF tells # {} THEN Rest(After(h, CHOOSE e \in tells : TRUE))
     ELSE IF rets # {} THEN Rest(After(h, CHOOSE e \in rets : TRUE))
     ELSE IF txs # {} THEN Rest(After(h, Oldest(h, txs)))
     ELSE h

Init == /\ genHost = Start(Prod, Devs)
        /\ genHist = <<>>
        /\ genLeft = [calls |-> MaxCalls, frames |-> MaxFrames, ticks |-> MaxTicks, cancels |-> MaxCancels]

Do(e, s, left) ==
  /\ genLeft' = left
  /\ \E rest \in BOOLEAN :
       /\ genHost' = IF rest THEN Rest(After(genHost, e)) ELSE After(genHost, e)
       /\ genHist' = Append(genHist, [st |-> s, rest |-> rest])

Next ==
  \/ /\ genLeft.calls > 0
     /\ \E c \in Calls : Do([k |-> "call", id |-> NextId(genHost), op |-> c.op, a |-> c.a],
                            [s |-> "call", op |-> c.op, a |-> c.a],
                            [genLeft EXCEPT !.calls = @ - 1])
  \/ /\ genLeft.cancels > 0
     /\ \E i \in CallIds(genHost) : genHost.ops[i].st # "done"
           /\ Do([k |-> "cancel", id |-> i], [s |-> "cancel", n |-> i],
                 [genLeft EXCEPT !.cancels = @ - 1])
  \/ /\ genLeft.cancels > 0
     /\ \E e \in Mishaps(genHost) : Do(e, [s |-> e.k], [genLeft EXCEPT !.cancels = @ - 1])
  \/ /\ genLeft.frames > 0 /\ ~genHost.gone
     /\ \E f \in Frames : Do([k |-> "rx", f |-> f], [s |-> "rx", f |-> f],
                             [genLeft EXCEPT !.frames = @ - 1])
  \/ /\ genLeft.ticks > 0
     /\ LET h == Rest(genHost) IN \E d \in Instants(h) :
          /\ genHost' = Rest(Pass(h, d))
          /\ genHist' = Append(genHist, [st |-> [s |-> "adv", ms |-> d - h.now], rest |-> TRUE])
          /\ genLeft' = [genLeft EXCEPT !.ticks = @ - 1]

Spec == Init /\ [][Next]_genVars
View == <<genHost, genLeft>>
Emit == PrintT(<<"SCHED", ToJson(genHist')>>)
=============================================================================

------------------------------- MODULE HostMC -------------------------------
(* Host with a small menu of calls and frames: every interleaving of the      *)
(* outside world with every behaviour a correct driver may show.              *)
(*                                                                            *)
(* The invariants restate the properties on ghost state (what was sent, what  *)
(* ended how, what was delivered), independently of the guards of Host.       *)
EXTENDS HostMenu

CONSTANTS Prod,      \* adapter type
          MaxCalls, MaxFrames, MaxTicks, MaxCancels

-----------------------------------------------------------------------------
VARIABLES mcHost,
          mcLeft,   \* what the outside world may still do
          mcSent,   \* ids in the order their frames were written
          mcEnded,  \* id -> result
          mcGot,    \* what the application was told, with the expectation state at that time
          mcHeard   \* frames received, in order
mcVars == <<mcHost, mcLeft, mcSent, mcEnded, mcGot, mcHeard>>


Init == /\ mcHost = Start(Prod, Devs)
        /\ mcLeft = [calls |-> MaxCalls, frames |-> MaxFrames, ticks |-> MaxTicks, cancels |-> MaxCancels]
        /\ mcSent = <<>> /\ mcEnded = <<>> /\ mcGot = <<>> /\ mcHeard = <<>>

EnvCall == /\ mcLeft.calls > 0
           /\ \E c \in Calls :
                mcHost' = After(mcHost, [k |-> "call", id |-> NextId(mcHost), op |-> c.op, a |-> c.a])
           /\ mcLeft' = [mcLeft EXCEPT !.calls = @ - 1]
           /\ UNCHANGED <<mcSent, mcEnded, mcGot, mcHeard>>
EnvCancel == /\ mcLeft.cancels > 0
             /\ \E i \in CallIds(mcHost) : mcHost.ops[i].st # "done"
                  /\ mcHost' = After(mcHost, [k |-> "cancel", id |-> i])
             /\ mcLeft' = [mcLeft EXCEPT !.cancels = @ - 1]
             /\ UNCHANGED <<mcSent, mcEnded, mcGot, mcHeard>>
EnvMishap == /\ mcLeft.cancels > 0
             /\ \E e \in Mishaps(mcHost) : mcHost' = After(mcHost, e)
             /\ mcLeft' = [mcLeft EXCEPT !.cancels = @ - 1]
             /\ UNCHANGED <<mcSent, mcEnded, mcGot, mcHeard>>
EnvFrame == /\ mcLeft.frames > 0 /\ ~mcHost.gone
            /\ \E f \in Frames :
                 /\ mcHost' = After(mcHost, [k |-> "rx", f |-> f])
                 /\ mcHeard' = Append(mcHeard, [f |-> f, at |-> mcHost.now, sent |-> Len(mcSent)])
            /\ mcLeft' = [mcLeft EXCEPT !.frames = @ - 1]
            /\ UNCHANGED <<mcSent, mcEnded, mcGot>>
EnvTick == /\ mcLeft.ticks > 0
           /\ \E d \in Instants(mcHost) :
                Late(mcHost, d) = {} /\ mcHost' = Pass(mcHost, d)
           /\ mcLeft' = [mcLeft EXCEPT !.ticks = @ - 1]
           /\ UNCHANGED <<mcSent, mcEnded, mcGot, mcHeard>>

DrvTx == \E e \in Allowed(mcHost, TxEvents(mcHost)) :
           /\ mcHost' = After(mcHost, e)
           /\ mcSent' = Append(mcSent, [id |-> Owner(mcHost, e), at |-> mcHost.now,
                                        busy |-> Len(SelectSeq(mcSent, LAMBDA s :
                                           s.by # "none" /\ s.id \notin DOMAIN mcEnded
                                           /\ s.id > 0 /\ s.at + s.lim > mcHost.now
                                           /\ mcHost.ops[s.id].st = "flight")),
                                        by |-> mcHost.ops[Owner(mcHost, e)].by,
                                        lim |-> mcHost.ops[Owner(mcHost, e)].lim,
                                        heard |-> Len(mcHeard)])
           /\ UNCHANGED <<mcLeft, mcEnded, mcGot, mcHeard>>
DrvRet == \E e \in Allowed(mcHost, RetEvents(mcHost)) :
            /\ mcHost' = After(mcHost, e)
            /\ mcEnded' = (e.id :> [r |-> e.r, at |-> mcHost.now, heard |-> Len(mcHeard)]) @@ mcEnded
            /\ UNCHANGED <<mcLeft, mcSent, mcGot, mcHeard>>
DrvTell == \E e \in Allowed(mcHost, DeliveryEvents(mcHost)) :
             /\ mcHost' = After(mcHost, e)
             /\ mcGot' = Append(mcGot, [e |-> e, heard |-> Len(mcHeard), ended |-> DOMAIN mcEnded])
             /\ UNCHANGED <<mcLeft, mcSent, mcEnded, mcHeard>>

Next == EnvCall \/ EnvCancel \/ EnvMishap \/ EnvFrame \/ EnvTick \/ DrvTx \/ DrvRet \/ DrvTell
Spec == Init /\ [][Next]_mcVars

-----------------------------------------------------------------------------
(* Invariants on the ghost state                                              *)
Ops == mcHost.ops
SentIds == {mcSent[k].id : k \in 1..Len(mcSent)}
SentAt(i) == CHOOSE k \in 1..Len(mcSent) : mcSent[k].id = i

(* the machine can be followed: whenever time may not pass the driver can act *)
NeverStuck ==
  Late(mcHost, mcHost.now + 1) # {} =>
     \/ Allowed(mcHost, TxEvents(mcHost)) # {}
     \/ Allowed(mcHost, RetEvents(mcHost)) # {}
     \/ Allowed(mcHost, DeliveryEvents(mcHost)) # {}
     \/ \E i \in Ids(mcHost) : mcHost.ops[i].led /\ mcHost.ops[i].st = "flight"

SilentWhenClosed == [][mcHost.gone => mcSent' = mcSent]_mcVars
SentOnce == \A j, k \in 1..Len(mcSent) : mcSent[j].id = mcSent[k].id => j = k
DirectInOrder ==
  \A j, k \in 1..Len(mcSent) :
     (j < k /\ mcSent[j].id > 0 /\ mcSent[k].id > 0 /\ ~Ops[mcSent[j].id].app /\ ~Ops[mcSent[k].id].app)
     => mcSent[j].id < mcSent[k].id
NothingWhileBusy == \A k \in 1..Len(mcSent) : mcSent[k].busy = 0
Slotted ==
  Cardinality({i \in CallIds(mcHost) : IsCmd(Ops[i]) /\ Ops[i].app /\
     (\/ Ops[i].st = "flight" /\ Ops[i].dl > mcHost.now
      \/ Ops[i].st = "settle" /\ Ops[i].due > mcHost.now)}) <= Slots(Prod)
CancelledUnsent == \* cancelled before it was sent: never sent afterwards
  \A i \in DOMAIN mcEnded : i \in SentIds =>
     mcSent[SentAt(i)].heard <= mcEnded[i].heard

(* success means: an answer of that command came after it was sent *)
HeardFor(i, good) ==
  \E n \in (mcSent[SentAt(i)].heard + 1)..mcEnded[i].heard :
     LET f == mcHeard[n].f  o == Ops[i] IN
       \/ /\ o.by = "srsp" /\ f.ty = SRSP /\ f.ss = o.fr[2] /\ f.id = o.fr[3]
          /\ LET m == Message(f) IN
               (Field(m, "status") = <<>> \/ \E k \in 1..Len(o.acc) : o.acc[k] = Field(m, "status")[1]) = good
       \/ good /\ o.by = "reset" /\ f = ResetInd
HonestResults ==
  \A i \in DOMAIN mcEnded : LET o == Ops[i] r == mcEnded[i].r IN
    IF ~IsCmd(o) THEN TRUE
    ELSE CASE r.kind = "ok" -> i \in SentIds /\ (o.by = "none" \/ HeardFor(i, TRUE))
           [] r.kind = "status" -> i \in SentIds /\ HeardFor(i, r.status = 0)
           [] r.kind = "rejected" -> i \in SentIds /\ HeardFor(i, FALSE)
           [] r.kind = "timeout" -> i \in SentIds /\ mcEnded[i].at = mcSent[SentAt(i)].at + o.lim
           [] OTHER -> TRUE
InTime ==
  \A i \in CallIds(mcHost) : IsCmd(Ops[i]) /\ Ops[i].st = "flight" => mcHost.now <= Ops[i].dl

(* replies: told once each, under the number of a request of that kind        *)
ReplyTold == SelectSeq(mcGot, LAMBDA g : g.e.k = "msg" /\ g.e.cl \in {32773, 32770})
TellOncePerReply ==
  Len(ReplyTold) <= Cardinality({n \in 1..Len(mcHeard) :
     mcHeard[n].f.ty = AREQ /\ mcHeard[n].f.ss = SubZDO /\ mcHeard[n].f.id \in {133, 130}})
NumberOfARequest ==
  \A k \in 1..Len(ReplyTold) : LET g == ReplyTold[k].e IN
     \E c \in Calls : /\ c.op = "req" /\ c.a.prof = 0 /\ c.a.tsn = g.data[1]
                      /\ ReplyCluster(Replies[c.a.cl]) = g.cl
                      /\ \E i \in CallIds(mcHost) : IsCmd(Ops[i]) /\ Ops[i].fr = FrameOf(c.op, c.a)
NoFailedExpectation ==
  \A k \in 1..Len(mcHost.exps) : LET i == mcHost.exps[k].id IN
     i \in DOMAIN mcEnded => mcEnded[i].r = Status(0)
OneTellPerRequest == \* no request gets two replies
  Len(ReplyTold) <= Cardinality({i \in CallIds(mcHost) : IsCmd(Ops[i]) /\ Ops[i].fr[2] = SubZDO})

(* joins: messages from an address belong to whoever announced it last *)
JoinsTold ==
  Len(SelectSeq(mcGot, LAMBDA g : g.e.k = "join"))
    <= Cardinality({n \in 1..Len(mcHeard) : mcHeard[n].f.id = 193 /\ mcHeard[n].f.ss = SubZDO})
KnownOnly == \A k \in 1..Len(mcGot) : mcGot[k].e.k = "msg" =>
  \E n \in 1..mcGot[k].heard :
     \/ mcGot[k].e.ieee \in {Devs[d].ieee : d \in 1..Len(Devs)}
     \/ mcHeard[n].f.id = 193 /\ SubSeq(mcHeard[n].f.data, 5, 12) = mcGot[k].e.ieee
NoLed == Prod = 1 => \A i \in Ids(mcHost) : i > 0
=============================================================================

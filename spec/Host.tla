-------------------------------- MODULE Host --------------------------------
(* The driver between an application and a ZNP adapter, seen from outside:    *)
(* calls made on it, frames it writes, frames it receives, what it hands to   *)
(* the application, and when calls end.                                       *)
(*                                                                            *)
(* One state record, one event at a time.  For every event                    *)
(*    Broken(h, e)   the clauses event e breaks in state h ({} = allowed)     *)
(*    After(h, e)    the state after it                                       *)
(* Events of the environment (call, cancel, rx, time) are always allowed.     *)
(* Events of the driver (tx, ret, msg, join) are allowed only where the       *)
(* protocol allows them, and obligations (send the next command, end a call,  *)
(* deliver a message) must be met before time passes: Late(h, t).             *)
(*                                                                            *)
(* HostMC.tla explores this machine with small constants and generates        *)
(* schedules for the real driver; HostTrace.tla checks recorded executions.   *)
EXTENDS Unpi, Codec, FiniteSets

SubSYS == 1  SubAF == 4  SubZDO == 5  SubSAPI == 6  SubUTIL == 7

None == [k |-> "none"]

-----------------------------------------------------------------------------
(* Frames the calls must put on the wire: <<ty, ss, id, data>>                *)

CmdFrame(c, data) == <<c.ty, c.ss, c.id, data>>

AF(a) ==
  CmdFrame(ByKey[Key(SubAF, 1)],
    LE2(a.nwk) \o <<a.de, a.se>> \o LE2(a.cl) \o <<a.tsn, 0, 30, Len(a.data)>> \o a.data)

AFExt(mode, addr, de, se, cl, tsn, radius, data) ==
  CmdFrame(ByKey[Key(SubAF, 2)],
    <<mode>> \o LE2(addr) \o <<0, 0, 0, 0, 0, 0>> \o <<de>> \o <<0, 0>> \o <<se>>
    \o LE2(cl) \o <<tsn, 0, radius>> \o LE2(Len(data)) \o data)

(* management command from a ZDO payload: the fields follow the destination   *)
PermitReqId == 54
Zdo(cl, addr, mode, data) ==
  LET raw == (IF cl = PermitReqId THEN <<mode>> ELSE <<>>) \o LE2(addr) \o Tail(data)
      c == ByKey[Key(SubZDO, cl)]
  IN  CmdFrame(c, Enc(c.req, AsRecord(c.req, Dec(c.req, raw).vals)))

RoutersAndCoordinator == 65532 \* 0xFFFC

FrameOf(op, a) ==
  CASE op = "direct" -> LET c == Named(a.ss, a.name) IN CmdFrame(c, Enc(c.req, a.p))
    [] op = "req" -> IF a.prof = 0 THEN Zdo(a.cl, a.nwk, 2, a.data) ELSE AF(a)
    [] op = "mreq" -> AFExt(1, a.grp, 255, IF a.se = 0 THEN 1 ELSE a.se, a.cl, a.tsn, 30, a.data)
    [] op = "bcast" -> IF a.prof = 0
                       THEN Zdo(a.cl, a.addr, IF a.addr = RoutersAndCoordinator THEN 15 ELSE 2, a.data)
                       ELSE AFExt(2, a.addr, a.de, a.se, a.cl, a.tsn, a.radius, a.data)
    [] op = "permit" -> CmdFrame(ByKey[Key(SubZDO, PermitReqId)],
                          <<15>> \o LE2(RoutersAndCoordinator) \o <<a.dur, 0>>)

LedFrame(mode) == CmdFrame(ByKey[Key(SubUTIL, 10)], <<3, mode>>)
LedOff == 0  LedOn == 1

(* how a command is answered *)
AnswerBy(fr) ==
  IF fr[1] = SREQ THEN "srsp"
  ELSE IF <<fr[2], fr[3]>> \in {<<SubSYS, 0>>, <<SubSAPI, 9>>} THEN "reset" ELSE "none"

SlowNames == {"bdbStartCommissioning", "startupFromApp"}
TimeLimit(fr) ==
  IF AnswerBy(fr) = "reset" THEN 30000
  ELSE IF ByKey[Key(fr[2], fr[3])].name \in SlowNames THEN 20000 ELSE 6000

(* device replies which are passed on: request cluster -> reply command       *)
Replies == (2 :> 130) @@ (4 :> 132) @@ (5 :> 133) @@ (33 :> 161) @@ (49 :> 177) @@ (54 :> 182)
ReplyIds == {Replies[c] : c \in DOMAIN Replies}
ReplyCluster(id) == 32768 + (id - 128)
ExpectFor == 10000 \* ms a reply is waited for
Grace == 250       \* within which an expectation may still be alive

Slots(prod) == IF prod = 1 THEN 16 ELSE 2
SettleTime == 200

-----------------------------------------------------------------------------
(* State                                                                      *)
(* A call which cannot be turned into a frame (k = "bad") ends with an error, *)
(* at the latest when it is its turn, and nothing else comes of it.  The same *)
(* goes for every call once closing the connection began (gone; shut: is done), *)
(* and for one whose frame the serial port refuses (fail: how many writes it   *)
(* will refuse).                                                              *)
(* ops: id -> [fr, by, lim, acc, app, settle, led, pend, st, no, dl, due,     *)
(*             res]   cur: the call whose command is outstanding              *)
(*   fade: the call which was outstanding when it was cancelled, until it ends *)
(*   st: queued -> flight -> (settle ->) ended(due, res) -> done              *)
(*       cancelling: cancelled before its end, must end now                   *)
Start(prod, devs) ==
  [now |-> 0, prod |-> prod, devs |-> devs, cur |-> 0, fade |-> 0, ops |-> <<>>, no |-> 0,
   leds |-> 0, exps |-> <<>>, due |-> <<>>, gone |-> FALSE, shut |-> FALSE, fail |-> 0]

Ids(h) == DOMAIN h.ops
InSt(h, sts) == {i \in Ids(h) : h.ops[i].st \in sts}
IsCmd(o) == o.k = "cmd"

Ok(m) == [kind |-> "ok", m |-> m]
OkNone == [kind |-> "ok", m |-> [name |-> "none"]]
Status(s) == [kind |-> "status", status |-> s]
Rejected(s) == [kind |-> "rejected", status |-> s]
Timeout == [kind |-> "timeout"]
Cancelled == [kind |-> "cancelled"]
Failed == [kind |-> "error"]
Res(r) == IF r.kind = "error" THEN Failed ELSE r

(* the adapter is free: no answer outstanding, or its time is up *)
Free(h) == h.cur = 0 \/ h.ops[h.cur].dl <= h.now
InProgress(h) ==
  {i \in Ids(h) : LET o == h.ops[i] IN IsCmd(o) /\ o.app /\
     \/ o.st = "flight" /\ o.dl > h.now
     \/ o.st = "settle" /\ o.due > h.now}

HasTurn(h, o) == Free(h) /\ (o.app => Cardinality(InProgress(h)) < Slots(h.prod))
Sendable(h) == IF h.gone THEN {}
  ELSE {i \in Ids(h) : LET o == h.ops[i] IN IsCmd(o) /\ o.st = "queued" /\ HasTurn(h, o)}
(* cannot be sent, whatever happens *)
Hopeless(h, o) == o.k = "bad" \/ (IsCmd(o) /\ h.gone)

SetOp(h, i, o) == [h EXCEPT !.ops = [@ EXCEPT ![i] = o]]
AddOp(h, i, o) == [h EXCEPT !.ops = (i :> o) @@ @, !.no = @ + 1]

-----------------------------------------------------------------------------
(* Time.  Late(h, t): clauses broken by letting time pass to t.               *)
Late(h, t) ==
  IF t = h.now THEN {}
  ELSE
  (IF h.due # <<>> /\ \E i \in 1..Len(h.due) : ~h.due[i].opt
   THEN {"message-not-delivered"} ELSE {})
  \cup
  (IF Free(h) /\ Sendable(h) # {} THEN {"command-not-sent"} ELSE {})
  \cup
  UNION { LET o == h.ops[i] IN
     IF o.st \in {"settle", "ended"} /\ o.due < t THEN {"call-not-ended"}
     ELSE IF o.st = "cancelling" THEN {"call-not-ended"}
     ELSE IF Hopeless(h, o) /\ ~o.led /\ o.st = "queued" /\ HasTurn(h, o) THEN {"call-not-ended"}
     ELSE IF o.st = "flight" /\ ~o.led /\ o.dl < t THEN {"no-timeout"}
     ELSE IF o.st = "waiting" /\ o.dl < t THEN {"no-timeout"}
     ELSE {} : i \in Ids(h) }
  \cup \* an LED command whose time is up frees the adapter without anything to see
  (IF h.cur # 0 /\ h.ops[h.cur].led /\ h.ops[h.cur].dl < t
      /\ Sendable([h EXCEPT !.now = h.ops[h.cur].dl]) # {} THEN {"command-not-sent"} ELSE {})

Expired(x, t) == t > x.until + Grace
Pass(h, t) ==
  IF t = h.now THEN h
  ELSE LET h1 == IF h.cur # 0 /\ h.ops[h.cur].led /\ h.ops[h.cur].dl < t
                 THEN [SetOp(h, h.cur, [h.ops[h.cur] EXCEPT !.st = "done"]) EXCEPT !.cur = 0]
                 ELSE h
       IN [h1 EXCEPT !.now = t, !.due = <<>>,
             !.exps = LET live == SelectSeq(@, LAMBDA x : ~Expired(x, t))
                      IN [i \in 1..Len(live) |->
                            IF t >= live[i].until THEN [live[i] EXCEPT !.sure = FALSE] ELSE live[i]]]

-----------------------------------------------------------------------------
(* Calls                                                                      *)
CmdOp(h, fr, acc, app, settle, led, pend, resk) ==
  [k |-> "cmd", fr |-> fr, by |-> AnswerBy(fr), lim |-> TimeLimit(fr), acc |-> acc,
   app |-> app, settle |-> settle, led |-> led, pend |-> pend, resk |-> resk,
   st |-> "queued", no |-> h.no, dl |-> 0, due |-> 0, res |-> {}]

Expects(op, a) == op = "req" /\ a.prof = 0 /\ a.reply /\ a.cl \in DOMAIN Replies

AfterCall(h, e) ==
  LET a == e.a
      app == e.op \in {"req", "mreq", "bcast", "permit"}
      h1 == AddOp(h, e.id,
              IF e.op = "wait"
              THEN [k |-> "wait", a |-> a, app |-> FALSE, st |-> "waiting", no |-> h.no,
                    dl |-> h.now + a.lim, due |-> 0, res |-> {}, led |-> FALSE]
              ELSE IF e.op = "broken"
              THEN [k |-> "bad", app |-> a.app, st |-> "queued", no |-> h.no, dl |-> 0, due |-> 0,
                    res |-> {}, led |-> FALSE]
              ELSE CmdOp(h, FrameOf(e.op, a), IF e.op = "direct" THEN a.acc ELSE <<0>>,
                         app, e.op \in {"mreq", "bcast"}, FALSE, FALSE,
                         IF e.op = "direct" THEN "msg" ELSE IF e.op = "permit" THEN "permit" ELSE "status"))
  IN IF Expects(e.op, a)
     THEN [h1 EXCEPT !.exps = Append(@,
             [id |-> e.id, tsn |-> a.tsn, rsp |-> Replies[a.cl], nwk |-> a.nwk,
              sure |-> TRUE, until |-> h.now + ExpectFor])]
     ELSE h1

Drop(h, i) == [h EXCEPT !.exps = SelectSeq(@, LAMBDA x : x.id # i)]
Doubt(h, i) == [h EXCEPT !.exps = [k \in 1..Len(@) |->
                  IF @[k].id = i THEN [@[k] EXCEPT !.sure = FALSE] ELSE @[k]]]

(* a cancellation which meets the answer (or the deadline) of the call at one *)
(* instant may or may not prevail                                             *)
AfterCancel(h, e) ==
  LET o == h.ops[e.id] IN
  CASE o.st = "settle" /\ o.due >= h.now + SettleTime ->
         Doubt(SetOp(h, e.id, [o EXCEPT !.res = @ \cup {Cancelled}]), e.id)
    [] o.st \in {"queued", "flight", "settle", "waiting"} ->
         LET h1 == SetOp(h, e.id, [o EXCEPT !.st = "cancelling",
                      !.res = {Cancelled} \cup (IF o.st = "settle" /\ o.due <= h.now THEN {Status(0)} ELSE {})
                              \cup (IF o.st \in {"flight", "waiting"} /\ o.dl <= h.now THEN {Timeout} ELSE {})])
             h2 == IF h.cur = e.id THEN [h1 EXCEPT !.cur = 0, !.fade = e.id] ELSE h1
         IN Doubt(h2, e.id)
    [] o.st = "ended" -> Doubt(SetOp(h, e.id, [o EXCEPT !.res = @ \cup {Cancelled}]), e.id)
    [] OTHER -> h

(* the connection is closed on purpose *)
AfterClose(h) ==
  [h EXCEPT !.gone = TRUE,
            !.ops = [i \in DOMAIN @ |-> IF @[i].led /\ @[i].st = "queued"
                                        THEN [@[i] EXCEPT !.st = "done"] ELSE @[i]],
            !.due = [k \in 1..Len(@) |-> [@[k] EXCEPT !.opt = TRUE]]]

(* calls which ended are not mentioned any more *)
Forget(h) ==
  [h EXCEPT !.ops = [i \in {j \in DOMAIN @ : @[j].st # "done"
                              \/ \E k \in 1..Len(h.exps) : h.exps[k].id = j} |-> @[i]]]

-----------------------------------------------------------------------------
(* Frames received: e.f = [ty, ss, id, data]                                  *)

Field(m, n) == IF n \in DOMAIN m.p THEN m.p[n] ELSE <<>>

(* the call this is the answer to, 0: none *)
Answers(o, m) ==
  \/ o.by = "srsp" /\ m.ty = SRSP /\ m.ss = o.fr[2] /\ m.id = o.fr[3]
  \/ o.by = "reset" /\ m.ty = AREQ /\ m.ss = SubSYS /\ m.id = 128
AnswerTo(h, m) ==
  IF h.cur # 0 /\ Answers(h.ops[h.cur], m) THEN h.cur
  ELSE IF h.fade # 0 /\ Answers(h.ops[h.fade], m) THEN h.fade ELSE 0

Answered(h, m, i) ==
  LET o == h.ops[i]
      st == Field(m, "status")
      bad == o.by = "srsp" /\ st # <<>> /\ ~(\E k \in 1..Len(o.acc) : o.acc[k] = st[1])
      r == IF o.resk = "msg" THEN (IF bad THEN Rejected(st[1]) ELSE Ok(m))
           ELSE IF o.resk = "permit" THEN (IF bad THEN Rejected(st[1]) ELSE OkNone)
           ELSE IF bad THEN Status(st[1]) ELSE Status(0)
      res == {r} \cup (IF o.dl <= h.now THEN {Timeout} ELSE {})
                 \cup (IF i = h.fade THEN {Cancelled} ELSE {})
      o2 == IF o.led THEN [o EXCEPT !.st = "done"]
            ELSE IF o.settle /\ ~bad
            THEN [o EXCEPT !.st = "settle", !.due = h.now + SettleTime, !.res = res]
            ELSE [o EXCEPT !.st = "ended", !.due = h.now, !.res = res]
      h1 == [SetOp(h, i, o2) EXCEPT !.cur = IF @ = i THEN 0 ELSE @,
                                    !.fade = IF @ = i THEN 0 ELSE @]
  IN IF bad THEN Doubt(h1, i) ELSE h1 \* dropped when the call ends

(* waits for indications *)
Meets(m, a) ==
  /\ m.ty = a.ty /\ m.ss = a.ss /\ m.name = a.name
  /\ \A k \in 1..Len(a.match) : Field(m, a.match[k][1]) = a.match[k][2]
Served(h, m, sure) ==
  [h EXCEPT !.ops = [i \in DOMAIN @ |->
     LET o == @[i] IN
     IF o.k = "wait" /\ o.st \in {"waiting", "cancelling"} /\ Meets(m, o.a)
     THEN IF sure /\ o.st = "waiting"
          THEN [o EXCEPT !.st = "ended", !.due = h.now,
                  !.res = @ \cup {Ok(m)} \cup (IF o.dl <= h.now THEN {Timeout} ELSE {})]
          ELSE [o EXCEPT !.res = @ \cup {Ok(m)}]
     ELSE o]]

(* devices *)
ByNwk(h, nwk) == LET s == SelectSeq(h.devs, LAMBDA d : d.nwk = nwk)
                 IN IF s = <<>> THEN <<>> ELSE s[1].ieee
KnowsIeee(h, ieee) == \E k \in 1..Len(h.devs) : h.devs[k].ieee = ieee
Joined(h, nwk, ieee) ==
  IF KnowsIeee(h, ieee)
  THEN [h EXCEPT !.devs = [k \in 1..Len(@) |->
          IF @[k].ieee = ieee THEN [@[k] EXCEPT !.nwk = nwk] ELSE @[k]]]
  ELSE [h EXCEPT !.devs = Append(@, [ieee |-> ieee, nwk |-> nwk])]

(* alts: what may be told; x: the expectation used up by it (0: none) *)
Deliver(h, alts, opt) == [h EXCEPT !.due = Append(@, [alts |-> alts, opt |-> opt])]
Must(h, y) == Deliver(h, {[x |-> 0, m |-> y]}, FALSE)

(* the reserved bits of a neighbour table entry may be passed on or cleared *)
LqiCluster == 32817
Plain(cl, se, data) ==
  IF cl # LqiCluster \/ se # 0 THEN data
  ELSE [j \in 1..Len(data) |-> IF j < 6 THEN data[j]
                                ELSE IF (j - 6) % 22 = 18 THEN data[j] % 128
                                ELSE IF (j - 6) % 22 = 19 THEN data[j] % 4
                                ELSE data[j]]
AppMsg(ieee, cl, se, de, data, lqi) ==
  [k |-> "msg", ieee |-> ieee, cl |-> cl, se |-> se, de |-> de,
   data |-> Plain(cl, se, data), lqi |-> lqi]
ZdoMsg(ieee, cl, data) == AppMsg(ieee, cl, 0, 0, data, -1)

AddLed(h, mode) ==
  IF h.prod = 1 THEN h
  ELSE LET i == -(h.leds + 1)
       IN [AddOp(h, i, CmdOp(h, LedFrame(mode), <<0>>, FALSE, FALSE, TRUE, FALSE, "msg"))
             EXCEPT !.leds = @ + 1]

(* a reply of a device: who asked?  Candidates in order: everything doubtful  *)
(* up to and including the first sure expectation.                            *)
Reply(h, m, data) ==
  LET nwk == m.p["srcaddr"][1]
      ieee == ByNwk(h, nwk)
      hit(x) == x.rsp = m.id /\ x.nwk = nwk
      mine == SelectSeq(h.exps, hit)
      firstSure == {k \in 1..Len(mine) : mine[k].sure /\ \A j \in 1..(k - 1) : ~mine[j].sure}
      last == IF firstSure = {} THEN Len(mine) ELSE CHOOSE k \in firstSure : TRUE
      cand == {mine[k] : k \in 1..last}
      msg(x) == ZdoMsg(ieee, ReplyCluster(m.id), <<x.tsn>> \o data)
  IN IF mine = <<>> THEN h
     ELSE IF ieee = <<>>
     THEN \* nobody to pass it on for; whether the expectation is used up cannot be seen
          [h EXCEPT !.exps = [k \in 1..Len(@) |->
             IF @[k] \in cand THEN [@[k] EXCEPT !.sure = FALSE] ELSE @[k]]]
     ELSE IF Cardinality(cand) = 1 /\ firstSure # {}
     THEN LET x == CHOOSE x \in cand : TRUE
          IN Must([h EXCEPT !.exps = SelectSeq(@, LAMBDA y : y.id # x.id)], msg(x))
     ELSE Deliver([h EXCEPT !.exps = [k \in 1..Len(@) |->
                     IF @[k] \in cand THEN [@[k] EXCEPT !.sure = FALSE] ELSE @[k]]],
                  {[x |-> x.id, m |-> msg(x)] : x \in cand}, firstSure = {})

Low2(b) == b[1] + 256 * b[2]
Incoming(h, m) ==
  LET ext == m.id = 130
      sa == m.p["srcaddr"]
      ieee == IF ~ext THEN ByNwk(h, sa[1])
              ELSE IF m.p["srcaddrmode"] = <<3>> THEN (IF KnowsIeee(h, sa) THEN sa ELSE <<>>)
              ELSE ByNwk(h, Low2(sa))
  IN IF ieee = <<>> THEN h
     ELSE Must(h, AppMsg(ieee, m.p["clusterid"][1], m.p["srcendpoint"][1],
                         m.p["dstendpoint"][1], m.p["data"], m.p["linkquality"][1]))

Announce(h, m) ==
  LET nwk == m.p["nwkaddr"][1]
      ieee == m.p["ieeeaddr"]
      enc == Enc(ByKey[Key(m.ss, m.id)].req, m.p)
      h1 == Must(Joined(h, nwk, ieee), [k |-> "join", nwk |-> nwk, ieee |-> ieee])
  IN Must(h1, ZdoMsg(ieee, 19, <<0>> \o SubSeq(enc, 3, Len(enc))))

Dispatch(h, m) ==
  IF m.ty # AREQ THEN h
  ELSE IF m.ss = SubZDO /\ m.id = 193 THEN Announce(h, m)
  ELSE IF m.ss = SubZDO /\ m.id = 203
       THEN AddLed(h, IF m.p["duration"] = <<0>> THEN LedOff ELSE LedOn)
  ELSE IF m.ss = SubZDO /\ m.id \in ReplyIds
       THEN LET enc == Enc(ByKey[Key(m.ss, m.id)].req, m.p)
                h1 == IF m.id = 182 THEN AddLed(h, LedOn) ELSE h
            IN Reply(h1, m, SubSeq(enc, 3, Len(enc)))
  ELSE IF m.ss = SubAF /\ m.id \in {129, 130} THEN Incoming(h, m)
  ELSE h

IsReply(m) == m.ty = AREQ /\ m.ss = SubZDO /\ m.id \in ReplyIds

AfterRx(h, e) ==
  IF ~Decodable(e.f) THEN h
  ELSE LET m == Message(e.f)
           i == AnswerTo(h, m)
           h1 == IF i # 0 THEN Answered(h, m, i) ELSE h
           h2 == Served(h1, m, ~IsReply(m) \/ h.exps = <<>>)
       IN Dispatch(h2, m)

-----------------------------------------------------------------------------
(* Frames written: e.b the bytes, e.id the call that wrote them (0 unknown)   *)
TxFrame(b) == LET p == Parts(b) IN <<p.ty, p.ss, p.id, p.data>>

(* the call a frame belongs to: the one that wrote it, else the oldest asking for it *)
Owner(h, e) ==
  LET f == TxFrame(e.b)
      q == {i \in Ids(h) : IsCmd(h.ops[i]) /\ h.ops[i].st = "queued" /\ h.ops[i].fr = f}
  IN IF e.id # 0 /\ e.id \in Ids(h) THEN (IF e.id \in q THEN e.id ELSE 0)
     ELSE IF q = {} THEN 0
     ELSE CHOOSE i \in q : \A j \in q : h.ops[i].no <= h.ops[j].no

BrokenTx(h, e) ==
  IF h.shut THEN {"sent-after-close"}
  ELSE IF e.w # "frame" \/ Len(e.b) < 5 \/ ~FcsGood(e.b) THEN {"malformed-output"}
  ELSE LET i == Owner(h, e) IN
  IF i = 0
  THEN IF e.id # 0 /\ e.id \in Ids(h) /\ h.ops[e.id].k = "cmd"
       THEN LET o == h.ops[e.id] IN
            IF o.st = "cancelling" THEN {"sent-after-cancel"}
            ELSE IF o.st = "queued" THEN {"wrong-frame"}
            ELSE {"sent-twice"}
       ELSE {"unrequested-frame"}
  ELSE LET o == h.ops[i] IN
    (IF Free(h) THEN {} ELSE {"second-outstanding"})
    \cup
    (IF ~o.app /\ ~o.led /\ \E j \in Ids(h) : LET p == h.ops[j] IN
           IsCmd(p) /\ p.st = "queued" /\ ~p.app /\ ~p.led /\ p.no < o.no
     THEN {"out-of-order"} ELSE {})
    \cup
    (IF o.led /\ \E j \in Ids(h) : h.ops[j].led /\ h.ops[j].st = "queued" /\ h.ops[j].no < o.no
     THEN {"led-out-of-order"} ELSE {})
    \cup
    (IF o.app /\ Cardinality(InProgress(h)) >= Slots(h.prod) THEN {"too-many-in-progress"} ELSE {})

(* whoever was outstanding and ran out of time makes room *)
Evict(h) ==
  IF h.cur = 0 THEN h
  ELSE LET o == h.ops[h.cur]
       IN [SetOp(h, h.cur, IF o.led THEN [o EXCEPT !.st = "done"]
                           ELSE [o EXCEPT !.st = "ended", !.due = h.now, !.res = {Timeout}])
             EXCEPT !.cur = 0]

AfterTx(h, e) ==
  LET i == Owner(h, e)
      h0 == Evict(h)
      h1 == IF h.cur # 0 THEN Doubt(h0, h.cur) ELSE h0
      o == h1.ops[i]
  IN IF h.fail > 0
     THEN [Doubt(SetOp(h1, i, [o EXCEPT !.st = IF o.led THEN "done" ELSE "ended",
                                        !.due = h.now, !.res = {Failed}]), i)
             EXCEPT !.fail = @ - 1]
     ELSE IF o.by = "none"
     THEN SetOp(h1, i, [o EXCEPT !.st = "ended", !.due = h.now, !.res = {OkNone}])
     ELSE [SetOp(h1, i, [o EXCEPT !.st = "flight", !.dl = h.now + o.lim]) EXCEPT !.cur = i]

-----------------------------------------------------------------------------
(* Ends of calls: e.r the result                                              *)
BrokenRet(h, e) ==
  LET o == h.ops[e.id] IN
  CASE o.st = "done" -> {"ended-twice"}
    [] o.k = "bad" -> IF Res(e.r) \in o.res \cup {Failed} THEN {} ELSE {"wrong-result"}
    [] Hopeless(h, o) /\ o.st \in {"queued", "flight"} /\ Res(e.r) = Failed -> {}
    [] o.st = "ended" -> IF Res(e.r) \in o.res THEN {} ELSE {"wrong-result"}
    [] o.st = "cancelling" ->
         IF e.r \in o.res \/ (Hopeless(h, o) /\ Res(e.r) = Failed) THEN {} ELSE {"wrong-result"}
    [] o.st = "settle" -> IF e.r \notin o.res THEN {"wrong-result"}
                          ELSE IF o.due > h.now /\ e.r.kind \notin {"timeout", "cancelled"}
                          THEN {"no-settle-time"} ELSE {}
    [] o.st \in {"flight", "waiting"} ->
         IF e.r = Timeout THEN (IF o.dl > h.now THEN {"early-timeout"} ELSE {})
         ELSE IF e.r \in o.res THEN {} \* a wait which may have been served
         ELSE IF e.r.kind \in {"ok", "status", "rejected"} THEN {"ended-without-answer"}
         ELSE {"wrong-result"}
    [] o.st = "queued" -> {"ended-without-being-sent"}
    [] OTHER -> {"ended-twice"}

AfterRet(h, e) ==
  LET o == h.ops[e.id]
      h1 == SetOp(h, e.id, [o EXCEPT !.st = "done"])
      h2 == [h1 EXCEPT !.cur = IF @ = e.id THEN 0 ELSE @, !.fade = IF @ = e.id THEN 0 ELSE @]
  IN IF e.r.kind = "status" THEN (IF e.r.status # 0 THEN Drop(h2, e.id) ELSE h2)
     ELSE Drop(h2, e.id)

-----------------------------------------------------------------------------
(* What the application is told: joins and messages, in order of arrival      *)
Told(a, y) ==
  IF a.k # y.k THEN FALSE
  ELSE IF a.k = "join" THEN a = y
  ELSE \/ a.lqi = -1 /\ a = [y EXCEPT !.lqi = -1]
       \/ a = y
Same(d, y) == \E a \in d.alts : Told(a.m, y)

(* position of the delivery this is: the first that fits with only optional ones before *)
Fits(h, y) == {k \in 1..Len(h.due) : Same(h.due[k], y) /\ \A j \in 1..(k - 1) : h.due[j].opt}

BrokenDelivery(h, y) ==
  IF Fits(h, y) # {} THEN {}
  ELSE IF \E k \in 1..Len(h.due) : Same(h.due[k], y) THEN {"delivered-out-of-order"}
  ELSE IF h.due = <<>> THEN {"unexpected-delivery"}
  ELSE IF y.k = "msg" /\ y.data # <<>> /\ y.se = 0 /\ \E k \in 1..Len(h.due) : \E a \in h.due[k].alts :
            /\ a.m.k = "msg" /\ a.m.ieee = y.ieee /\ a.m.cl = y.cl /\ a.m.se = 0
            /\ Len(a.m.data) = Len(y.data) /\ Tail(a.m.data) = Tail(y.data)
       THEN {"wrong-transaction-number"}
  ELSE {"wrong-delivery"}

(* the expectation used up by what was told cannot be used for anything else;  *)
(* of several which look the same it is the oldest                             *)
AfterDelivery(h, y) ==
  LET k == CHOOSE k \in Fits(h, y) : \A j \in Fits(h, y) : k <= j
      h1 == [h EXCEPT !.due = SubSeq(@, k + 1, Len(@))]
      xs == {a.x : a \in {b \in h.due[k].alts : Told(b.m, y)}} \ {0}
  IN IF xs = {} THEN h1
     ELSE LET x == CHOOSE x \in xs : \A z \in xs : h.ops[x].no <= h.ops[z].no
          IN [Drop(h1, x) EXCEPT
                !.due = SelectSeq([j \in 1..Len(@) |->
                            [@[j] EXCEPT !.alts = {a \in @ : a.x # x}]],
                          LAMBDA d : d.alts # {})]

-----------------------------------------------------------------------------
(* One event                                                                  *)
Broken(h, e) ==
  CASE e.k = "tx" -> BrokenTx(h, e)
    [] e.k = "ret" -> BrokenRet(h, e)
    [] e.k \in {"msg", "join"} -> BrokenDelivery(h, e)
    [] e.k = "escape" -> {"error-escapes-to-transport"}
    [] e.k = "fails" -> {"driver-fails"}
    [] e.k = "hangs" -> {"driver-hangs"}
    [] OTHER -> {}

After(h, e) ==
  CASE e.k = "tx" -> AfterTx(h, e)
    [] e.k = "ret" -> AfterRet(h, e)
    [] e.k \in {"msg", "join"} -> AfterDelivery(h, e)
    [] e.k = "call" -> AfterCall(h, e)
    [] e.k = "cancel" -> AfterCancel(h, e)
    [] e.k = "rx" -> AfterRx(h, e)
    [] e.k = "close" -> AfterClose(h)
    [] e.k = "closed" -> [AfterClose(h) EXCEPT !.shut = TRUE]
    [] e.k = "refuse" -> [h EXCEPT !.fail = @ + 1]
    [] e.k = "forget" -> Forget(h)
    [] OTHER -> h
=============================================================================

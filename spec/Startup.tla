------------------------------- MODULE Startup ------------------------------
(* What starting the adapter may do and must have achieved (C15-C18, C23).    *)
(* The host is seen from outside: the commands it sends, what happens to each *)
(* of them, and how the start ends.  A step of the contract is an event:      *)
(*   start  [form]          the application is started                        *)
(*   cmd    [ss,name,p,x,st] a command, and its fate x:                       *)
(*            ok        carried out, answered with status st                  *)
(*            reject    not carried out, answered with status st              *)
(*            silent    not carried out, no answer                            *)
(*            lost      carried out, no answer (in time)                      *)
(*            noreport  answered, but the report which should follow is lost  *)
(*   formed                 the adapter has started its network and reports it*)
(*   end    [r,...]         the start returned (ok), raised (error), or does  *)
(*                          not end (hang)                                    *)
(*   crash                  host or link die in the middle of a start         *)
(*   power                  the adapter is switched off and on                *)
EXTENDS Znp

(* statuses a step accepts *)
Accepts(a, c) ==
  CASE Is(c, 1, "osalNvRead") /\ Item(c) = ItemMark(a.prod) -> {0, 2}
    [] Is(c, 1, "osalNvItemInit") -> {0, 9}
    [] Is(c, 5, "startupFromApp") -> {0, 1}
    [] Is(c, 5, "extFindGroup") -> {0, 1}
    [] OTHER -> {0, -1}

Led(c) == Is(c, 7, "ledControl")
MarkRead(a, c) == Is(c, 1, "osalNvRead") /\ Item(c) = ItemMark(a.prod)

(* does this step make the start fail? *)
Fails(a, e) ==
  /\ ~Led(e)
  /\ \/ e.x \in {"silent", "lost", "noreport"}
     \/ e.st \notin Accepts(a, e) /\ ~MarkRead(a, e)
(* a marker which can not be read may count as missing *)
MayFail(a, e) == ~Led(e) /\ e.st \notin Accepts(a, e) /\ MarkRead(a, e)

Marks(a, c) ==
  \/ Is(c, 1, "osalNvWrite") /\ Item(c) = ItemMark(a.prod) /\ c.p.value = <<85>>
  \/ Is(c, 1, "osalNvItemInit") /\ Item(c) = ItemMark(a.prod) /\ c.p.initvalue = <<85>>
     /\ ItemMark(a.prod) \notin DOMAIN a.nv

(* touching the stored network or restarting the stack *)
Touches(a, c) ==
  \/ Is(c, 1, "osalNvWrite") /\ Item(c) \in NetItems(a.prod)
  \/ Is(c, 1, "osalNvItemInit") /\ Item(c) \in NetItems(a.prod)
  \/ Is(c, 6, "writeConfiguration") /\ CfgItem(c) \in NetItems(a.prod)
  \/ Is(c, 1, "resetReq")
  \/ Is(c, 15, "bdbSetChannel") \/ Is(c, 15, "bdbStartCommissioning")

(* Z-Stack 1.2 whose PAN id or extended PAN id alone differs: see DESIGN.md *)
OnlyPanDiffers(a, o) ==
  /\ a.prod = 0 /\ Marked(a)
  /\ \A i \in Params \ {ItemPan, ItemExtPan} : Holds(a, o, i)
  /\ ~(Holds(a, o, ItemPan) /\ Holds(a, o, ItemExtPan))

(* Z-Stack 3 with an unset PAN id whose extended PAN id differs: see DESIGN.md *)
OnlyExtDiffers(a, o) ==
  /\ PanUnset(a) /\ Marked(a)
  /\ \A i \in Params \ {ItemPan, ItemExtPan} : Holds(a, o, i)
  /\ ~Holds(a, o, ItemExtPan)

Begin(ad, opt) ==
  [ad |-> ad, opt |-> opt, on |-> FALSE, form |-> FALSE, over |-> FALSE,
   matched |-> FALSE, onlyPan |-> FALSE, onlyExt |-> FALSE, before |-> ad,
   failed |-> FALSE, mayFail |-> FALSE, bdb |-> FALSE, nth |-> 0, crashed |-> FALSE]

(* the longest the host may wait for anything: an answer (up to 20 s) and the  *)
(* report after it (60 s), and some                                           *)
StepLimit == 90000
WaitsTooLong(h, since, e) ==
  h.on /\ e.k \in {"cmd", "end"} /\ e.t > since + StepLimit

-----------------------------------------------------------------------------
CmdBroken(h, e) ==
  LET a == h.ad IN
  IF e.name = "?" THEN {"unknown-command"} ELSE
  (IF h.failed /\ ~h.over /\ ~Led(e) THEN {"carried-on-after-failure"} ELSE {})
  \cup (IF h.over /\ ~Led(e) THEN {"acts-after-the-end"} ELSE {})
  \cup (IF Led(e) /\ a.prod = 1 THEN {"led-not-supported"} ELSE {})
  \cup (IF h.matched /\ Touches(a, e) THEN {"touched-a-matching-network"} ELSE {})
  \cup (IF h.matched /\ Is(e, 5, "startupFromApp") /\ a.dev = RunningCoordinator
        THEN {"started-a-running-stack"} ELSE {})
  \cup (IF ~h.form /\ Touches(a, e) THEN {"formed-without-permission"} ELSE {})
  \cup (IF Marks(a, e) /\ e.x \in {"ok", "lost", "noreport"} /\ ~Marked(a)
           /\ ~(\A i \in Params : Holds(a, h.opt, i))
        THEN {"marked-before-stored"} ELSE {})
  \cup (IF Marks(a, e) /\ e.x \in {"ok", "lost", "noreport"} /\ a.prod # 0
           /\ ~(a.dev = RunningCoordinator /\ a.net = NetOf(a))
        THEN {"marked-before-formed"} ELSE {})
  \cup (IF Is(e, 4, "register") /\ e.p.endpoint[1] \in a.eps THEN {"registered-again"} ELSE {})
  \cup (IF Is(e, 4, "register") /\ e.p.endpoint[1] \in EpNumbers
           /\ LET d == EpOf(e.p.endpoint[1])
              IN  ~( /\ e.p.appprofid = <<d.prof>> /\ e.p.appdeviceid = <<d.dev>>
                     /\ e.p.appnuminclusters = <<Len(d.in)>> /\ e.p.appinclusterlist = d.in
                     /\ e.p.appnumoutclusters = <<Len(d.out)>> /\ e.p.appoutclusterlist = d.out )
        THEN {"wrong-endpoint"} ELSE {})
  \cup (IF Is(e, 5, "extAddGroup") /\ <<e.p.endpoint[1], e.p.groupid[1]>> \in a.groups
        THEN {"group-added-again"} ELSE {})
  (* the recording must fit the adapter *)
  \cup (IF e.x \in {"ok", "noreport"} /\ Effect(a, e).st # e.st THEN {"recording"} ELSE {})

EndBroken(h, e) ==
  LET a == h.ad o == h.opt
      pans == {i \in {ItemPan, ItemExtPan} : ~Holds(a, o, i) /\ ~(i = ItemPan /\ PanUnset(a))}
      rest == {i \in Params \ {ItemPan, ItemExtPan} : ~Holds(a, o, i)}
      ignored == /\ h.onlyPan /\ rest = {}
                 /\ \A i \in pans : Stored(a, i) = Stored(h.before, i)
      extIgnored == /\ h.onlyExt /\ rest = {} /\ PanUnset(a)
                    /\ Stored(a, ItemExtPan) = Stored(h.before, ItemExtPan)
  IN
  CASE e.r = "hang" -> {"start-never-ends"}
    [] e.r = "error" ->
         IF h.failed \/ h.mayFail THEN {}
         ELSE IF h.crashed THEN {"no-recovery-after-interruption"}
         ELSE IF h.matched THEN {"matching-network-not-resumed"}
         ELSE {"start-fails-without-cause"}
    [] e.r = "ok" ->
         (IF h.failed THEN {"success-after-failure"} ELSE {})
         \cup (IF e.ieee # a.ieee \/ e.nwk # a.nwk THEN {"wrong-address"} ELSE {})
         \cup (IF ~e.coord THEN {"no-coordinator-device"} ELSE {})
         \cup (IF ~h.form \/ h.failed THEN {} ELSE
               (IF rest # {} \/ pans # {} THEN
                   IF ignored THEN {"zstack12-pan-id-ignored"}
                   ELSE IF extIgnored THEN {"unset-pan-ext-id-ignored"}
                   ELSE IF h.crashed THEN {"half-written-network-taken"}
                   ELSE {"wrong-network"}
                ELSE {})
               \cup (IF ~Marked(a) THEN {"not-marked"} ELSE {})
               \cup (IF a.dev # RunningCoordinator THEN {"not-running"} ELSE {})
               \cup (IF h.bdb /\ a.formedOn # ChannelArg(o) THEN {"formed-on-other-channels"} ELSE {})
               \cup (IF h.bdb /\ a.net # NetOf(a) THEN {"formed-another-network"} ELSE {})
               \cup (IF ~(EpNumbers \subseteq a.eps) THEN {"endpoint-missing"} ELSE {})
               \cup (IF <<GreenPowerEp, GreenPowerGroup>> \notin a.groups
                     THEN {"group-missing"} ELSE {}))
    [] OTHER -> {}

Broken(h, e) ==
  CASE e.k = "cmd" -> IF h.on \/ h.over THEN CmdBroken(h, e) ELSE {"acts-unasked"}
    [] e.k = "end" -> EndBroken(h, e)
    [] e.k = "fails" -> {"driver-fails"}
    [] e.k = "formed" -> IF h.ad.pending = <<>> THEN {"recording"} ELSE {}
    [] OTHER -> {}

After(h, e) ==
  CASE e.k = "start" ->
         \* a network that was still being started does not come up any more
         [h EXCEPT !.ad.pending = <<>>, !.on = TRUE, !.over = FALSE, !.form = e.form, !.failed = FALSE, !.mayFail = FALSE,
                   !.matched = Matches(h.ad, h.opt), !.onlyPan = OnlyPanDiffers(h.ad, h.opt),
                   !.onlyExt = OnlyExtDiffers(h.ad, h.opt),
                   !.before = h.ad, !.bdb = FALSE, !.nth = @ + 1]
    [] e.k = "cmd" ->
         LET a == h.ad
             b == IF e.x \in {"ok", "lost", "noreport"} THEN Effect(a, e).a ELSE a
         IN  [h EXCEPT !.ad = b, !.failed = @ \/ Fails(a, e), !.mayFail = @ \/ MayFail(a, e),
                       !.bdb = @ \/ (Is(e, 15, "bdbStartCommissioning") /\ e.p.mode = <<4>>)]
    [] e.k = "end" -> [h EXCEPT !.on = FALSE, !.over = TRUE, !.crashed = @ \/ e.r # "ok"]
    [] e.k = "crash" -> [h EXCEPT !.on = FALSE, !.over = FALSE, !.crashed = TRUE]
    [] e.k = "formed" -> [h EXCEPT !.ad = Formed(@)]
    [] e.k = "power" -> [h EXCEPT !.ad = PowerCycle(@)]
    [] OTHER -> h
=============================================================================

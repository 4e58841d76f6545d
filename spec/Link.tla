-------------------------------- MODULE Link --------------------------------
(* The serial link: which port is opened and how, waking it, probing it, and  *)
(* reconnecting after it was lost (C19, C20, C22).  The host is seen at the   *)
(* serial port and through the calls of the application.  Events (t: ms):     *)
(*   start / startend [r]    the first start of the application                *)
(*   open [args] / opened [id] / openfail     the driver opens a port          *)
(*   tx [id, w, b]           the driver writes: w = raw (b: bytes) or frame    *)
(*   fault                   the attempt just met something that makes it fail *)
(*   close [id]              the driver closes a port                          *)
(*   lost [id]               the port goes away                                *)
(*   shutdown / closeapi     the application is shut down / its connection     *)
(*                           closed on purpose                                 *)
(*   probe / cancel / probeend [r]    a probe                                  *)
(*   answer [id]             the version response reaches the driver           *)
(* Requests made while the link comes and goes (each call c to a device of its *)
(* own, with the transaction number n), and what devices send:                *)
(*   call [c, n]             the application asks for a descriptor             *)
(*   ask [c, id]             the request is written to a port                  *)
(*   accept [c]              the adapter's answer to it reaches the driver     *)
(*   reply [c]               the device's reply reaches the driver             *)
(*   told [c, n]             the application is told of the reply              *)
(*   callend [c, r]          the call ends (ok or error)                       *)
(*   note [m] / noted [m]    a message of a known device; the application is   *)
(*                           told of it                                        *)
(*   end [runs]              some time later; does the adapter run a network   *)
EXTENDS Integers, Sequences, FiniteSets

ReconnectDelay == 5000
WakeDelay == 1000
ProbeLimit == 2000
GiveUp == 70000       \* the longest a start waits for one thing, and some
StartTime == 60000    \* the longest an undisturbed start takes
AnswerLimit == 6000   \* of a request
CallLimit == 120000   \* a call among a few ends by then, whatever happens
ReplyLimit == 10000
WakeByte == 239

Known(u) == (u[1] = 1105) \/ (u[1] = 6790 /\ u[2] = 29987)   \* 0451:*, 1A86:7523

(* the port to open for a configuration: <<path>>, or <<>> if it must fail *)
PortOf(c) ==
  IF c.path # "auto" THEN <<c.path>>
  ELSE LET m == SelectSeq(c.usb, LAMBDA u : Known(<<u.vid, u.pid>>))
       IN IF Len(m) = 1 THEN <<m[1].dev>> ELSE <<>>

OpenedWrong(c, e) ==
  \/ PortOf(c) = <<>>
  \/ e.url # PortOf(c)[1]
  \/ e.baud # c.baud
  \/ e.parity # "N" \/ e.stop # 1 \/ e.bits # 8
  \/ e.rts # (c.flow = "hardware")
  \/ e.xon # (c.flow = "software")
  \/ e.dsr

Begin(conf) ==
  [conf |-> conf, mode |-> "none", since |-> 0, must |-> FALSE, also |-> 0 - 1,
   opening |-> FALSE, open |-> {}, port |-> 0, openT |-> 0, wakeT |-> 0, woken |-> FALSE,
   faulty |-> FALSE, faultT |-> 0, lastT |-> 0, answered |-> FALSE, tried |-> FALSE,
   cancelled |-> FALSE, asked |-> FALSE, t |-> 0, again |-> FALSE, calls |-> <<>>,
   notes |-> {}, noteT |-> 0]

(* an attempt has been going on undisturbed for long enough *)
Works(l, t) == l.mode = "up" /\ ~l.faulty /\ ~l.opening /\ l.port \in l.open /\ t > l.openT + StartTime

(* modes: none, start (first start in progress), up (running, or trying to),  *)
(*        down (lost: opened again 5 s after `since`), closed, probe, over    *)

-----------------------------------------------------------------------------
CallLate(c, t) ==
  (IF c.due /\ t > c.t THEN {"call-not-sent"} ELSE {})
  \cup (IF c.end = "" /\ (\/ (c.acc >= 0 /\ t > c.acc)
                       \/ (c.port # 0 /\ c.acc < 0 /\ t > c.askT + AnswerLimit + 1)
                       \/ t > c.t + CallLimit)
        THEN {"call-not-ended"} ELSE {})
  \cup (IF c.rep = "due" /\ t > c.repT THEN {"reply-not-told"} ELSE {})

(* what should have happened before time t *)
Late(l, t) ==
  UNION {CallLate(l.calls[i], t) : i \in 1..Len(l.calls)} \cup
  (IF l.notes # {} /\ t > l.noteT THEN {"message-not-told"} ELSE {}) \cup
  (IF l.mode = "down" /\ l.must /\ ~l.opening /\ t > l.since + ReconnectDelay + 1
   THEN {"not-reopened"} ELSE {})
  \cup (IF l.mode = "up" /\ l.faulty /\ ~l.opening /\ t > l.faultT + GiveUp
        THEN {"attempt-never-given-up"} ELSE {})
  \cup (IF l.mode = "probe" /\ t > l.since + ProbeLimit + 1 THEN {"probe-too-late"} ELSE {})
  \cup (IF l.mode \in {"closed", "over"} /\ l.open # {} /\ t > l.since
        THEN {"port-left-open"} ELSE {})
  \cup (IF l.mode = "probe" /\ l.cancelled /\ t > l.faultT + 1
        THEN {"probe-ignores-cancel"} ELSE {})

OpenBroken(l, e) ==
  (IF OpenedWrong(l.conf, e) THEN {"wrong-port-or-settings"} ELSE {})
  \cup (IF l.open # {} THEN {"two-ports"} ELSE {})
  \cup (IF l.opening THEN {"two-attempts"} ELSE {})
  \cup (CASE l.mode \in {"start", "probe"} -> IF l.tried THEN {"opened-again"} ELSE {}
          [] l.mode = "down" ->
               IF e.t \in {l.since + ReconnectDelay, l.since + ReconnectDelay + 1}
               THEN {} ELSE {"reopened-at-wrong-time"}
          [] l.mode = "up" /\ l.also >= 0
               /\ e.t \in {l.also + ReconnectDelay, l.also + ReconnectDelay + 1} -> {}
          [] l.mode \in {"closed", "over"} -> {"opened-after-close"}
          [] OTHER -> {"opened-unasked"})

TxBroken(l, e) ==
  (IF e.id # l.port THEN {"wrote-to-old-port"} ELSE {})
  \cup (IF e.w = "raw" THEN
          IF l.woken \/ e.b # <<WakeByte>> THEN {"stray-bytes"}
          ELSE {}
        ELSE (IF ~l.woken THEN {"no-wake-up"} ELSE {})
             \cup (IF e.t < l.openT + WakeDelay \/ (l.woken /\ e.t < l.wakeT + WakeDelay) THEN {"command-too-early"} ELSE {}))

CloseBroken(l, e) ==
  IF l.mode = "up" /\ e.id \in l.open /\ ~l.faulty THEN {"closed-a-good-link"} ELSE {}

ProbeEndBroken(l, e) ==
  (IF e.r = "cancelled" /\ l.cancelled THEN {}
   ELSE IF e.r = "true" /\ ~l.answered THEN {"probe-true-without-answer"}
   ELSE IF e.r = "false" /\ l.answered /\ ~l.cancelled /\ e.t < l.since + ProbeLimit
        THEN {"probe-false-despite-answer"}
   ELSE IF e.r \notin {"true", "false"} THEN {"probe-raises"}
   ELSE {})
  \cup (IF l.open # {} THEN {"probe-leaves-port-open"} ELSE {})

CallEndBroken(c, e) ==
  IF c.end # "" THEN {"call-ended-twice"}
  ELSE IF e.r = "ok" THEN IF c.acc < 0 THEN {"call-ok-without-acceptance"} ELSE {}
  ELSE IF c.acc >= 0 THEN {"call-fails-though-accepted"}
  ELSE IF c.sure /\ ~(c.port # 0 /\ e.t >= c.askT + AnswerLimit) THEN {"call-fails-without-cause"}
  ELSE {}

Broken(l, e) ==
  CASE e.k = "ask" -> LET c == l.calls[e.c] IN
                      IF c.port # 0 THEN {"asked-twice"}
                      ELSE IF c.end # "" THEN {"asked-after-end"} ELSE {}
    [] e.k = "callend" -> CallEndBroken(l.calls[e.c], e)
    [] e.k = "told" -> IF e.c \notin 1..Len(l.calls) \/ l.calls[e.c].rep # "due" THEN {"told-unasked"}
                       ELSE IF l.calls[e.c].n # e.n THEN {"told-wrong-number"} ELSE {}
    [] e.k = "noted" -> IF e.m \notin l.notes THEN {"told-unasked"} ELSE {}
    [] e.k = "end" -> IF l.again /\ Works(l, e.t) /\ ~e.runs THEN {"not-started-again"} ELSE {}
    [] e.k = "open" -> OpenBroken(l, e)
    [] e.k = "opened" -> IF l.mode \in {"closed", "over"} THEN {"opened-after-close"} ELSE {}
    [] e.k = "tx" -> TxBroken(l, e)
    [] e.k = "close" -> CloseBroken(l, e)
    [] e.k = "probeend" -> ProbeEndBroken(l, e)
    [] e.k = "startend" ->
         IF e.r = "ok" /\ l.faulty THEN {"success-after-failure"}
         ELSE IF e.r = "error" /\ ~l.faulty /\ l.mode = "start" /\ PortOf(l.conf) # <<>>
              THEN {"start-fails-without-cause"}
         ELSE IF e.r = "hang" THEN {"start-never-ends"} ELSE {}
    [] e.k = "escape" -> {"error-escapes"}
    [] e.k = "fails" -> {"driver-fails"}
    [] OTHER -> {}

Down(l, t, must) == [l EXCEPT !.mode = "down", !.since = t, !.must = must, !.faulty = FALSE,
                              !.also = 0 - 1]

(* what is left of a call when nothing more can come of it *)
Tidy(c) == IF c.end = "error" \/ (c.end # "" /\ c.rep = "told")
           THEN [c EXCEPT !.t = 0, !.askT = 0, !.acc = 0, !.repT = 0, !.sure = FALSE] ELSE c

(* whatever becomes of the calls in progress, it has a cause *)
Unsure(l) == [l EXCEPT !.calls = [i \in 1..Len(@) |-> [@[i] EXCEPT !.sure = FALSE, !.due = FALSE]]]

After(l0, e) ==
  LET l == [(IF e.k \in {"lost", "close", "fault", "shutdown", "closeapi"} THEN Unsure(l0) ELSE l0)
            EXCEPT !.t = e.t] IN
  CASE e.k = "start" -> [l EXCEPT !.mode = "start"]
    [] e.k = "startend" -> IF l.mode = "start"
                           THEN [l EXCEPT !.mode = IF e.r = "ok" THEN "up" ELSE "failed"] ELSE l
    [] e.k = "open" -> [l EXCEPT !.opening = TRUE, !.tried = TRUE, !.also = 0 - 1,
                                 !.again = l.mode # "start",
                                 !.faulty = IF l.mode = "start" THEN @ ELSE FALSE,
                                 !.mode = IF @ \in {"down"} THEN "up" ELSE @]
    [] e.k = "opened" -> [l EXCEPT !.opening = FALSE, !.open = @ \cup {e.id}, !.port = e.id,
                                   !.openT = e.t, !.woken = FALSE, !.asked = FALSE]
    [] e.k = "openfail" ->
         LET m == [l EXCEPT !.opening = FALSE]
         IN  IF l.mode = "up" THEN Down(m, e.t, TRUE)
             ELSE IF l.mode = "start" THEN [m EXCEPT !.faulty = TRUE, !.faultT = e.t] ELSE m
    [] e.k = "tx" -> IF e.w = "raw" THEN [l EXCEPT !.woken = TRUE, !.wakeT = e.t] ELSE [l EXCEPT !.asked = TRUE]
    [] e.k = "fault" -> IF l.faulty THEN l ELSE [l EXCEPT !.faulty = TRUE, !.faultT = e.t]
    [] e.k = "lost" ->
         LET m == [l EXCEPT !.open = @ \ {e.id}]
         IN  IF e.id # l.port THEN m
             ELSE IF l.mode = "up" THEN
                  \* until the port is woken nobody may have noticed
                  IF e.t < l.openT + WakeDelay + 1 /\ ~l.asked
                  THEN [m EXCEPT !.faulty = TRUE, !.faultT = e.t, !.also = e.t]
                  ELSE Down(m, e.t, TRUE)
             ELSE IF l.mode = "start" THEN
                  \* the start fails, in the meantime it may reconnect
                  [Down(m, e.t, FALSE) EXCEPT !.faulty = TRUE]
             ELSE m
    [] e.k = "close" ->
         LET m == [l EXCEPT !.open = @ \ {e.id}]
         IN  IF l.mode = "up" /\ e.id = l.port /\ l.faulty THEN Down(m, e.t, TRUE) ELSE m
    [] e.k \in {"shutdown", "closeapi"} -> [l EXCEPT !.mode = "closed", !.since = e.t]
    [] e.k = "probe" -> [l EXCEPT !.mode = "probe", !.since = e.t]
    [] e.k = "cancel" -> [l EXCEPT !.cancelled = TRUE, !.faultT = e.t]
    [] e.k = "answer" -> [l EXCEPT !.answered = @ \/ (e.id = l.port /\ e.id \in l.open
                                                      /\ l.asked /\ l.mode = "probe")]
    [] e.k = "probeend" -> [l EXCEPT !.mode = "over", !.since = e.t]
    [] e.k = "call" ->
         [l EXCEPT !.calls = Append(@,
            [t |-> e.t, n |-> e.n, port |-> 0, askT |-> 0, acc |-> 0 - 1, sure |-> Works(l, e.t),
             due |-> Works(l, e.t) /\ \A i \in 1..Len(@) : @[i].end # "",
             rep |-> "none", repT |-> 0, end |-> ""])]
    [] e.k = "ask" -> [l EXCEPT !.calls[e.c].port = e.id, !.calls[e.c].askT = e.t,
                                !.calls[e.c].due = FALSE]
    [] e.k = "accept" -> IF l.calls[e.c].end = "" THEN [l EXCEPT !.calls[e.c].acc = e.t] ELSE l
    [] e.k = "callend" -> [l EXCEPT !.calls[e.c] = Tidy([@ EXCEPT !.end = e.r])]
    [] e.k = "reply" ->
         LET c == l.calls[e.c]
         IN  IF c.rep = "none" /\ c.port # 0 /\ c.end # "error" /\ e.t < c.t + ReplyLimit
             THEN [l EXCEPT !.calls[e.c].rep = "due", !.calls[e.c].repT = e.t] ELSE l
    [] e.k = "told" -> [l EXCEPT !.calls[e.c] = Tidy([@ EXCEPT !.rep = "told"])]
    [] e.k = "note" -> [l EXCEPT !.notes = @ \cup {e.m}, !.noteT = e.t]
    [] e.k = "noted" -> [l EXCEPT !.notes = @ \ {e.m}]
    [] OTHER -> l
=============================================================================

--------------------------------- MODULE Znp --------------------------------
(* The adapter as far as starting it is concerned: its non-volatile items,    *)
(* network state, registered endpoints and groups, and what every command     *)
(* does to them.  Values are sequences of bytes; items are named by their     *)
(* number as a string; a missing item is not in the domain of nv.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

ItemStartup == "3"
ItemExtPan == "45"
ItemKey == "98"
ItemDist == "99"
ItemPan == "131"
ItemChan == "132"
ItemLogical == "135"
ItemMark(prod) == IF prod = 0 THEN "3840" ELSE "96"   \* 0x0F00 or 0x0060

Params == {ItemExtPan, ItemKey, ItemDist, ItemPan, ItemChan}
NetItems(prod) == Params \cup {ItemStartup, ItemLogical, ItemMark(prod)}

RunningCoordinator == 9
GreenPowerEp == 242
GreenPowerGroup == 2948     \* 0x0B84

Ep(n, prof, dev, in, out) == [ep |-> n, prof |-> prof, dev |-> dev, in |-> in, out |-> out]
Endpoints ==
  << Ep(1, 260, 5, <<>>, <<>>), Ep(2, 257, 5, <<>>, <<>>), Ep(3, 262, 5, <<>>, <<>>),
     Ep(4, 263, 5, <<>>, <<>>), Ep(5, 264, 5, <<>>, <<>>), Ep(6, 265, 5, <<>>, <<>>),
     Ep(8, 260, 5, <<>>, <<>>), Ep(11, 260, 1024, <<>>, <<1280, 1282>>),
     Ep(110, 260, 5, <<>>, <<>>), Ep(12, 49246, 5, <<>>, <<>>),
     Ep(13, 260, 5, <<25>>, <<>>), Ep(47, 260, 5, <<>>, <<>>),
     Ep(242, 41440, 5, <<>>, <<>>) >>
EpNumbers == {Endpoints[i].ep : i \in 1..Len(Endpoints)}
EpOf(n) == CHOOSE d \in {Endpoints[i] : i \in 1..Len(Endpoints)} : d.ep = n

RECURSIVE Bits(_)
Bits(S) == IF S = {} THEN 0 ELSE LET c == CHOOSE c \in S : TRUE
                                 IN 2 ^ (c % 8) + Bits(S \ {c})
Mask(chans) == [i \in 1..4 |-> Bits({c \in chans : c \div 8 = i - 1})]

Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Range(s) == {s[i] : i \in 1..Len(s)}

(* What is to be stored for a configuration.  `set` names what is configured; *)
(* the extended PAN id is configured as it is written (highest byte first).   *)
Chans(o) == IF "chans" \notin o.set THEN {15, 20, 25}
            ELSE IF o.chans = {} THEN {11} ELSE o.chans
Want(o) ==
  ItemDist :> <<0>> @@ ItemChan :> Mask(Chans(o))
  @@ ItemKey :> (IF "key" \in o.set THEN o.key
                 ELSE <<1, 3, 5, 7, 9, 11, 13, 15, 0, 2, 4, 6, 8, 10, 12, 13>>)
  @@ ItemPan :> (LET p == IF "pan" \in o.set THEN o.pan ELSE 6754 IN <<p % 256, p \div 256>>)
  @@ ItemExtPan :> (IF "ext" \in o.set THEN Reverse(o.ext) ELSE [i \in 1..8 |-> 221])

(* the channel mask as the argument of a command: high and low half *)
ChannelArg(o) == LET m == Mask(Chans(o)) IN <<m[3] + 256 * m[4], m[1] + 256 * m[2]>>

Stored(a, i) == IF i \in DOMAIN a.nv THEN a.nv[i] ELSE <<>>
Holds(a, o, i) == Stored(a, i) = Want(o)[i]
Marked(a) == Stored(a, ItemMark(a.prod)) = <<85>>
PanUnset(a) == a.prod # 0 /\ Stored(a, ItemPan) = <<255, 255>>
(* the stored parameters are the configured ones (a random PAN id counts) *)
Equal(a, o) == /\ \A i \in Params \ {ItemPan, ItemExtPan} : Holds(a, o, i)
               /\ PanUnset(a) \/ Holds(a, o, ItemPan)
               /\ Holds(a, o, ItemExtPan)
Matches(a, o) == Marked(a) /\ Equal(a, o)
NetOf(a) == [i \in Params |-> Stored(a, i)]
NoNet == [i \in {} |-> <<>>]

-----------------------------------------------------------------------------
(* What a command does: the new adapter state and the status it answers with  *)
(* (-1: the answer has no status).  The arguments are those on the wire.      *)
Item(c) == ToString(c.p.id[1])
CfgItem(c) == ToString(c.p.configid[1])
Is(c, ss, name) == c.ss = ss /\ c.name = name

Splice(old, off, new) ==
  [i \in 1..Len(old) |-> IF i > off /\ i <= off + Len(new) THEN new[i - off] ELSE old[i]]
FullWrite(c) == c.p.offset[1] + Len(c.p.value)

(* Starting takes a while; the adapter reports when it is done (Formed).  The  *)
(* network it will have then is decided by what is stored at the beginning.   *)
Starting8 == 8
Starts(a, net) == [a EXCEPT !.dev = IF @ = RunningCoordinator THEN @ ELSE Starting8,
                            !.pending = <<net>>]
Form(a) == [Starts(a, NetOf(a)) EXCEPT !.formedOn = a.prim]
Formed(a) == IF a.pending = <<>> THEN a
             ELSE [a EXCEPT !.dev = RunningCoordinator, !.net = a.pending[1], !.pending = <<>>]
CanRun(a) == Stored(a, ItemLogical) = <<0>>

Done(a, st) == [a |-> a, st |-> st]

Effect(a, c) ==
  CASE Is(c, 1, "osalNvRead") -> Done(a, IF Item(c) \in DOMAIN a.nv THEN 0 ELSE 2)
    [] Is(c, 1, "osalNvWrite") ->
         IF Item(c) \notin DOMAIN a.nv THEN Done(a, 2)
         ELSE IF FullWrite(c) > Len(a.nv[Item(c)]) THEN Done(a, 10)
         ELSE Done([a EXCEPT !.nv[Item(c)] = Splice(@, c.p.offset[1], c.p.value)], 0)
    [] Is(c, 1, "osalNvItemInit") ->
         IF Item(c) \in DOMAIN a.nv THEN Done(a, 0)
         ELSE Done([a EXCEPT !.nv = @ @@ (Item(c) :> c.p.initvalue)], 9)
    [] Is(c, 6, "readConfiguration") -> Done(a, IF CfgItem(c) \in DOMAIN a.nv THEN 0 ELSE 2)
    [] Is(c, 6, "writeConfiguration") ->
         IF CfgItem(c) \notin DOMAIN a.nv THEN Done(a, 2)
         ELSE IF Len(c.p.value) # Len(a.nv[CfgItem(c)]) THEN Done(a, 10)
         ELSE Done([a EXCEPT !.nv[CfgItem(c)] = c.p.value], 0)
    [] Is(c, 1, "resetReq") ->
         LET clear == Stored(a, ItemStartup) = <<2>>
             b == [a EXCEPT !.dev = 0, !.eps = {}, !.prim = <<>>, !.pending = <<>>]
         IN  Done(IF clear THEN [b EXCEPT !.net = NoNet, !.groups = {}, !.nv[ItemStartup] = <<0>>]
                  ELSE b, -1)
    [] Is(c, 15, "bdbSetChannel") ->
         Done(IF c.p.isPrimary = <<1>> THEN [a EXCEPT !.prim = c.p.channel] ELSE a, 0)
    [] Is(c, 15, "bdbStartCommissioning") ->
         \* an adapter which still has a network goes on with that one
         IF c.p.mode = <<4>> /\ CanRun(a)
         THEN Done(IF a.net = NoNet THEN Form(a) ELSE Starts(a, a.net), 0)
         ELSE Done(a, 0)
    [] Is(c, 5, "startupFromApp") ->
         IF ~CanRun(a) THEN Done(a, 2)
         ELSE IF a.net = NoNet THEN Done(Form(a), 1)
         ELSE Done(Starts(a, a.net), 0)
    [] Is(c, 4, "register") ->
         IF c.p.endpoint[1] \in a.eps THEN Done(a, 184)
         ELSE Done([a EXCEPT !.eps = @ \cup {c.p.endpoint[1]}], 0)
    [] Is(c, 5, "extFindGroup") ->
         Done(a, IF <<c.p.endpoint[1], c.p.groupid[1]>> \in a.groups THEN 0 ELSE 1)
    [] Is(c, 5, "extAddGroup") ->
         Done([a EXCEPT !.groups = @ \cup {<<c.p.endpoint[1], c.p.groupid[1]>>}], 0)
    [] Is(c, 7, "getDeviceInfo") -> Done(a, 0)
    [] Is(c, 5, "activeEpReq") -> Done(a, 0)
    [] Is(c, 7, "ledControl") -> Done(a, 0)
    [] OTHER -> Done(a, -1)

(* the adapter or its supply is switched off and on *)
PowerCycle(a) == [a EXCEPT !.dev = 0, !.eps = {}, !.prim = <<>>, !.pending = <<>>]

(* the reset makes the stack report a reset, these make it report state 9 *)
Reports(a, c) == (Is(c, 15, "bdbStartCommissioning") /\ c.p.mode = <<4>> /\ CanRun(a))
                 \/ (Is(c, 5, "startupFromApp") /\ CanRun(a))
=============================================================================

----------------------------- MODULE StartupProg ----------------------------
(* The start of the adapter as a program: the host side of Startup, one       *)
(* command after the other.  Model checking shows that this program, against  *)
(* every adapter, every fault and every crash, satisfies the contract; the    *)
(* same module generates the situations the real driver is put into.          *)
EXTENDS Startup

Cmd(ss, name, p) == [k |-> "cmd", ss |-> ss, name |-> name, p |-> p]
NvRead(i) == Cmd(1, "osalNvRead", [id |-> <<i>>, offset |-> <<0>>])
NvWrite(i, v) == Cmd(1, "osalNvWrite", [id |-> <<i>>, offset |-> <<0>>, len |-> <<Len(v)>>, value |-> v])
MarkId(prod) == IF prod = 0 THEN 3840 ELSE 96
Reset == Cmd(1, "resetReq", [type |-> <<1>>])
TrustKey == [i \in 1..8 |-> 255] \o <<90, 105, 103, 66, 101, 101, 65, 108, 108, 105, 97, 110, 99,
                                      101, 48, 57>> \o [i \in 1..8 |-> 0]

InitCmds(prod, o) ==
  LET w == Want(o) IN
  << Reset, NvWrite(3, <<2>>), Reset, NvWrite(135, <<0>>), NvWrite(99, w[ItemDist]),
     NvWrite(143, <<1>>), NvWrite(132, w[ItemChan]), NvWrite(131, w[ItemPan]),
     NvWrite(45, w[ItemExtPan]) >>
  \o (IF prod # 0
      THEN << NvWrite(98, w[ItemKey]),
              Cmd(15, "bdbSetChannel", [isPrimary |-> <<1>>, channel |-> ChannelArg(o)]),
              Cmd(15, "bdbSetChannel", [isPrimary |-> <<0>>, channel |-> <<0, 0>>]),
              Cmd(15, "bdbStartCommissioning", [mode |-> <<4>>]),
              Cmd(15, "bdbStartCommissioning", [mode |-> <<2>>]) >>
      ELSE << Cmd(6, "writeConfiguration", [configid |-> <<98>>, len |-> <<16>>, value |-> w[ItemKey]]),
              NvWrite(257, TrustKey) >>)
  \o << Cmd(1, "osalNvItemInit", [id |-> <<MarkId(prod)>>, len |-> <<1>>, initlen |-> <<1>>,
                                  initvalue |-> <<0>>]),
        NvWrite(MarkId(prod), <<85>>) >>

(* pc: where the program is; hc: was the marker found at first *)
(* w: it waits for the report that the network is started                     *)
Begins == [at |-> "ping", n |-> 0, hc |-> FALSE, w |-> FALSE]
At(x) == [at |-> x, n |-> 1, hc |-> FALSE, w |-> FALSE]

Register(i) ==
  LET d == Endpoints[i] IN
  Cmd(4, "register", [endpoint |-> <<d.ep>>, appprofid |-> <<d.prof>>, appdeviceid |-> <<d.dev>>,
        appdevver |-> <<0>>, latencyreq |-> <<0>>, appnuminclusters |-> <<Len(d.in)>>,
        appinclusterlist |-> d.in, appnumoutclusters |-> <<Len(d.out)>>, appoutclusterlist |-> d.out])
Group == [endpoint |-> <<GreenPowerEp>>, groupid |-> <<GreenPowerGroup>>]

(* the command at a place of the program *)
CommandAt(h, pc) ==
  LET a == h.ad o == h.opt IN
  CASE pc.at = "ping" -> Cmd(1, "ping", [none |-> <<>>])
    [] pc.at = "version" -> Cmd(1, "version", [none |-> <<>>])
    [] pc.at \in {"hc1", "hc2"} -> NvRead(MarkId(a.prod))
    [] pc.at = "chan" -> NvRead(132)
    [] pc.at = "dist" -> NvRead(99)
    [] pc.at = "key" -> IF a.prod = 1 THEN NvRead(98)
                        ELSE Cmd(6, "readConfiguration", [configid |-> <<98>>])
    [] pc.at \in {"pan", "pan2"} -> NvRead(131)
    [] pc.at = "ext" -> NvRead(45)
    [] pc.at = "init" -> InitCmds(a.prod, o)[pc.n]
    [] pc.at \in {"info", "info2"} -> Cmd(7, "getDeviceInfo", [none |-> <<>>])
    [] pc.at = "startup" -> Cmd(5, "startupFromApp", [startdelay |-> <<100>>])
    [] pc.at = "eps" -> Cmd(5, "activeEpReq", [dstaddr |-> <<0>>, nwkaddrofinterest |-> <<0>>])
    [] pc.at = "reg" -> Register(pc.n)
    [] pc.at = "find" -> Cmd(5, "extFindGroup", Group)
    [] pc.at = "add" -> Cmd(5, "extAddGroup", Group @@ [namelen |-> <<0>>, groupname |-> <<>>])
    [] pc.at = "again" -> NvWrite(132, Want(o)[ItemChan])
    [] pc.at = "led" -> Cmd(7, "ledControl", [ledid |-> <<3>>, mode |-> <<0>>])

RECURSIVE NextEp(_, _)
NextEp(a, n) == IF n > Len(Endpoints) THEN 0
                ELSE IF Endpoints[n].ep \in a.eps THEN NextEp(a, n + 1) ELSE n

Go(pc, x) == [pc EXCEPT !.at = x, !.n = 1]
AfterGroup(h, pc) == IF pc.n = 2 THEN Go(pc, "again") ELSE IF h.ad.prod = 1 THEN Go(pc, "info2")
                     ELSE Go(pc, "led")

(* the place after a command that was answered with st by the adapter a *)
Forward(h, pc, st) ==
  LET a == h.ad o == h.opt
      \* the program remembers in n, after "init", whether the channels are written again
      mark == st = 0 /\ Marked(a)
      Eq(i) == st = 0 /\ Holds(a, o, i)
      reg == NextEp(a, 1)
  IN
  CASE pc.at = "ping" -> Go(pc, "version")
    [] pc.at = "version" -> IF h.form THEN Go(pc, "hc1") ELSE Go(pc, "info2")
    [] pc.at = "hc1" -> [Go(pc, "hc2") EXCEPT !.hc = mark]
    [] pc.at = "hc2" -> Go(pc, IF mark THEN "chan" ELSE "init")
    [] pc.at = "chan" -> Go(pc, IF Eq(ItemChan) THEN "dist" ELSE "init")
    [] pc.at = "dist" -> Go(pc, IF Eq(ItemDist) THEN "key" ELSE "init")
    [] pc.at = "key" -> Go(pc, IF Eq(ItemKey) THEN "pan" ELSE "init")
    [] pc.at = "pan" -> Go(pc, IF Eq(ItemPan) THEN "ext" ELSE IF a.prod = 0 THEN "info" ELSE "pan2")
    [] pc.at = "ext" -> Go(pc, IF Eq(ItemExtPan) \/ a.prod = 0 THEN "info" ELSE "pan2")
    [] pc.at = "pan2" -> Go(pc, IF PanUnset(a) THEN "info" ELSE "init")
    [] pc.at = "init" -> IF pc.n < Len(InitCmds(a.prod, o)) THEN [pc EXCEPT !.n = @ + 1]
                         ELSE [pc EXCEPT !.at = "info",
                                         !.n = IF a.prod = 0 /\ ~pc.hc THEN 2 ELSE 1]
    [] pc.at = "info" -> [pc EXCEPT !.at = IF a.dev = RunningCoordinator THEN "eps" ELSE "startup"]
    [] pc.at = "startup" -> [pc EXCEPT !.at = "eps"]
    [] pc.at \in {"eps", "reg"} ->
         \* whether the channels are written again moves to hc
         LET hc2 == IF pc.at = "eps" THEN pc.n = 2 ELSE pc.hc
         IN IF reg = 0 THEN [at |-> "find", n |-> IF hc2 THEN 2 ELSE 1, hc |-> FALSE, w |-> FALSE]
            ELSE [at |-> "reg", n |-> reg, hc |-> hc2, w |-> FALSE]
    [] pc.at = "find" -> IF st = 1 THEN [pc EXCEPT !.at = "add"] ELSE AfterGroup(h, pc)
    [] pc.at = "add" -> AfterGroup(h, pc)
    [] pc.at = "again" -> IF a.prod = 1 THEN Go(pc, "info2") ELSE Go(pc, "led")
    [] pc.at = "led" -> Go(pc, "info2")
    [] pc.at = "info2" -> Go(pc, "done")

(* does the program stop with an error? *)
Stops(h, pc, e) == Fails(h.ad, e) \/ (pc.at = "hc2" /\ MayFail(h.ad, e))

Ended(h, r) == [k |-> "end", r |-> r, ieee |-> h.ad.ieee, nwk |-> h.ad.nwk, coord |-> TRUE]
=============================================================================

------------------------------ MODULE StartupMC -----------------------------
EXTENDS StartupProg

CONSTANTS Prods, EpCases, MaxFaults, Forms

Opt == [set |-> {"chans", "pan"}, chans |-> {11, 26}, pan |-> 17185]
W == Want(Opt)
Other(i) == CASE i = ItemChan -> <<0, 128, 0, 0>> [] i = ItemDist -> <<1>>
              [] i = ItemKey -> [n \in 1..16 |-> n] [] i = ItemPan -> <<1, 2>>
              [] i = ItemExtPan -> [n \in 1..8 |-> n]

EpSet(c) == CASE c = "none" -> {} [] c = "all" -> EpNumbers \cup {200}
              [] c = "others" -> 20..36
              [] c = "most" -> EpNumbers \ {1, 242}

Base == "3" :> <<0>> @@ "143" :> <<0>> @@ "257" :> [i \in 1..32 |-> 0]

Adapters ==
  { [prod |-> p, ieee |-> <<1, 2, 3, 4, 5, 6, 7, 8>>, nwk |-> 0,
     nv |-> Base @@ ("135" :> IF m # "yes" /\ dev = 0 THEN <<1>> ELSE <<0>>)
            @@ [i \in dif |-> Other(i)]
            @@ (IF unset THEN ItemPan :> <<255, 255>> ELSE [i \in {} |-> <<>>])
            @@ [i \in Params |-> W[i]]
            @@ (IF m = "missing" THEN [i \in {} |-> <<>>]
                ELSE ItemMark(p) :> (IF m = "yes" THEN <<85>> ELSE <<0>>)),
     dev |-> dev, eps |-> EpSet(ec), groups |-> IF g THEN {<<242, 2948>>} ELSE {},
     net |-> NoNet, prim |-> <<>>, formedOn |-> <<>>, pending |-> <<>>]
    : p \in Prods, m \in {"missing", "no", "yes"}, dif \in SUBSET Params,
      unset \in BOOLEAN, dev \in {0, 9}, ec \in EpCases, g \in BOOLEAN }

WithNet(a) == IF a.dev = 9 \/ Marked(a) THEN [a EXCEPT !.net = NetOf(a)] ELSE a

VARIABLES mcHost, mcPc, mcFaults, mcBad
mcVars == <<mcHost, mcPc, mcFaults, mcBad>>

Idle == At("idle")

Init == /\ mcHost \in {Begin(WithNet(a), Opt) : a \in Adapters}
        /\ mcPc = Idle /\ mcFaults = MaxFaults /\ mcBad = {}

Take(e, pc) == /\ mcBad' = mcBad \cup Broken(mcHost, e)
               /\ mcHost' = LET h == After(mcHost, e)
                            IN [h EXCEPT !.nth = 0]
               /\ mcPc' = pc

(* one faulty start at most per fault, then two undisturbed ones *)
Starting == /\ mcPc.at = "idle"
            /\ \E f \in Forms : Take([k |-> "start", form |-> f], Begins)
            /\ UNCHANGED mcFaults

Run(c, x, st) == c @@ [x |-> x, st |-> st]
NotAccepted == 4

Command ==
  /\ mcPc.at \notin {"idle", "done", "fail", "rest", "over"}
  /\ ~mcPc.w
  /\ LET c == CommandAt(mcHost, mcPc)
         good == Effect(mcHost.ad, c).st
         fates == {<<"ok", good>>} \cup
                  (IF mcFaults = 0 THEN {} ELSE
                   {<<"silent", -1>>, <<"lost", -1>>}
                   \cup (IF good # -1 THEN {<<"reject", NotAccepted>>} ELSE {})
                   \cup (IF Reports(mcHost.ad, c) \/ Is(c, 5, "activeEpReq")
                         THEN {<<"noreport", good>>} ELSE {}))
     IN \E f \in fates :
          LET e == Run(c, f[1], f[2])
              h2 == After(mcHost, e)
          IN /\ Take(e, IF Stops(mcHost, mcPc, e) THEN At("fail")
                        ELSE [Forward(h2, mcPc, IF Led(e) THEN 0 ELSE f[2])
                              EXCEPT !.w = Reports(mcHost.ad, c)])
             /\ mcFaults' = IF f[1] = "ok" THEN mcFaults ELSE mcFaults - 1

(* the adapter is up; whoever waits for it goes on *)
Up == /\ mcHost.ad.pending # <<>> /\ mcPc.at # "over"
      /\ Take([k |-> "formed"], [mcPc EXCEPT !.w = FALSE]) /\ UNCHANGED mcFaults

Finish == /\ mcPc.at \in {"done", "fail"}
          /\ Take(Ended(mcHost, IF mcPc.at = "done" THEN "ok" ELSE "error"),
                  IF mcPc.at = "fail" THEN Idle ELSE At("rest"))
          /\ UNCHANGED mcFaults

Crash == /\ mcPc.at \notin {"idle", "done", "fail", "rest", "over"} /\ mcFaults > 0
         /\ Take([k |-> "crash"], Idle) /\ mcFaults' = mcFaults - 1

Power == /\ mcPc.at = "idle" /\ Take([k |-> "power"], mcPc) /\ UNCHANGED mcFaults
         /\ mcHost.ad # PowerCycle(mcHost.ad)

(* started again after a good start (with or without the supply off between) *)
Again == /\ mcPc.at = "rest" /\ ~mcHost.matched
         /\ Take([k |-> "again"], Idle)
         /\ UNCHANGED mcFaults

Next == Starting \/ Up \/ Command \/ Finish \/ Crash \/ Power \/ Again
Spec == Init /\ [][Next]_mcVars /\ WF_mcVars(Next)

Known == {"zstack12-pan-id-ignored", "unset-pan-ext-id-ignored"}
Sound == mcBad \subseteq Known

(* every start ends *)
Terminates == []<>(mcPc.at \in {"idle", "rest"})
(* a good start with formation leaves a network the next start resumes *)
Stable == (mcPc.at = "rest" /\ mcHost.form /\ mcBad = {}) => Matches(mcHost.ad, Opt)
(* the marker is never on a network which was not written completely, unless  *)
(* it was there before                                                        *)
=============================================================================

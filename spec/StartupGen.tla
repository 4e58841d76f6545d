------------------------------ MODULE StartupGen ----------------------------
(* Situations for the real driver: an adapter, and a fault at one step of a   *)
(* start (which step exists depends on the adapter and on the program).       *)
EXTENDS StartupMC, Json

Patterns == {{}, Params} \cup {{p} : p \in Params}
Interesting(a) ==
  LET dif == {i \in Params : a.nv[i] # W[i]} IN
  /\ dif \in Patterns \cup {{ItemPan, ItemExtPan}, {ItemPan, ItemKey}}
  /\ <<a.eps, a.groups>> \in {<<EpSet("most"), {}>>, <<EpSet("all"), {<<242, 2948>>}>>,
                              <<{}, {<<242, 2948>>}>>, <<EpSet("others"), {}>>}

VARIABLE genStep
genVars == <<mcVars, genStep>>
VARIABLE genAd

GInit == Init /\ Interesting(mcHost.ad) /\ genStep = 0 /\ genAd = mcHost.ad

Out(x) == PrintT(<<"SCHED", ToJson([prod |-> genAd.prod, nv |-> genAd.nv, dev |-> genAd.dev,
                    eps |-> genAd.eps, groups |-> genAd.groups, hasnet |-> genAd.net # NoNet,
                    step |-> genStep, x |-> x])>>)
Emit == /\ (mcPc.at \notin {"idle", "done", "fail", "rest", "over"} /\ ~mcPc.w =>
            LET c == CommandAt(mcHost, mcPc)
                good == Effect(mcHost.ad, c).st
            IN /\ Out("silent") /\ Out("lost") /\ Out("crash")
               /\ (good # -1 => Out("reject"))
               /\ (Reports(mcHost.ad, c) \/ Is(c, 5, "activeEpReq") => Out("noreport")))
        /\ (mcPc.at = "rest" => Out("none"))

GNext == /\ mcPc.at # "rest" /\ Emit
         /\ \/ Starting \/ Finish
            \/ Command /\ mcFaults' = mcFaults
            \/ Up
         /\ genStep' = IF mcPc.at \in {"idle", "done", "fail"} \/ mcPc.w THEN genStep ELSE genStep + 1
         /\ genAd' = genAd
GRest == mcPc.at = "rest" /\ Emit /\ mcPc' = At("over") /\ UNCHANGED <<mcHost, mcFaults, mcBad, genStep, genAd>>
GSpec == GInit /\ [][GNext \/ GRest]_<<genVars, genAd>>
=============================================================================

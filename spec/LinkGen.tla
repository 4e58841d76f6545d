-------------------------------- MODULE LinkGen -----------------------------
(* Troubles for the real driver: what happens when, from LinkMC.              *)
EXTENDS LinkMC, Json

VARIABLE genHist
genVars == <<lkVars, genHist>>

Mark(what) == genHist' = Append(genHist, [x |-> what, t |-> lkNow, ph |-> lkPh,
                                          n |-> lkPort + (IF lkPh = "opening" THEN 1 ELSE 0),
                                          left |-> lkCmd, faulty |-> lkHost.faulty])
GTrouble == /\ lkNow <= Horizon - 25000
            /\ \/ OpenFails /\ Mark("openfail")
               \/ NoAnswer /\ Mark("silent")
               \/ Rejected /\ Mark("reject")
               \/ Lost /\ Mark("lost")
               \/ Shutdown /\ Mark("shutdown")
            /\ PrintT(<<"SCHED", ToJson(genHist')>>)
GSpec == /\ Init /\ genHist = <<>>
         /\ [][ (Progress /\ genHist' = genHist) \/ GTrouble ]_genVars
=============================================================================

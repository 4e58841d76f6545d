------------------------------- MODULE CodecMC ------------------------------
(* For every command of the table and every assignment of boundary values to  *)
(* its fields: encoding and decoding are inverse, every truncation is refused,*)
(* surplus bytes change nothing.  One state per (command, direction, choice). *)
EXTENDS Codec, TLC
CONSTANTS MaxList

Vals(t, prev) == \* boundary values of a field; prev is the length for variable ones
  CASE t = "UINT8" -> {<<0>>, <<1>>, <<2>>, <<255>>}
    [] t = "ADDRMODE" -> {<<0>>, <<15>>}
    [] t = "INT8" -> {<<-128>>, <<-1>>, <<127>>}
    [] t = "UINT16" -> {<<0>>, <<1>>, <<258>>, <<65535>>}
    [] t = "UINT32" -> {<<0, 1>>, <<258, 772>>, <<65535, 65535>>}
    [] t = "IEEEADDR" -> {<<1, 2, 3, 4, 5, 6, 7, 8>>}
    [] FixedBuf(t) > 0 -> {[i \in 1..FixedBuf(t) |-> (i * 7) % 256]}
    [] t \in {"BUFFER", "LIST_UINT8"} -> {[i \in 1..prev |-> (i * 13) % 256]}
    [] t = "LIST_UINT16" -> {[i \in 1..prev |-> 256 * i + i + 1]}
    [] t = "LIST_NEIGHBOR_LQI" ->
         {Flat([i \in 1..prev |-> <<1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,
                                     4660 + i, 1, 2, 5, 1, i, 255>>])}
    [] OTHER -> {}

VARIABLES cmd, side, fld, choice, plen
vars == <<cmd, side, fld, choice, plen>>
Ps == IF side = "req" THEN ByKey[cmd].req ELSE ByKey[cmd].rsp
IsVar(t) == t \in {"BUFFER", "LIST_UINT8", "LIST_UINT16", "LIST_NEIGHBOR_LQI"}

Init == cmd \in Keys /\ side \in {"req", "rsp"} /\ fld = 1 /\ choice = <<>> /\ plen = -1
Next == /\ fld <= Len(Ps)
        /\ (IsVar(Ps[fld][2]) => plen \in 0..MaxList)
        /\ \E v \in Vals(Ps[fld][2], plen) :
             /\ (fld < Len(Ps) /\ IsVar(Ps[fld + 1][2])) => AsLength(Ps[fld][2], v) <= MaxList
             /\ (Len(Ps) > 6 /\ fld > 3 => v \in {<<2>>, <<258>>, <<0, 1>>} \/ Len(v) > 2 \/ v = <<>>
                    \/ Ps[fld][2] \in {"ADDRMODE", "INT8"} \/ IsVar(Ps[fld][2]))
             /\ choice' = Append(choice, v)
             /\ plen' = AsLength(Ps[fld][2], v)
        /\ fld' = fld + 1
        /\ UNCHANGED <<cmd, side>>
Spec == Init /\ [][Next]_vars

Done == fld = Len(Ps) + 1
Bytes == Enc(Ps, AsRecord(Ps, choice))
RoundTrip == Done => LET r == Dec(Ps, Flat([k \in 1..Len(Ps) |->
                               IF Ps[k][2] = "INT8" THEN <<(choice[k][1] + 256) % 256>>
                               ELSE EncVal(Ps[k][2], choice[k])]))
                     IN  r.ok /\ r.vals = choice
IsBytes == Done => \A k \in 1..Len(Bytes) : Bytes[k] \in -128..255
NoTruncation == Done /\ Len(Bytes) > 0 =>
     ~ Dec(Ps, SubSeq(Bytes, 1, Len(Bytes) - 1)).ok
Surplus == Done => (CanWrite(Ps) => Dec(Ps, Bytes \o <<7, 7>>).vals = choice)
=============================================================================

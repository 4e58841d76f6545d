-------------------------------- MODULE Codec -------------------------------
(* Field encoding of MT messages.                                             *)
(*                                                                            *)
(* Every field value is a sequence of integers so that values of different    *)
(* types stay comparable (and below 2^31, TLC's integer range):               *)
(*   UINT8, UINT16, INT8, ADDRMODE  <<n>>        UINT32  <<high16, low16>>    *)
(*   IEEEADDR <<8 bytes>>   BUFFER* and LIST_UINT8 <<bytes>>                  *)
(*   LIST_UINT16 <<words>>  LIST_NEIGHBOR_LQI 23 integers per entry           *)
EXTENDS Integers, Sequences, SequencesExt, TLC, MtCmds

Key(ss, id) == ss * 256 + id
Keys == TLCEval({Key(Cmds[i].ss, Cmds[i].id) : i \in DOMAIN Cmds})
ByKey == TLCEval([k \in Keys |-> Cmds[CHOOSE i \in DOMAIN Cmds :
                     Key(Cmds[i].ss, Cmds[i].id) = k]])
Known(ss, id) == Key(ss, id) \in Keys
Named(ss, name) == Cmds[CHOOSE i \in DOMAIN Cmds : Cmds[i].ss = ss /\ Cmds[i].name = name]

LE2(n) == <<n % 256, n \div 256>>
FixedBuf(t) == CASE t = "BUFFER8" -> 8 [] t = "BUFFER16" -> 16 [] t = "BUFFER18" -> 18
                 [] t = "BUFFER32" -> 32 [] t = "BUFFER42" -> 42 [] t = "BUFFER100" -> 100
                 [] OTHER -> 0
IntTypes == {"UINT8", "UINT16", "UINT32", "INT8", "ADDRMODE"}
Unreadable == {"LIST_ASSOC_DEV", "LIST_NETWORK", "LIST_ROUTING_TABLE", "LIST_BIND_TABLE"}
Writable == {"UINT8", "ADDRMODE", "UINT16", "UINT32", "IEEEADDR", "BUFFER",
             "LIST_UINT8", "LIST_UINT16", "LIST_NEIGHBOR_LQI"}

-----------------------------------------------------------------------------
(* Encoding *)
Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)

EncNeighbor(v) == \* v: extPanId 8, extAddr 8, nwk, type, rxOn, relation, permit, depth, lqi
  SubSeq(v, 1, 16) \o LE2(v[17]) \o <<v[18] + 4 * v[19] + 16 * v[20], v[21], v[22], v[23]>>

EncVal(t, v) ==
  CASE t \in {"UINT8", "ADDRMODE"} -> <<v[1]>>
    [] t = "UINT16" -> LE2(v[1])
    [] t = "UINT32" -> LE2(v[2]) \o LE2(v[1])
    [] t = "LIST_UINT16" -> Flat([i \in 1..Len(v) |-> LE2(v[i])])
    [] t = "LIST_NEIGHBOR_LQI" ->
         Flat([i \in 1..(Len(v) \div 23) |-> EncNeighbor(SubSeq(v, 23 * (i - 1) + 1, 23 * i))])
    [] OTHER -> v

CanWrite(ps) == \A i \in DOMAIN ps : ps[i][2] \in Writable
(* p: record (function from field name to value) *)
Enc(ps, p) == Flat([i \in 1..Len(ps) |-> EncVal(ps[i][2], p[ps[i][1]])])

-----------------------------------------------------------------------------
(* Decoding.  prev: value of the field before, if it is an integer, else -1.  *)
Big == 1000000

Need(t, prev) == \* number of bytes this field takes, -1: cannot be decoded
  CASE t \in {"UINT8", "INT8", "ADDRMODE"} -> 1
    [] t = "UINT16" -> 2
    [] t = "UINT32" -> 4
    [] t = "IEEEADDR" -> 8
    [] FixedBuf(t) > 0 -> FixedBuf(t)
    [] t \in {"BUFFER", "LIST_UINT8"} -> prev
    [] t = "LIST_UINT16" -> IF prev < 0 THEN -1 ELSE 2 * prev
    [] t = "LIST_NEIGHBOR_LQI" -> IF prev < 0 THEN -1 ELSE 22 * prev
    [] OTHER -> -1

DecNeighbor(b) == \* b: 22 bytes
  SubSeq(b, 1, 16) \o
  <<b[17] + 256 * b[18], b[19] % 4, (b[19] \div 4) % 4, (b[19] \div 16) % 8,
    b[20] % 4, b[21], b[22]>>

DecVal(t, b) == \* b: exactly the bytes of this field
  CASE t \in {"UINT8", "ADDRMODE"} -> <<b[1]>>
    [] t = "INT8" -> <<IF b[1] > 127 THEN b[1] - 256 ELSE b[1]>>
    [] t = "UINT16" -> <<b[1] + 256 * b[2]>>
    [] t = "UINT32" -> <<b[3] + 256 * b[4], b[1] + 256 * b[2]>>
    [] t = "LIST_UINT16" ->
         [i \in 1..(Len(b) \div 2) |-> b[2 * i - 1] + 256 * b[2 * i]]
    [] t = "LIST_NEIGHBOR_LQI" ->
         Flat([i \in 1..(Len(b) \div 22) |-> DecNeighbor(SubSeq(b, 22 * (i - 1) + 1, 22 * i))])
    [] OTHER -> b

AsLength(t, v) == IF t \notin IntTypes THEN -1
                  ELSE IF t = "UINT32" THEN (IF v[1] = 0 THEN v[2] ELSE Big)
                  ELSE v[1]

(* [ok |-> could be decoded, vals |-> <<value of each field>>] *)
RECURSIVE DecFrom(_, _, _, _, _, _)
DecFrom(ps, i, d, pos, prev, acc) ==
  IF i > Len(ps) THEN [ok |-> TRUE, vals |-> acc]
  ELSE LET t == ps[i][2]
           n == Need(t, prev)
       IN  IF n < 0 \/ pos + n - 1 > Len(d) THEN [ok |-> FALSE, vals |-> <<>>]
           ELSE LET v == DecVal(t, SubSeq(d, pos, pos + n - 1))
                IN  DecFrom(ps, i + 1, d, pos + n, AsLength(t, v), Append(acc, v))

Dec(ps, d) == DecFrom(ps, 1, d, 1, -1, <<>>)

Names(ps) == {ps[i][1] : i \in DOMAIN ps}
AsRecord(ps, vals) == [n \in Names(ps) |-> vals[CHOOSE i \in DOMAIN ps : ps[i][1] = n]]

-----------------------------------------------------------------------------
(* A whole received frame: the message the driver must deliver, if any.       *)
SRSP == 3  AREQ == 2  SREQ == 1
HasParams(c, ty) == IF ty = SRSP THEN c.ty = SREQ \/ c.rsp # <<>> ELSE TRUE
ParamsOf(c, ty) == IF ty = SRSP THEN c.rsp ELSE c.req

Decodable(f) ==
  /\ f.ty \in 0..3
  /\ Known(f.ss, f.id)
  /\ HasParams(ByKey[Key(f.ss, f.id)], f.ty)
  /\ Dec(ParamsOf(ByKey[Key(f.ss, f.id)], f.ty), f.data).ok

Message(f) ==
  LET c == ByKey[Key(f.ss, f.id)]
      ps == ParamsOf(c, f.ty)
  IN  [ty |-> f.ty, ss |-> f.ss, id |-> f.id, name |-> c.name,
       p |-> AsRecord(ps, Dec(ps, f.data).vals)]
=============================================================================

-------------------------------- MODULE Unpi --------------------------------
(* Framing of the serial link between host and ZNP adapter.                   *)
(*                                                                            *)
(*   SOF=0xFE | LEN | CMD0 = type<<5 + subsystem | CMD1 = id | DATA | FCS     *)
(*   FCS = xor of all bytes from LEN to the last data byte                    *)
(*                                                                            *)
(* Scan is the declarative meaning of a byte stream; ByteStep is the machine  *)
(* which sees one byte at a time.  UnpiMC.tla checks that they agree for      *)
(* every stream and every chunking within its bounds.                         *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise

SOF == 254

XorAll(s) == FoldLeft(LAMBDA a, b : a ^^ b, 0, s)

(* a frame as it is on the wire *)
WireFrame(ty, ss, id, data) ==
  LET body == <<Len(data), ty * 32 + ss, id>> \o data
  IN  <<SOF>> \o body \o <<XorAll(body)>>

(* whole: the bytes of one frame, complete by its length field *)
FcsGood(whole) ==
  XorAll(SubSeq(whole, 2, Len(whole) - 1)) = whole[Len(whole)]

Parts(whole) ==
  [ty |-> whole[3] \div 32, ss |-> whole[3] % 32, id |-> whole[4],
   data |-> SubSeq(whole, 5, Len(whole) - 1)]

(* [frames |-> well formed frames in order, rest |-> what a frame in progress *)
(*  has so far, bad |-> number of complete frames with a wrong checksum]      *)
RECURSIVE ScanFrom(_, _, _, _)
ScanFrom(b, p, acc, bad) ==
  IF p > Len(b) THEN [frames |-> acc, rest |-> <<>>, bad |-> bad]
  ELSE IF b[p] # SOF THEN ScanFrom(b, p + 1, acc, bad)
  ELSE IF p + 1 > Len(b) \/ p + 4 + b[p + 1] > Len(b)
       THEN [frames |-> acc, rest |-> SubSeq(b, p, Len(b)), bad |-> bad]
  ELSE LET q == p + 4 + b[p + 1]
           w == SubSeq(b, p, q)
       IN  IF FcsGood(w) THEN ScanFrom(b, q + 1, Append(acc, Parts(w)), bad)
           ELSE ScanFrom(b, q + 1, acc, bad + 1)

Scan(b) == ScanFrom(b, 1, <<>>, 0)

(* The incremental machine: [buf |-> bytes of the frame in progress,          *)
(*                           out |-> <<>> or <<frame completed by this byte>>] *)
ByteStep(buf, byte) ==
  LET nb == Append(buf, byte) IN
  IF nb[1] # SOF THEN [buf |-> <<>>, out |-> <<>>]
  ELSE IF Len(nb) < 5 \/ Len(nb) < nb[2] + 5 THEN [buf |-> nb, out |-> <<>>]
  ELSE [buf |-> <<>>, out |-> IF FcsGood(nb) THEN <<Parts(nb)>> ELSE <<>>]

(* a whole read by that machine: [rest, frames]                               *)
Read(rest, bytes) ==
  FoldLeft(LAMBDA a, byte : LET s == ByteStep(a.rest, byte)
                            IN [rest |-> s.buf, frames |-> a.frames \o s.out],
           [rest |-> rest, frames |-> <<>>], bytes)
=============================================================================

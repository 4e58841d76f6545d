------------------------------- MODULE UnpiMC -------------------------------
(* Exhaustive: every stream over Alphabet up to MaxLen bytes, delivered one   *)
(* byte at a time, with reads (chunks) ending anywhere.                       *)
EXTENDS Unpi, TLC
CONSTANTS Alphabet, MaxLen

VARIABLES hist, buf, got, prompt
vars == <<hist, buf, got, prompt>>

Init == hist = <<>> /\ buf = <<>> /\ got = <<>> /\ prompt = <<>>

Byte(b) ==
  /\ Len(hist) < MaxLen
  /\ LET r == ByteStep(buf, b) IN
       /\ buf' = r.buf
       /\ got' = got \o r.out
       /\ prompt' = IF r.out = <<>> THEN prompt ELSE Append(prompt, Len(hist) + 1)
  /\ hist' = Append(hist, b)

Next == \E b \in Alphabet : Byte(b)
Spec == Init /\ [][Next]_vars

(* the machine finds exactly the frames of the stream, whatever came before *)
SameFrames == got = Scan(hist).frames
SameRest == buf = Scan(hist).rest
(* a frame is out with its last byte: nothing complete is ever held back *)
Prompt == \A i \in 1..Len(prompt) :
            /\ Len(Scan(SubSeq(hist, 1, prompt[i])).frames) = i
            /\ Len(Scan(SubSeq(hist, 1, prompt[i] - 1)).frames) = i - 1
(* only frames with a good checksum; content is a contiguous part of the stream *)
OnlyGood == \A i \in 1..Len(got) :
   \E p \in 1..Len(hist) : LET w == WireFrame(got[i].ty, got[i].ss, got[i].id, got[i].data)
                           IN p + Len(w) - 1 <= Len(hist) /\ SubSeq(hist, p, p + Len(w) - 1) = w
(* chunking does not matter: a read boundary anywhere gives the same frames *)
ChunkFree == \A k \in 0..Len(hist) :
   LET a == Scan(SubSeq(hist, 1, k))
       c == Scan(a.rest \o SubSeq(hist, k + 1, Len(hist)))
   IN  a.frames \o c.frames = got /\ c.rest = buf
(* ... also for the way WireTrace.tla reads *)
ReadFree == \A k \in 0..Len(hist) :
   LET a == Read(<<>>, SubSeq(hist, 1, k))
       c == Read(a.rest, SubSeq(hist, k + 1, Len(hist)))
   IN  a.frames \o c.frames = got /\ c.rest = buf
(* reachability: frames without payload, after noise and after a bad frame (used
   by the vacuity run, where it must be violated) *)
NeverEmptyAfterNoise == ~ \E i \in 1..Len(got) :
   got[i].data = <<>> /\ hist[1] # SOF /\ Scan(hist).bad > 0
=============================================================================

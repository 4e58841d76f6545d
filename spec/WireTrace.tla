------------------------------ MODULE WireTrace -----------------------------
(* Are recorded reads and writes of the driver behaviours of Unpi and Codec?  *)
(* One trace per line of the file; every trace gets a verdict: OK, or BAD     *)
(* with the step and the clauses it breaks.                                   *)
EXTENDS Unpi, Codec, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

Subsystems == {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 21}

VARIABLES tid, line, rest, verdict
tvars == <<tid, line, rest, verdict>>

Kind == Traces[tid].kind
Steps == Traces[tid].steps

(* what one read must make the driver deliver *)
FramesOut(fs) == SelectSeq(fs, LAMBDA f : f.ty \in 0..3 /\ f.ss \in Subsystems)
MsgsOut(fs) == LET g == SelectSeq(fs, Decodable) IN [i \in 1..Len(g) |-> Message(g[i])]

Heads(ms) == [i \in 1..Len(ms) |-> <<ms[i].ty, ms[i].ss, ms[i].id>>]

RxBad(s) ==
  LET sc == Read(rest, s.b)
      want == IF Kind = "frame" THEN FramesOut(sc.frames) ELSE MsgsOut(sc.frames)
  IN  (IF s.esc # 0 THEN {"error-escapes-to-transport"} ELSE {})
      \cup (IF Heads(s.out) # Heads(want) THEN {"wrong-frames-delivered"}
            ELSE IF s.out # want THEN {"content-altered"} ELSE {})
RxRest(s) == Read(rest, s.b).rest

(* what issuing a command must write, and what reading that back must deliver *)
TxBad(s) ==
  LET c == Named(s.ss, s.name)
      data == Enc(c.req, s.p)
      want == WireFrame(c.ty, c.ss, c.id, data)
      fs == Scan(want).frames
      back == IF Decodable(fs[1]) THEN <<Message(fs[1])>> ELSE <<>>
  IN  (IF s.wire # want THEN {"wrong-bytes-written"} ELSE {})
      \cup (IF s.wire = want /\ (s.out # back \/ s.esc # 0)
            THEN {"not-read-back"} ELSE {})

TxFrameBad(s) ==
  LET want == WireFrame(s.ty, s.ss, s.id, s.data)
      back == <<[ty |-> s.ty, ss |-> s.ss, id |-> s.id, data |-> s.data]>>
  IN  (IF s.wire # want THEN {"wrong-bytes-written"} ELSE {})
      \cup (IF s.wire = want /\ (s.out # back \/ s.esc # 0)
            THEN {"not-read-back"} ELSE {})

Bad(s) == CASE Kind \in {"frame", "msg"} -> RxBad(s)
            [] Kind = "tx" -> TxBad(s)
            [] Kind = "txframe" -> TxFrameBad(s)
            [] OTHER -> {"driver-" \o Kind}

Init == tid \in 1..Len(Traces) /\ line = 1 /\ rest = <<>> /\ verdict = {}

Step == /\ verdict = {} /\ line <= Len(Steps)
        /\ verdict' = Bad(Steps[line])
        /\ rest' = IF Kind \in {"frame", "msg"} THEN RxRest(Steps[line]) ELSE <<>>
        /\ line' = line + 1
        /\ tid' = tid
        /\ (verdict' # {} => PrintT(<<"BAD", tid, line, verdict'>>))

End == /\ verdict = {} /\ line = Len(Steps) + 1
       /\ PrintT(<<"OK", tid>>)
       /\ line' = line + 1 /\ UNCHANGED <<tid, rest, verdict>>

Next == Step \/ End
Spec == Init /\ [][Next]_tvars
=============================================================================

------------------------------ MODULE Server ------------------------------
(***************************************************************************)
(* One connection of the 9P server (protocol/server.go): the peer's byte   *)
(* stream arrives in pieces, is cut into messages, each message is either  *)
(* refused or passed to the file server behind the connection, and is      *)
(* answered before the next one is looked at.                              *)
(*                                                                         *)
(* The file server is arbitrary: it answers a call with any error or any   *)
(* result fields.                                                          *)
(***************************************************************************)
EXTENDS Wire

CONSTANTS Streams,        \* the byte streams a peer may send
          Answer(_)       \* the answers the file server may give to a request:
                          \* [ok |-> TRUE, f |-> fields] or [ok |-> FALSE, err |-> text]

VARIABLES in,        \* all the peer ever sends
          got,       \* how many bytes of it have been delivered
          pos,       \* how many have been consumed
          versioned, \* a version request has been received
          pend,      \* <<>>, or <<the answer to the call that is to be replied to>>
          calls,     \* the calls made on the file server, in order
          outs,      \* the messages sent, in order
          up         \* the connection is up

vars == <<in, got, pos, versioned, pend, calls, outs, up>>

Avail == SubSeq(in, pos + 1, got)

(***************************************************************************)
(* What is to be done with a complete message.                             *)
(***************************************************************************)
Gate(frame, v)  == frame[5] # Tversion /\ ~v
Class(frame, v) == IF Gate(frame, v) THEN "gate"
                   ELSE IF frame[5] \notin Requests THEN "unsupported"
                   ELSE IF ~DecodeFrame(frame).ok THEN "malformed"
                   ELSE "call"
FrameTag(frame) == SubSeq(frame, 6, 7)

IsError(b, tag) == LET d == DecodeFrame(b) IN d.ok /\ d.m.ty = Rerror /\ d.m.tag = tag

\* An Rerror carries at most 65535 bytes of text.
ErrMsg(tag, text) == [ty |-> Rerror, tag |-> tag,
                      f |-> <<IF Len(text) > 65535 THEN Take(text, 65535) ELSE text>>]
ReplyTo(frame, a) ==
  IF a.ok THEN Encode([ty |-> ReplyOf(frame[5]), tag |-> FrameTag(frame), f |-> a.f])
  ELSE Encode(ErrMsg(FrameTag(frame), a.err))

---------------------------------------------------------------------------
Init == /\ in \in Streams
        /\ got = 0 /\ pos = 0 /\ versioned = FALSE /\ pend = <<>>
        /\ calls = <<>> /\ outs = <<>> /\ up = TRUE

Deliver(n) == /\ up /\ got + n <= Len(in)
              /\ got' = got + n
              /\ UNCHANGED <<in, pos, versioned, pend, calls, outs, up>>

Ready == up /\ HasFrame(Avail)
Frame == FirstFrame(Avail)

\* A message that is refused without the file server being asked.
RefuseWith(text) ==
          /\ Ready /\ pend = <<>> /\ Class(Frame, versioned) # "call"
          /\ outs' = Append(outs, Encode(ErrMsg(FrameTag(Frame), text)))
          /\ pos' = pos + Len(Frame)
          /\ versioned' = (versioned \/ Frame[5] = Tversion)
          /\ UNCHANGED <<in, got, pend, calls, up>>

Refuse == RefuseWith(<<63>>)

CallWith(a) ==
        /\ Ready /\ pend = <<>> /\ Class(Frame, versioned) = "call"
        /\ pend' = <<a>>
        /\ calls' = Append(calls, DecodeFrame(Frame).m)
        /\ versioned' = (versioned \/ Frame[5] = Tversion)
        /\ UNCHANGED <<in, got, pos, outs, up>>

Call == Ready /\ Class(Frame, versioned) = "call" /\ \E a \in Answer(DecodeFrame(Frame).m) : CallWith(a)

Reply == /\ pend # <<>>
         /\ outs' = Append(outs, ReplyTo(Frame, pend[1]))
         /\ pos' = pos + Len(Frame)
         /\ pend' = <<>>
         /\ UNCHANGED <<in, got, versioned, calls, up>>

\* A size that cannot be, or the end of the stream, ends the connection.
Close == /\ up /\ pend = <<>> /\ ~HasFrame(Avail)
         /\ BadSize(Avail) \/ got = Len(in)
         /\ up' = FALSE
         /\ UNCHANGED <<in, got, pos, versioned, pend, calls, outs>>

Next == (\E n \in 1..(Len(in) - got) : Deliver(n)) \/ Refuse \/ Call \/ Reply \/ Close

Spec == Init /\ [][Next]_vars /\ WF_vars(Refuse \/ Call \/ Reply \/ Close)
             /\ WF_vars(\E n \in 1..(Len(in) - got) : Deliver(n))

---------------------------------------------------------------------------
(***************************************************************************)
(* Properties.  Msgs(s) are the complete messages at the start of s.       *)
(***************************************************************************)
RECURSIVE Msgs(_)
Msgs(s) == IF ~HasFrame(s) THEN <<>>
           ELSE <<FirstFrame(s)>> \o Msgs(Drop(s, FrameSize(s)))

VersionAt(ms, i) == \E j \in 1..(i - 1) : ms[j][5] = Tversion
Classes(ms) == [i \in 1..Len(ms) |-> Class(ms[i], VersionAt(ms, i))]

Select(ms, i) == Cardinality({j \in 1..i : Classes(ms)[j] = "call"})

\* C01: replies are to the first messages, in order, one each, of the right type.
OneReplyEach ==
  LET ms == Msgs(Take(in, got)) IN
    /\ Len(outs) <= Len(ms)
    /\ \A i \in 1..Len(outs) :
         LET d == DecodeFrame(outs[i]) IN
           d.ok /\ d.m.tag = FrameTag(ms[i]) /\ d.m.ty \in {Rerror, ReplyOf(ms[i][5])}

\* C02, C03, C04: what is called is exactly the well-formed requests that
\* came, whole, after the gate was opened; delivery plays no part in it.
CallsRight ==
  LET ms == Msgs(Take(in, got))
      cl == Classes(ms)
      ix == {i \in 1..Len(ms) : cl[i] = "call"}
  IN  /\ Len(calls) <= Cardinality(ix)
      /\ \A i \in ix : LET n == Cardinality({j \in ix : j <= i}) IN
           n <= Len(calls) => calls[n] = DecodeFrame(ms[i]).m
GateHolds == ~versioned => calls = <<>> /\ \A i \in 1..Len(outs) : DecodeFrame(outs[i]).m.ty = Rerror
RefusedIsError ==
  LET ms == Msgs(Take(in, got)) IN
    \A i \in 1..Len(outs) : Classes(ms)[i] # "call" => IsError(outs[i], FrameTag(ms[i]))

\* At the end nothing complete is left unanswered, however it was delivered.
AllAnswered == ~up => LET ms == Msgs(in) IN Len(outs) = Len(ms) \/ BadSize(Avail)
Settles == <>(~up)
=============================================================================

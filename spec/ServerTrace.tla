---------------------------- MODULE ServerTrace ----------------------------
(***************************************************************************)
(* Checks recorded connections of the real server against Server.  Each    *)
(* line of the trace file is one connection: s is the peer's stream, ev    *)
(* what happened, in order: in (n bytes were read by the server), call     *)
(* (the file server was called, and what it answered), out (a message was  *)
(* sent), end.  A step of the trace is a step of Server with the recorded  *)
(* arguments.  Where there is none, the properties concerned are printed.  *)
(***************************************************************************)
EXTENDS Server, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
NoStreams == {}
NoAnswer(m) == {}

VARIABLES i, k
tvars == <<vars, i, k>>

TraceInit == /\ i \in 1..Len(Trace) /\ k = 0
             /\ in = Trace[i].s
             /\ got = 0 /\ pos = 0 /\ versioned = FALSE /\ pend = <<>>
             /\ calls = <<>> /\ outs = <<>> /\ up = TRUE

Evs == Trace[i].ev
E == Evs[k + 1]

AnswerOf(e) == IF e.ok THEN [ok |-> TRUE, f |-> e.rf] ELSE [ok |-> FALSE, err |-> e.err]

\* The steps of Server that explain event E.  History is not kept here.
Explained ==
  CASE E.e = "in"   -> got + E.n <= Len(in)
    [] E.e = "call" -> /\ up /\ pend = <<>> /\ HasFrame(Avail)
                       /\ Class(Frame, versioned) = "call"
                       /\ DecodeFrame(Frame).m.ty = E.op
                       /\ DecodeFrame(Frame).m.f = E.f
    [] E.e = "out"  -> /\ up /\ HasFrame(Avail)
                       /\ IF pend # <<>> THEN E.b = ReplyTo(Frame, pend[1])
                          ELSE Class(Frame, versioned) # "call" /\ IsError(E.b, FrameTag(Frame))
    [] E.e = "end"  -> /\ ~E.crash /\ ~E.late /\ E.closed /\ E.rest = <<>> /\ pend = <<>>
                       /\ ~(HasFrame(Avail))
                       /\ got = Len(in) \/ BadSize(Avail)
    [] OTHER -> FALSE

Step ==
  CASE E.e = "in"   -> Deliver(E.n)
    [] E.e = "call" -> CallWith(AnswerOf(E))
    [] E.e = "out"  -> IF pend # <<>> THEN Reply ELSE RefuseWith(<<63>>)
    [] E.e = "end"  -> up' = FALSE /\ UNCHANGED <<in, got, pos, versioned, pend, calls, outs>>

(***************************************************************************)
(* Which properties an unexplained event goes against.                     *)
(***************************************************************************)
Blame ==
  CASE E.e = "call" ->
         IF ~HasFrame(Avail) THEN {"C02", "C01"}
         ELSE IF pend # <<>> THEN {"C01", "C06"}
         ELSE IF Gate(Frame, versioned) THEN {"C04"}
         ELSE IF ~DecodeFrame(Frame).ok THEN {"C03", "C05"}
         ELSE {"C05", "C06", "C01"}
    [] E.e = "out" ->
         IF ~HasFrame(Avail) THEN {"C01", "C02"}
         ELSE LET d == DecodeFrame(E.b)
                  base == IF ~d.ok \/ d.m.tag # FrameTag(Frame)
                             \/ d.m.ty \notin {Rerror, ReplyOf(Frame[5])} THEN {"C01"} ELSE {}
              IN base \cup
                 (IF pend # <<>> THEN {"C05", "C06"}
                  ELSE CASE Class(Frame, versioned) = "gate" -> {"C04"}
                         [] Class(Frame, versioned) = "malformed" -> {"C03", "C05"}
                         [] Class(Frame, versioned) = "unsupported" -> {"C01"}
                         [] OTHER -> IF d.ok /\ d.m.ty = Rerror THEN {"C04", "C05", "C06"} ELSE {"C06", "C01"})
    [] E.e = "end" ->
         IF E.crash THEN {"C01", "C02", "C03", "C04", "C05", "C06", "C07"}
         ELSE IF HasFrame(Avail) \/ pend # <<>> \/ E.rest # <<>> \/ E.late
              THEN {"C01"} \cup
                   (IF HasFrame(Avail) /\ Class(Frame, versioned) = "gate" THEN {"C04"} ELSE {}) \cup
                   (IF HasFrame(Avail) /\ Class(Frame, versioned) = "malformed" THEN {"C03"} ELSE {}) \cup
                   (IF \E j \in 1..Len(outs) : TRUE THEN {"C03"} ELSE {})
              ELSE IF ~E.closed THEN {"C32"}
              ELSE {"C01", "C02", "C03"}
    [] OTHER -> {}

\* What the specification has at this point, for the report.
Here == IF HasFrame(Avail)
        THEN <<"message", Frame, Class(Frame, versioned),
               IF pend = <<>> THEN <<>> ELSE ReplyTo(Frame, pend[1])>>
        ELSE <<"no complete message", Len(in), got, pos>>

Forget == calls' = <<>> /\ outs' = <<>>

TraceNext ==
  /\ k < Len(Evs)
  /\ IF Explained
     THEN /\ Step
          /\ k' = k + 1
          /\ k' = Len(Evs) => PrintT("@@DONE " \o ToString(i))
     ELSE /\ PrintT("@@MISMATCH " \o ToJson([i |-> i, k |-> k + 1, blame |-> Blame, exp |-> ToString(Here)]))
          /\ k' = Len(Evs) + 1
          /\ UNCHANGED vars
  /\ UNCHANGED i

TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceView == <<i, k>>
=============================================================================

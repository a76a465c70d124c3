--------------------------- MODULE HostileTrace ---------------------------
(***************************************************************************)
(* Checks what the real server does for good peers while bad ones are at   *)
(* it.  Events:                                                            *)
(*   attack  a bad peer has connected and sent its bytes                   *)
(*   left    it has said all it had to say, and whether the server closes  *)
(*           the connection then                                           *)
(*   probe   a good peer (who: old connections, new ones) sent req and     *)
(*           received rep                                                  *)
(*   end     the run is over, or the process is (crash)                    *)
(* Behind the server is either a file server whose answers are made of the *)
(* arguments ("echo"), or the Unix file server ("ufs"), where bad peers    *)
(* may have changed any file, so that an error reply to a good peer is     *)
(* as good as another.                                                     *)
(***************************************************************************)
EXTENDS Wire, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, k
vars == <<i, k>>

Evs == Trace[i].ev
E == Evs[k + 1]

Init == i \in 1..Len(Trace) /\ k = 0

Qid(fid) == [t |-> <<0>>, v |-> <<0, 0, 0, 0>>, p |-> fid \o <<0, 0, 0, 0>>]
Echo(m) ==
  CASE m.ty = Tversion -> m.f
    [] m.ty = Tattach  -> <<Qid(m.f[1])>>
    [] m.ty = Twalk    -> <<<<>>>>
    [] m.ty = Topen    -> <<Qid(m.f[1]), m.f[1]>>
    [] m.ty = Tread    -> <<m.f[1] \o m.f[2]>>
    [] m.ty = Tstat    -> <<m.f[1]>>

\* The reply rep serves the request req.
ServedBy(req, rep) ==
  LET m == DecodeFrame(req).m
      d == DecodeFrame(rep)
  IN /\ d.ok /\ d.m.tag = m.tag
     /\ IF Trace[i].back = "echo"
        THEN rep = Encode([ty |-> ReplyOf(m.ty), tag |-> m.tag, f |-> Echo(m)])
        ELSE \/ d.m.ty = ReplyOf(m.ty)
             \/ d.m.ty = Rerror /\ m.ty # Tversion

Explained ==
  CASE E.e = "attack" -> TRUE
    [] E.e = "left"   -> E.closed
    [] E.e = "probe"  -> ServedBy(E.req, E.rep)
    [] E.e = "end"    -> ~E.crash
    [] OTHER -> FALSE

Next ==
  /\ k < Len(Evs)
  /\ IF Explained
     THEN /\ k' = k + 1
          /\ k' = Len(Evs) => PrintT("@@DONE " \o ToString(i))
     ELSE /\ PrintT("@@MISMATCH " \o ToJson([i |-> i, k |-> k + 1, blame |-> IF E.e = "left" THEN {"C32"} ELSE {"C07"},
                                             exp |-> "good peers are served, and connections that have ended closed"]))
          /\ k' = Len(Evs) + 1
  /\ UNCHANGED i

TraceSpec == Init /\ [][Next]_vars
TraceView == <<i, k>>
=============================================================================

--------------------------- MODULE ListenerTrace ---------------------------
(***************************************************************************)
(* Checks recordings of the real Listener against Listener.  Events:       *)
(*   serve    Serve has been called for listener l                         *)
(*   ask      Accept of listener l has been called                         *)
(*   give     it returns k: conn (connection c), temp, fatal               *)
(*   close    listener l is closed                                         *)
(*   served   Serve of l returned; same: with the very error it was given  *)
(*   direct   connection c has been handed over directly                   *)
(*   shut     Shutdown number n has been called                            *)
(*   down     it has returned                                              *)
(*   tell     a request on connection c has been answered: by file server  *)
(*            ns, as the n-th request made to it (0, 0: no answer)         *)
(*   gone     connection c has been closed by the server                   *)
(*   stuck    something has been waited for in vain                        *)
(*   end      the run is over; made is the number of file servers created  *)
(***************************************************************************)
EXTENDS Listener, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, k, s
vars == <<i, k, s>>

Evs == Trace[i].ev
E == Evs[k + 1]

Init == i \in 1..Len(Trace) /\ k = 0 /\ s = Start(1..Trace[i].n)

Explained ==
  CASE E.e = "serve"  -> CanServe(s, E.l)
    [] E.e = "ask"    -> CanAsk(s, E.l)
    [] E.e = "give"   -> CanGive(s, E.l)
    [] E.e = "close"  -> CanClose(s, E.l)
    [] E.e = "served" -> CanEnd(s, E.l) /\ E.same
    [] E.e = "direct" -> E.ok
    [] E.e = "shut"   -> TRUE
    [] E.e = "down"   -> CanDown(s, E.n)
    [] E.e = "tell"   -> CanTell(s, E.c, E.ns, E.n)
    [] E.e = "gone"   -> FALSE
    [] E.e = "stuck"  -> CASE E.what = "ask" -> ~MustAsk(s, E.l)
                           [] E.what = "served" -> ~MustEnd(s, E.l) /\ ~MustFail(s, E.l)
                           [] E.what = "down" -> FALSE
                           [] OTHER -> FALSE
    [] E.e = "end"    -> ~E.crash /\ E.made = Cardinality(DOMAIN s.conn)
    [] OTHER -> FALSE

Step ==
  CASE E.e = "serve"  -> s' = Serve(s, E.l)
    [] E.e = "ask"    -> s' = Ask(s, E.l)
    [] E.e = "give"   -> s' = Give(s, E.l, E.k, E.c)
    [] E.e = "close"  -> s' = Close(s, E.l)
    [] E.e = "served" -> s' = End(s, E.l)
    [] E.e = "direct" -> s' = Direct(s, E.c)
    [] E.e = "shut"   -> s' = Shut(s, E.n)
    [] E.e = "down"   -> s' = Down(s, E.n)
    [] E.e = "tell"   -> s' = Tell(s, E.c, E.ns, E.n)
    [] OTHER -> UNCHANGED s

Next ==
  /\ k < Len(Evs)
  /\ IF Explained
     THEN /\ Step
          /\ k' = k + 1
          /\ k' = Len(Evs) => PrintT("@@DONE " \o ToString(i))
     ELSE /\ PrintT("@@MISMATCH " \o ToJson([i |-> i, k |-> k + 1, blame |-> {"C28"}, exp |-> ToString(s)]))
          /\ k' = Len(Evs) + 1
          /\ UNCHANGED s
  /\ UNCHANGED i

TraceSpec == Init /\ [][Next]_vars
TraceView == <<i, k>>
=============================================================================

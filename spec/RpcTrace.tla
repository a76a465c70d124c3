----------------------------- MODULE RpcTrace -----------------------------
(***************************************************************************)
(* Checks recordings of calls through the client and the serving loop      *)
(* (kind "wire") or through the debugging file server ("wrap") against     *)
(* Rpc.  Events:                                                           *)
(*   call   call i is made: operation op, arguments f                      *)
(*   inv    the file server's operation op has been invoked with f, and    *)
(*          returns ok, err, rf                                            *)
(*   ret    call i returned ok, err, rf; same: the error is the very value *)
(*          the operation returned; f: the arguments as the caller sees    *)
(*          them afterwards                                                *)
(*   end    the run is over; hung are calls that have not returned         *)
(* Byte strings that are long are represented by a digest.                 *)
(***************************************************************************)
EXTENDS Rpc, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, k, s
vars == <<i, k, s>>

Evs == Trace[i].ev
E == Evs[k + 1]
Prop == IF Trace[i].kind = "wrap" THEN "C27" ELSE "C06"

Init == i \in 1..Len(Trace) /\ k = 0 /\ s = Start(Trace[i].kind)

For(e) == {j \in DOMAIN s.call : CanInvoke(s, j, e.op, e.f)}
Ans(e) == [ok |-> e.ok, err |-> e.err, f |-> e.rf]

Allowed(e) ==
  \E r \in Returns(s, e.i) :
    IF r = Refused THEN ~e.ok
    ELSE e.ok = r.ok /\ (~e.ok => e.err = r.err) /\ (e.ok \/ s.kind = "wrap" => e.rf = r.f) /\ e.same

Explained ==
  CASE E.e = "call" -> CanMake(s, E.i)
    [] E.e = "inv"  -> For(E) # {}
    [] E.e = "ret"  -> Allowed(E) /\ E.f = s.call[E.i].f
    [] E.e = "end"  -> ~E.crash /\ E.hung = <<>> /\ \A j \in DOMAIN s.call : s.call[j].st = "done"
    [] OTHER -> FALSE

Step ==
  CASE E.e = "call" -> s' = Make(s, E.i, E.op, E.f)
    [] E.e = "inv"  -> s' = Invoke(s, CHOOSE j \in For(E) : TRUE, Ans(E))
    [] E.e = "ret"  -> s' = Return(s, E.i, E.ok)
    [] OTHER -> UNCHANGED s

Says ==
  CASE E.e = "ret" -> ToString(<<Returns(s, E.i), s.call[E.i]>>)
    [] E.e = "inv" -> ToString({<<s.call[j].op, s.call[j].f>> : j \in {x \in DOMAIN s.call : s.call[x].st = "made"}})
    [] OTHER -> ""

Next ==
  /\ k < Len(Evs)
  /\ IF Explained
     THEN /\ Step
          /\ k' = k + 1
          /\ k' = Len(Evs) => PrintT("@@DONE " \o ToString(i))
     ELSE /\ PrintT("@@MISMATCH " \o ToJson([i |-> i, k |-> k + 1, blame |-> {Prop}, exp |-> Says]))
          /\ k' = Len(Evs) + 1
          /\ UNCHANGED s
  /\ UNCHANGED i

TraceSpec == Init /\ [][Next]_vars
TraceView == <<i, k>>
=============================================================================

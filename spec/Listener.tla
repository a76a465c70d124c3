----------------------------- MODULE Listener -----------------------------
(***************************************************************************)
(* Serving listeners (protocol/server.go: Serve, Accept, Shutdown).        *)
(*                                                                         *)
(* The state is a record s:                                                *)
(*   ln     the listeners: st is "idle", "starting" (Serve has been called *)
(*          but has not asked for a connection yet), "asking" (an Accept   *)
(*          is pending), "busy" (between two) or "ended" (Serve returned); *)
(*          last is what the last Accept returned: none, conn, temp or     *)
(*          fatal; closed tells whether the listener has been closed       *)
(*   conn   the connections accepted, with the file server of each: 0 as   *)
(*          long as it is not known                                        *)
(*   due    the listeners that a Shutdown under way has to close, for each *)
(*          such Shutdown                                                  *)
(* Steps are functions on states with their enabling conditions;           *)
(* ListenerMC explores them, ListenerTrace checks recordings with them.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
NoFn == [x \in {} |-> 0]

Start(L) == [ln |-> [l \in L |-> [st |-> "idle", last |-> "none", closed |-> FALSE]],
             conn |-> NoFn, due |-> NoFn]

Served(s) == {l \in DOMAIN s.ln : s.ln[l].st \in {"asking", "busy"} /\ s.ln[l].last # "fatal"}

CanServe(s, l) == s.ln[l].st = "idle"
Serve(s, l) == [s EXCEPT !.ln[l].st = "starting"]

\* The next connection is asked for: not after an error that is not temporary.
CanAsk(s, l) == s.ln[l].st \in {"starting", "busy"} /\ s.ln[l].last # "fatal"
Ask(s, l) == [s EXCEPT !.ln[l].st = "asking"]

\* The listener gives a connection, a temporary error or another one.
CanGive(s, l) == s.ln[l].st = "asking"
Give(s, l, k, c) == LET t == [s EXCEPT !.ln[l].st = "busy", !.ln[l].last = k] IN
                    IF k = "conn" THEN [t EXCEPT !.conn = With(@, c, [ns |-> 0, calls |-> 0])] ELSE t

\* A connection is handed over directly.
Direct(s, c) == [s EXCEPT !.conn = With(@, c, [ns |-> 0, calls |-> 0])]

\* A listener is closed: by a Shutdown, or because serving it ends.
Ending(s, l) == s.ln[l].st = "busy" /\ s.ln[l].last = "fatal"
CanClose(s, l) == \/ Ending(s, l)
                  \/ DOMAIN s.due # {} /\ s.ln[l].st \in {"starting", "asking", "busy"}
Close(s, l) == [s EXCEPT !.ln[l].closed = TRUE]

\* Serve returns, with the error.
CanEnd(s, l) == Ending(s, l) /\ s.ln[l].closed
End(s, l) == [s EXCEPT !.ln[l].st = "ended"]

\* Shutdown number n begins; it returns when all that was served is closed.
Shut(s, n) == [s EXCEPT !.due = With(@, n, Served(s))]
CanDown(s, n) == n \in DOMAIN s.due /\ \A l \in s.due[n] : s.ln[l].closed
Down(s, n) == [s EXCEPT !.due = [m \in DOMAIN @ \ {n} |-> @[m]]]

\* A request on connection c is answered by file server ns, as the n-th
\* request made to it: each file server serves one connection.
CanTell(s, c, ns, n) == /\ c \in DOMAIN s.conn
                        /\ ns # 0 /\ (s.conn[c].ns = ns \/ (s.conn[c].ns = 0 /\ \A d \in DOMAIN s.conn : s.conn[d].ns # ns))
                        /\ n = s.conn[c].calls + 1
Tell(s, c, ns, n) == [s EXCEPT !.conn[c] = [ns |-> ns, calls |-> n]]

---------------------------------------------------------------------------
\* What has to come, in the end.
MustAsk(s, l) == CanAsk(s, l)
MustEnd(s, l) == s.ln[l].last = "fatal" /\ s.ln[l].st # "ended"
\* A listener that is closed gives an error of the other kind.
MustFail(s, l) == s.ln[l].closed /\ s.ln[l].st = "asking"
=============================================================================

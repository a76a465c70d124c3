---------------------------- MODULE ListenerMC ----------------------------
(***************************************************************************)
(* All schedules of a few listeners, connections and shutdowns on one      *)
(* server; with the lock and the set of listeners of the implementation.   *)
(***************************************************************************)
EXTENDS Listener, TLC

CONSTANTS Lns, MaxConn, MaxTemp, MaxShut

VARIABLES s, set, pc, todo, nconn, ntemp, nshut, asked
vars == <<s, set, pc, todo, nconn, ntemp, nshut, asked>>

Init == /\ s = Start(Lns) /\ set = {} /\ pc = [l \in Lns |-> "none"] /\ todo = {}
        /\ nconn = 0 /\ ntemp = 0 /\ nshut = 0 /\ asked = [n \in 1..MaxShut |-> {}]

Locked == DOMAIN s.due # {}              \* Shutdown holds the lock
\* The user
ServeA(l) == CanServe(s, l) /\ s' = Serve(s, l) /\ UNCHANGED <<set, pc, todo, nconn, ntemp, nshut, asked>>
ShutA == /\ ~Locked /\ nshut < MaxShut /\ nshut' = nshut + 1 /\ s' = Shut(s, nshut + 1) /\ todo' = set
         /\ asked' = [asked EXCEPT ![nshut + 1] = Served(s)]
         /\ UNCHANGED <<set, pc, nconn, ntemp>>
\* Serve: track, ask, close and untrack
Track(l) == /\ s.ln[l].st = "starting" /\ pc[l] = "none" /\ ~Locked
            /\ set' = set \cup {l} /\ pc' = [pc EXCEPT ![l] = "loop"]
            /\ UNCHANGED <<s, todo, nconn, ntemp, nshut, asked>>
AskA(l) == /\ pc[l] = "loop" /\ CanAsk(s, l) /\ s' = Ask(s, l) /\ UNCHANGED <<set, pc, todo, nconn, ntemp, nshut, asked>>
Untrack(l) == /\ pc[l] = "loop" /\ Ending(s, l) /\ ~Locked
              /\ set' = set \ {l} /\ pc' = [pc EXCEPT ![l] = "out"]
              /\ UNCHANGED <<s, todo, nconn, ntemp, nshut, asked>>
CloseSelf(l) == /\ pc[l] = "out" /\ ~s.ln[l].closed /\ CanClose(s, l) /\ s' = Close(s, l)
                /\ UNCHANGED <<set, pc, todo, nconn, ntemp, nshut, asked>>
EndA(l) == /\ pc[l] = "out" /\ CanEnd(s, l) /\ s' = End(s, l) /\ UNCHANGED <<set, pc, todo, nconn, ntemp, nshut, asked>>
\* The network
GiveA(l) == /\ CanGive(s, l)
            /\ IF s.ln[l].closed
               THEN s' = Give(s, l, "fatal", 0) /\ UNCHANGED <<nconn, ntemp>>
               ELSE \/ nconn < MaxConn /\ nconn' = nconn + 1 /\ s' = Give(s, l, "conn", nconn + 1) /\ UNCHANGED ntemp
                    \/ ntemp < MaxTemp /\ ntemp' = ntemp + 1 /\ s' = Give(s, l, "temp", 0) /\ UNCHANGED nconn
                    \/ s' = Give(s, l, "fatal", 0) /\ UNCHANGED <<nconn, ntemp>>
            /\ UNCHANGED <<set, pc, todo, nshut, asked>>
FailClosed(l) == s.ln[l].closed /\ GiveA(l)
\* Shutdown: close what is in the set
CloseOne == /\ todo # {} /\ \E l \in todo :
                 /\ s' = Close(s, l) /\ todo' = todo \ {l} /\ set' = set \ {l}
            /\ UNCHANGED <<pc, nconn, ntemp, nshut, asked>>
DownA == /\ todo = {} /\ \E n \in DOMAIN s.due : CanDown(s, n) /\ s' = Down(s, n)
         /\ UNCHANGED <<set, pc, todo, nconn, ntemp, nshut, asked>>
\* Requests on connections: each has the file server of its own number
TellA(c) == /\ c \in DOMAIN s.conn /\ s.conn[c].calls < 1 /\ CanTell(s, c, c, s.conn[c].calls + 1)
            /\ s' = Tell(s, c, c, s.conn[c].calls + 1)
            /\ UNCHANGED <<set, pc, todo, nconn, ntemp, nshut, asked>>

Loop(l) == Track(l) \/ AskA(l) \/ Untrack(l) \/ CloseSelf(l) \/ EndA(l) \/ FailClosed(l)
Next == \/ \E l \in Lns : ServeA(l) \/ Loop(l) \/ GiveA(l)
        \/ ShutA \/ CloseOne \/ DownA
        \/ \E c \in 1..MaxConn : TellA(c)
Spec == Init /\ [][Next]_vars /\ WF_vars(CloseOne) /\ WF_vars(DownA)
        /\ \A l \in Lns : SF_vars(Track(l)) /\ WF_vars(AskA(l)) /\ SF_vars(Untrack(l)) /\ WF_vars(CloseSelf(l))
                          /\ WF_vars(EndA(l)) /\ WF_vars(FailClosed(l))
        /\ \A c \in 1..MaxConn : WF_vars(TellA(c))

---------------------------------------------------------------------------
\* The implementation only closes what may be closed.
Lawful == \A l \in todo : CanClose(s, l) \/ s.ln[l].closed
\* A listener is only closed for a reason.
Reason == \A l \in Lns : s.ln[l].closed => s.ln[l].last = "fatal" \/ nshut > 0
\* Shutdown closes all that is being served.
Closes == \A n \in 1..MaxShut : (nshut >= n /\ n \notin DOMAIN s.due) => \A l \in asked[n] : s.ln[l].closed
\* and can always finish
Finishes == (DOMAIN s.due # {}) ~> (DOMAIN s.due = {})
\* Serving ends after another error, and after a shutdown; and not before.
Ends == \A l \in Lns : (s.ln[l].last = "fatal") ~> (s.ln[l].st = "ended")
ShutEnds == \A l \in Lns : \A n \in 1..MaxShut : (l \in asked[n]) ~> (s.ln[l].st = "ended")
Survives == \A l \in Lns : (s.ln[l].last \in {"temp", "conn"} /\ s.ln[l].st = "busy") ~> (s.ln[l].st = "asking")
\* Connections are served, whatever happens to the listeners.
Conns == \A c \in 1..MaxConn : (c \in DOMAIN s.conn) ~> (c \in DOMAIN s.conn /\ s.conn[c].calls = 1)
=============================================================================

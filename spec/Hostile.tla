----------------------------- MODULE Hostile -----------------------------
(***************************************************************************)
(* The server as its clients see it together: each connection has a        *)
(* goroutine of its own that reads one message at a time, has the file     *)
(* server carry it out and writes the reply (protocol/server.go).  Bad     *)
(* peers send anything: garbage, messages that never end, sizes that       *)
(* cannot be; they stop reading, or go away at any point.  Good peers send *)
(* requests and wait for the replies; more good peers come all the time.   *)
(* Nothing a bad peer does keeps the good ones from being served.          *)
(*                                                                         *)
(* This is the model; HostileTrace judges what the real server does for    *)
(* its good peers.                                                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Good, Bad,       \* connections
          MaxMsgs,         \* messages per connection
          OneThread        \* TRUE: all connections share one goroutine (to see the property fail)

Conns == Good \cup Bad
Kinds == {"req", "junk", "part", "badsize"}

VARIABLES up,              \* the process runs
          st,              \* per connection: new, reading, serving, writing, closed
          inq, sent, got, deaf, busy
vars == <<up, st, inq, sent, got, deaf, busy>>

Init == /\ up = TRUE
        /\ st = [c \in Conns |-> "new"] /\ inq = [c \in Conns |-> <<>>]
        /\ sent = [c \in Conns |-> 0] /\ got = [c \in Conns |-> 0]
        /\ deaf = [c \in Conns |-> FALSE]
        /\ busy = {}

\* With one goroutine only the connection it is busy with proceeds.
Mine(c) == ~OneThread \/ busy \subseteq {c}

Dial(c) == /\ st[c] = "new" /\ st' = [st EXCEPT ![c] = "reading"]
           /\ UNCHANGED <<up, inq, sent, got, deaf, busy>>
\* A good peer has one request under way at a time.
Ask(c) == /\ c \in Good /\ st[c] \notin {"new", "closed"} /\ sent[c] < MaxMsgs /\ sent[c] = got[c]
          /\ inq' = [inq EXCEPT ![c] = Append(@, "req")] /\ sent' = [sent EXCEPT ![c] = @ + 1]
          /\ UNCHANGED <<up, st, got, deaf, busy>>
Attack(c) == /\ c \in Bad /\ st[c] \notin {"new", "closed"} /\ sent[c] < MaxMsgs
             /\ \E k \in Kinds : inq' = [inq EXCEPT ![c] = Append(@, k)]
             /\ sent' = [sent EXCEPT ![c] = @ + 1]
             /\ UNCHANGED <<up, st, got, deaf, busy>>
GoDeaf(c) == /\ c \in Bad /\ ~deaf[c] /\ deaf' = [deaf EXCEPT ![c] = TRUE]
             /\ UNCHANGED <<up, st, inq, sent, got, busy>>
HangUp(c) == /\ c \in Bad /\ st[c] \notin {"new", "closed"} /\ st' = [st EXCEPT ![c] = "closed"]
             /\ busy' = busy \ {c}
             /\ UNCHANGED <<up, inq, sent, got, deaf>>

\* The goroutine of connection c.
Read(c) == /\ st[c] = "reading" /\ inq[c] # <<>> /\ Mine(c)
           /\ busy' = busy \cup {c}
           /\ CASE Head(inq[c]) \in {"req", "junk"} ->          \* a message: carried out or refused
                     st' = [st EXCEPT ![c] = "serving"] /\ inq' = [inq EXCEPT ![c] = Tail(@)]
                [] Head(inq[c]) = "badsize" -> st' = [st EXCEPT ![c] = "closed"] /\ UNCHANGED inq
                [] Head(inq[c]) = "part" ->                     \* waits for the rest of it
                     st' = [st EXCEPT ![c] = "stuck"] /\ UNCHANGED inq
           /\ UNCHANGED <<up, sent, got, deaf>>
Serve(c) == /\ st[c] = "serving" /\ Mine(c) /\ st' = [st EXCEPT ![c] = "writing"]
            /\ UNCHANGED <<up, inq, sent, got, deaf, busy>>
Write(c) == /\ st[c] = "writing" /\ ~deaf[c] /\ Mine(c)         \* nobody reads: it blocks
            /\ st' = [st EXCEPT ![c] = "reading"] /\ got' = [got EXCEPT ![c] = @ + 1]
            /\ busy' = busy \ {c}
            /\ UNCHANGED <<up, inq, sent, deaf>>
Thread(c) == Read(c) \/ Serve(c) \/ Write(c)

Next == \E c \in Conns : Dial(c) \/ Ask(c) \/ Attack(c) \/ GoDeaf(c) \/ HangUp(c) \/ Thread(c)
Spec == Init /\ [][Next]_vars /\ \A c \in Conns : WF_vars(Thread(c)) /\ WF_vars(Dial(c))

---------------------------------------------------------------------------
Up == up
Undisturbed == \A c \in Good : st[c] # "closed"
Served == \A c \in Good : \A n \in 1..MaxMsgs : (sent[c] >= n) ~> (got[c] >= n)
Accepted == \A c \in Good : <>(st[c] # "new")
=============================================================================

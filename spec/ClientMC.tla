----------------------------- MODULE ClientMC -----------------------------
(***************************************************************************)
(* All behaviours of a small client: calls in any order, a server that     *)
(* answers rightly, wrongly, twice or not at all, a connection that fails  *)
(* at any point.                                                           *)
(***************************************************************************)
EXTENDS Client, TLC

CONSTANTS NCalls, Faults       \* Faults: may there be stray replies and failures

VARIABLES s, ans,              \* ans[i]: the content of the reply the server gave to call i, or <<>>
          odd                  \* how many more odd replies there may be
vars == <<s, ans, odd>>

Ids == 1..NCalls
\* Call i asks for i.  The server's reply to it has content i or is an error;
\* a wrong one (of another type, undecodable) means an error to anyone.
Right(i) == {Result(<<i>>), ErrText(<<i>>)}

Init == s = Start /\ ans = [i \in Ids |-> <<>>] /\ odd = 2

MakeA == \E i \in Ids : CanMake(s, i) /\ s' = Make(s, i, i) /\ UNCHANGED <<ans, odd>>
SendA == \E i \in Ids, t \in 1..MaxTag : CanSend(s, i, t) /\ s.call[i].st = "made" /\ s' = Send(s, i, t) /\ UNCHANGED <<ans, odd>>
AnswerOne(t) == /\ CanReply(s) /\ t \in DOMAIN s.out /\ s.out[t] \in Outstanding(s)
                /\ \E m \in Right(s.out[t]) : LET M(rq) == m IN
                     /\ s' = Reply(s, t, M)
                     /\ ans' = [ans EXCEPT ![s.out[t]] = <<m>>]
                /\ UNCHANGED odd
OddReply(t) == /\ Faults /\ odd > 0 /\ CanReply(s)
               /\ LET M(rq) == AnyErr IN s' = Reply(s, t, M)
               /\ ans' = [i \in Ids |-> IF t \in DOMAIN s.out /\ s.out[t] = i /\ i \in Outstanding(s) THEN <<AnyErr>> ELSE ans[i]]
               /\ odd' = odd - 1
BreakA == Faults /\ \E side \in {"r", "w"} : side \notin s.down /\ s' = Break(s, side) /\ UNCHANGED <<ans, odd>>
LetGoA == \E side \in s.open : CanLetGo(s, side) /\ s' = LetGo(s, side) /\ UNCHANGED <<ans, odd>>
ReturnA == \E i \in Ids : \E r \in Returns(s, i) : s' = Return(s, i, r) /\ UNCHANGED <<ans, odd>>

Answers == \E t \in 1..MaxTag : AnswerOne(t)
Next == MakeA \/ SendA \/ Answers \/ (\E t \in 0..(MaxTag + 1) : OddReply(t)) \/ BreakA \/ LetGoA \/ ReturnA

Spec == Init /\ [][Next]_vars /\ WF_vars(SendA) /\ WF_vars(Answers) /\ WF_vars(ReturnA) /\ WF_vars(LetGoA)

---------------------------------------------------------------------------
C09 == TagsRight(s)
\* C08, C11: a call that succeeds returns what the server said to it, and
\* one that fails either has that error, or was answered wrongly, or lost
\* its connection.
C08 == \A i \in DOMAIN s.call : s.call[i].st = "done" =>
         LET r == s.call[i].ret IN
         \/ ans[i] # <<>> /\ r = ans[i][1]
         \/ r = Lost /\ s.down # {}
C11 == \A i \in DOMAIN s.call : s.call[i].st = "done" /\ ~IsErr(s.call[i].ret) =>
         ans[i] # <<>> /\ s.call[i].ret = ans[i][1] /\ s.call[i].ret.f = <<s.call[i].rq>>
\* C10: what was complete before the connection failed is not lost with a
\* failing read side.
C10 == \A i \in DOMAIN s.call : (s.call[i].st = "done" /\ s.call[i].ret = Lost /\ s.down = {"r"}) => ans[i] = <<>>
\* C08, C10: every call returns.
AllReturn == \A i \in Ids : (i \in DOMAIN s.call) ~> (i \in DOMAIN s.call /\ s.call[i].st = "done")
\* C33: a connection is kept while it works, and given up when it has failed.
Kept == s.open # {"r", "w"} => s.down # {}
LetsGo == (s.down # {}) ~> (s.open = {})
=============================================================================

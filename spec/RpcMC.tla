------------------------------ MODULE RpcMC ------------------------------
(***************************************************************************)
(* What is in between, in the small: concurrent callers, a queue of        *)
(* requests, a server that takes them in turn, a queue of replies; and the *)
(* wrapper, which is none of these.  They implement Rpc.                   *)
(***************************************************************************)
EXTENDS Rpc, TLC

CONSTANTS NCalls, Kind

VARIABLES s, sent, req, rep, used
vars == <<s, sent, req, rep, used>>

Ids == 1..NCalls
Ops == {Version, "x", "y"}
\* calls 1 and 2 may ask for the same thing
Args(i) == {<<0>>, <<i>>}
Answers == {[ok |-> TRUE, err |-> <<>>, f |-> <<1>>], [ok |-> TRUE, err |-> <<>>, f |-> <<>>],
            [ok |-> FALSE, err |-> <<2>>, f |-> <<1>>]}

Init == s = Start(Kind) /\ sent = {} /\ req = <<>> /\ rep = <<>> /\ used = [i \in Ids |-> 0]

MakeA == \E i \in Ids, op \in Ops, f \in UNION {Args(j) : j \in Ids} :
           CanMake(s, i) /\ f \in Args(i) /\ s' = Make(s, i, op, f) /\ UNCHANGED <<sent, req, rep, used>>

\* over the wire
SendA == /\ Kind = "wire"
         /\ \E i \in DOMAIN s.call \ sent :
              /\ sent' = sent \cup {i} /\ req' = Append(req, [i |-> i, op |-> s.call[i].op, f |-> s.call[i].f])
              /\ UNCHANGED <<s, rep, used>>
ServeA == /\ Kind = "wire" /\ req # <<>>
          /\ req' = Tail(req)
          /\ LET q == Head(req) IN
             IF s.gate \/ q.op = Version
             THEN \E a \in Answers :
                    /\ CanInvoke(s, q.i, q.op, q.f)
                    /\ s' = Invoke(s, q.i, a) /\ used' = [used EXCEPT ![q.i] = @ + 1]
                    /\ rep' = Append(rep, [i |-> q.i, r |-> Through(Kind, a)])
             ELSE /\ rep' = Append(rep, [i |-> q.i, r |-> Refused])
                  /\ UNCHANGED <<s, used>>
          /\ UNCHANGED sent
GetA == /\ Kind = "wire" /\ rep # <<>>
        /\ rep' = Tail(rep) /\ s' = Return(s, Head(rep).i, Head(rep).r)
        /\ UNCHANGED <<sent, req, used>>
\* through the wrapper
WrapA == /\ Kind = "wrap"
         /\ \E i \in DOMAIN s.call, a \in Answers :
              /\ CanInvoke(s, i, s.call[i].op, s.call[i].f)
              /\ s' = Invoke(s, i, a) /\ used' = [used EXCEPT ![i] = @ + 1]
         /\ UNCHANGED <<sent, req, rep>>
BackA == /\ Kind = "wrap"
         /\ \E i \in DOMAIN s.call : s.call[i].st = "inv" /\ s' = Return(s, i, s.call[i].ans)
         /\ UNCHANGED <<sent, req, rep, used>>

Next == MakeA \/ SendA \/ ServeA \/ GetA \/ WrapA \/ BackA
Spec == Init /\ [][Next]_vars /\ WF_vars(SendA) /\ WF_vars(ServeA) /\ WF_vars(GetA) /\ WF_vars(WrapA) /\ WF_vars(BackA)

---------------------------------------------------------------------------
Done(i) == i \in DOMAIN s.call /\ s.call[i].st = "done"
Once == \A i \in Ids : used[i] <= 1
\* A call that returns was carried out once and returns what became of it,
\* unless it was refused, in which case nothing was carried out.
Right == \A i \in Ids : Done(i) =>
           \/ used[i] = 1 /\ s.call[i].ret = Through(Kind, s.call[i].ans)
           \/ used[i] = 0 /\ s.call[i].ret = Refused /\ s.call[i].op # Version
\* Each return is one that Rpc allows at that time, a refusal one that was
\* allowed when it was given.
Conform == [][\A i \in Ids : (~Done(i) /\ Done(i)') =>
                 \/ s.call[i].st = "inv" /\ s'.call[i].ret \in Returns(s, i)
                 \/ s'.call[i].ret = Refused]_vars
AllReturn == \A i \in Ids : (i \in DOMAIN s.call) ~> Done(i)
=============================================================================

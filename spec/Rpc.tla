------------------------------- MODULE Rpc -------------------------------
(***************************************************************************)
(* Operations of a file server called through something in between: over   *)
(* the wire by way of the client library and the serving loop              *)
(* (protocol/genout.go, client.go, server.go), or through the debugging    *)
(* wrapper (pkg/debugfs).  Whatever is in between, a call becomes one      *)
(* operation of the file server, with the arguments of the call, and       *)
(* returns what that operation returned.                                   *)
(*                                                                         *)
(* The state is a record s:                                                *)
(*   call   the calls: op and f are what is asked for; st is "made" (the   *)
(*          operation has not begun), "inv" (it has been invoked, ans is   *)
(*          what it returned) or "done" (the call has returned ret)        *)
(*   gate   a version request has been invoked: before that the serving    *)
(*          loop refuses everything else                                   *)
(* An answer is a record [ok, err, f]: whether the operation succeeded,    *)
(* the text of its error, its results.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Version         \* the operation that opens the gate

With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
NoFn == [x \in {} |-> 0]

Start(kind) == [kind |-> kind, call |-> NoFn, gate |-> kind = "wrap"]

CanMake(s, i) == i \notin DOMAIN s.call
Make(s, i, op, f) == [s EXCEPT !.call = With(@, i, [op |-> op, f |-> f, st |-> "made"])]

\* The operation op is invoked with arguments f, for call i.
CanInvoke(s, i, op, f) == /\ i \in DOMAIN s.call /\ s.call[i].st = "made"
                          /\ s.call[i].op = op /\ s.call[i].f = f
                          /\ s.gate \/ op = Version
Invoke(s, i, ans) == [s EXCEPT !.call = With(@, i, With(With(@[i], "st", "inv"), "ans", ans)),
                               !.gate = @ \/ s.call[i].op = Version]

\* What is left of an answer that has passed what is in between.
MaxText == 65535
Cut(t) == IF Len(t) <= MaxText THEN t ELSE SubSeq(t, 1, MaxText)
Through(kind, a) == IF kind = "wrap" THEN a
                    ELSE IF a.ok THEN [ok |-> TRUE, err |-> <<>>, f |-> a.f]
                    ELSE [ok |-> FALSE, err |-> Cut(a.err), f |-> <<>>]
Refused == [ok |-> FALSE, err |-> <<-1>>, f |-> <<>>]      \* some error, not the file server's

\* What call i may return now.
Returns(s, i) ==
  IF i \notin DOMAIN s.call THEN {}
  ELSE CASE s.call[i].st = "inv" -> {Through(s.kind, s.call[i].ans)}
         [] s.call[i].st = "made" /\ ~s.gate -> {Refused}
         [] OTHER -> {}
Return(s, i, r) == [s EXCEPT !.call = With(@, i, With(With(@[i], "st", "done"), "ret", r))]
=============================================================================

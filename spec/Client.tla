------------------------------ MODULE Client ------------------------------
(***************************************************************************)
(* The 9P client (protocol/client.go and the Call functions): any number   *)
(* of goroutines make calls; each call puts one request on the connection, *)
(* under a tag taken from a pool, and returns what the reply with that tag *)
(* means for it; the connection can fail at any point, in either           *)
(* direction.                                                              *)
(*                                                                         *)
(* The state is a record s:                                                *)
(*   call   what became of each call: st is "made" (not sent yet), "sent", *)
(*          "got" (the reply is in) or "done", want is what it is to       *)
(*          return, ret what it returned                                   *)
(*   out    the tags in use and the calls they are of                      *)
(*   down   the directions in which the connection has failed: r, w        *)
(*   open   those that the client has not closed                           *)
(* Steps are functions from states to states, with their enabling          *)
(* conditions; ClientMC explores all of them, ClientTrace those recorded.  *)
(***************************************************************************)
EXTENDS Wire

CONSTANT MaxTag          \* tags are 1..MaxTag; 65534 in the code

With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Without(f, S) == [y \in DOMAIN f \ S |-> f[y]]
NoFn == [x \in {} |-> 0]

Lost == [k |-> "lost"]             \* an error: the connection failed
AnyErr == [k |-> "anyerr"]         \* an error of whatever text
ErrText(t) == [k |-> "err", t |-> t]
Result(f) == [k |-> "ok", f |-> f]
IsErr(r) == r.k # "ok"

\* What reply bytes b mean to a call of type ty.
Meaning(ty, b) ==
  LET d == DecodeFrame(b) IN
  IF ~d.ok THEN AnyErr
  ELSE IF d.m.ty = Rerror THEN ErrText(d.m.f[1])
  ELSE IF d.m.ty = ReplyOf(ty) THEN Result(d.m.f)
  ELSE AnyErr

Start == [call |-> NoFn, out |-> NoFn, down |-> {}, open |-> {"r", "w"}]

---------------------------------------------------------------------------
Tag(n) == 1 <= n /\ n <= MaxTag
Free(s) == {t \in 1..MaxTag : t \notin DOMAIN s.out}

\* Call i is made; rq is what it asks for.
CanMake(s, i) == i \notin DOMAIN s.call
Make(s, i, rq) == [s EXCEPT !.call = With(@, i, [st |-> "made", rq |-> rq, want |-> Lost, ret |-> Lost])]

\* The request of call i goes out with tag t.
CanSend(s, i, t) == /\ "w" \notin s.down
                    /\ i \in DOMAIN s.call /\ s.call[i].st \in {"made", "done"} /\ ~(s.call[i].st = "done" /\ s.down = {})
                    /\ Tag(t) /\ t \notin DOMAIN s.out
Send(s, i, t) == IF s.call[i].st = "done"      \* given up already: nobody waits for the reply
                 THEN [s EXCEPT !.out = With(@, t, 0)]
                 ELSE [s EXCEPT !.call[i].st = "sent", !.out = With(@, t, i)]

\* A complete reply with tag t comes in; Means(rq) is what it means to the
\* call whose request is rq.
CanReply(s) == "r" \notin s.down
Reply(s, t, Means(_)) ==
  IF t \notin DOMAIN s.out THEN s                  \* answers nothing
  ELSE LET i == s.out[t] IN
       IF i \notin DOMAIN s.call \/ s.call[i].st # "sent" THEN [s EXCEPT !.out = Without(@, {t})]
       ELSE [s EXCEPT !.out = Without(@, {t}), !.call[i].st = "got", !.call[i].want = Means(s.call[i].rq)]

\* The connection fails in one direction.
Break(s, side) == [s EXCEPT !.down = @ \cup {side}]

\* The client closes what is left of a connection that has failed.
CanLetGo(s, side) == s.down # {}
LetGo(s, side) == [s EXCEPT !.open = @ \ {side}]

\* What call i may return now.  When it is the writing that fails, a reply
\* may be on its way through the client and get lost.
Returns(s, i) ==
  IF i \notin DOMAIN s.call THEN {}
  ELSE CASE s.call[i].st = "got" -> {s.call[i].want} \cup (IF "w" \in s.down THEN {Lost} ELSE {})
         [] s.call[i].st \in {"made", "sent"} -> IF s.down # {} THEN {Lost} ELSE {}
         [] OTHER -> {}
Return(s, i, r) == [s EXCEPT !.call[i].st = "done", !.call[i].ret = r]

---------------------------------------------------------------------------
(***************************************************************************)
(* Properties of states                                                    *)
(***************************************************************************)
Outstanding(s) == {i \in DOMAIN s.call : s.call[i].st = "sent"}
\* C09: every call that waits for its reply has a tag of its own; no tag is
\* in use for a call that has its reply.
TagsRight(s) ==
  /\ \A t \in DOMAIN s.out : Tag(t)
  /\ \A i \in Outstanding(s) : Cardinality({t \in DOMAIN s.out : s.out[t] = i}) = 1
  /\ \A t \in DOMAIN s.out : s.out[t] # 0 => s.call[s.out[t]].st \in {"sent", "done"}
  /\ \A t \in DOMAIN s.out : (s.out[t] # 0 /\ s.call[s.out[t]].st = "done") => s.call[s.out[t]].ret = Lost
=============================================================================

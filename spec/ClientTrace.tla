---------------------------- MODULE ClientTrace ----------------------------
(***************************************************************************)
(* Checks recordings of the real client against Client.  Events:           *)
(*   call   call i is made: type ty, arguments f                           *)
(*   sent   a message has been written to the connection                   *)
(*   in     bytes have been read from the connection                       *)
(*   down   the connection failed for reading (r) or writing (w)           *)
(*   close  the client closed the direction side of the connection         *)
(*   ret    call i returned                                                *)
(*   bulk   n calls were all outstanding, and then all answered: for call  *)
(*          j its tag, the content sent to it and the content it returned  *)
(*   flood  more calls than there are tags, made at once; ordered by tag   *)
(*          and time: when each was sent and when it was answered (0: not  *)
(*          at all), the content sent to it and the content it returned    *)
(*   churn  n calls, each answered before the next was made: the same      *)
(*   jam    n calls, none of them answered before the connection failed:   *)
(*          how many returned a result and how many an error               *)
(*   fids   all numbers handed out by GetFID, in numeric order             *)
(*   end    the run is over; hung are calls that have not returned,        *)
(*          busy says that goroutines of the client are still there        *)
(***************************************************************************)
EXTENDS Client, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, k, s, buf, aux
vars == <<i, k, s, buf, aux>>

Evs == Trace[i].ev
E == Evs[k + 1]

\* aux: whether odd replies have come in, and whether a message has come in
\* pieces.
Init == i \in 1..Len(Trace) /\ k = 0 /\ s = Start /\ buf = <<>>
        /\ aux = [odd |-> FALSE, cut |-> FALSE]

\* calls that b can be the request of
Is(rq, b) == b = Encode([ty |-> rq.ty, tag |-> SubSeq(b, 6, 7), f |-> rq.f])
Of(b) == {j \in DOMAIN s.call : Is(s.call[j].rq, b)}

RECURSIVE Feed(_, _, _)
\* All complete messages at the start of bytes b come in.
Feed(t, b, odd) ==
  IF "r" \in t.down THEN [s |-> t, b |-> <<>>, odd |-> odd]
  ELSE IF BadSize(b) THEN [s |-> Break(t, "r"), b |-> <<>>, odd |-> TRUE]
  ELSE IF ~HasFrame(b) THEN [s |-> t, b |-> b, odd |-> odd]
  ELSE LET f == FirstFrame(b)
           tag == N2(SubSeq(f, 6, 7))
           M(rq) == Meaning(rq.ty, f)
           nx == Reply(t, tag, M)
           isodd == tag \notin DOMAIN t.out
                    \/ \E j \in DOMAIN nx.call : nx.call[j] # t.call[j] /\ nx.call[j].want.k = "anyerr"
       IN  Feed(nx, Drop(b, Len(f)), odd \/ isodd)

\* The recorded result of a call is r.
Allowed(j, e) ==
  \E r \in Returns(s, j) :
    CASE r.k = "ok" -> e.ok /\ e.f = r.f
      [] r.k = "err" -> ~e.ok /\ e.err = r.t
      [] OTHER -> ~e.ok

Distinct(q) == Cardinality({q[j] : j \in 1..Len(q)}) = Len(q)
Range(q) == {q[j] : j \in 1..Len(q)}
TagsOK(q) == Range(q) \cap DOMAIN s.out = {} /\ \A t \in Range(q) : Tag(t)

\* No two of the calls have the same tag at the same time.
Apart(e) == \A j \in 1..(Len(e.tag) - 1) : e.tag[j] = e.tag[j + 1] => e.ans[j] # 0 /\ e.ans[j] < e.sent[j + 1]

Explained ==
  CASE E.e = "call"  -> CanMake(s, E.i)
    [] E.e = "sent"  -> \E j \in Of(E.b) : CanSend(s, j, N2(SubSeq(E.b, 6, 7)))
    [] E.e = "in"    -> TRUE
    [] E.e = "down"  -> TRUE
    [] E.e = "close" -> CanLetGo(s, E.side)
    [] E.e = "ret"   -> Allowed(E.i, E)
    [] E.e = "bulk"  -> Distinct(E.tag) /\ TagsOK(E.tag) /\ E.got = E.val
    [] E.e = "churn" -> TagsOK(E.tag) /\ E.got = E.val
    [] E.e = "flood" -> TagsOK(E.tag) /\ Apart(E) /\ E.got = E.val
    [] E.e = "jam"   -> E.ok = 0 /\ E.bad = E.n
    [] E.e = "fids"  -> \A j \in 1..(Len(E.ids) - 1) : E.ids[j] < E.ids[j + 1]
    [] E.e = "end"   -> ~E.crash /\ E.hung = <<>> /\ E.rest = <<>> /\ (s.down # {} => s.open = {} /\ ~E.busy)
    [] OTHER -> FALSE

Step ==
  CASE E.e = "call" -> s' = Make(s, E.i, [ty |-> E.ty, f |-> E.f]) /\ UNCHANGED <<buf, aux>>
    [] E.e = "sent" -> LET t == N2(SubSeq(E.b, 6, 7))
                           j == CHOOSE j \in Of(E.b) : CanSend(s, j, t)
                       IN  s' = Send(s, j, t) /\ UNCHANGED <<buf, aux>>
    [] E.e = "in"   -> LET r == Feed(s, buf \o E.b, FALSE) IN
                         /\ s' = r.s /\ buf' = r.b
                         /\ aux' = [aux EXCEPT !.odd = @ \/ r.odd, !.cut = @ \/ r.b # <<>>]
    [] E.e = "down" -> s' = Break(s, E.side) /\ UNCHANGED <<buf, aux>>
    [] E.e = "close" -> s' = LetGo(s, E.side) /\ UNCHANGED <<buf, aux>>
    [] E.e = "ret"  -> s' = Return(s, E.i, IF E.ok THEN Result(<<>>) ELSE Lost) /\ UNCHANGED <<buf, aux>>
    [] OTHER -> UNCHANGED <<s, buf, aux>>

Conditions == (IF aux.odd THEN {"C11"} ELSE {}) \cup (IF s.down # {} THEN {"C10"} ELSE {})
              \cup (IF aux.cut /\ buf # <<>> THEN {"C02"} ELSE {})
Blame ==
  CASE E.e = "sent" ->
         IF Of(E.b) = {} THEN {"C05", "C06", "C08"}
         ELSE LET t == N2(SubSeq(E.b, 6, 7)) IN
              IF ~Tag(t) \/ t \in DOMAIN s.out THEN {"C09"} \cup (IF aux.odd THEN {"C11"} ELSE {}) ELSE {"C08"}
    [] E.e = "ret" ->
         LET c == s.call[E.i] IN
         (IF c.st = "got" /\ c.want.k = "anyerr" THEN {"C11"}
          ELSE IF c.st = "got" /\ s.down = {} THEN {"C08", "C06"} \cup Conditions
          ELSE IF c.st = "got" THEN {"C10"} \cup (IF E.ok THEN {"C08"} ELSE {})
          ELSE (IF E.ok THEN {"C08"} ELSE {}) \cup Conditions \cup (IF Conditions = {} THEN {"C08"} ELSE {})
               \cup (IF E.ok /\ buf # <<>> THEN {"C02"} ELSE {}))
    [] E.e = "bulk" -> IF Distinct(E.tag) /\ TagsOK(E.tag) THEN {"C08"} ELSE {"C09"}
    [] E.e = "churn" -> IF TagsOK(E.tag) THEN {"C08"} ELSE {"C09"}
    [] E.e = "flood" -> IF TagsOK(E.tag) /\ Apart(E) THEN {"C08", "C09"} ELSE {"C09"}
    [] E.e = "jam" -> {"C10"}
    [] E.e = "close" -> {"C33"}
    [] E.e = "fids" -> {"C12"}
    [] E.e = "end" ->
         IF E.crash THEN (IF Conditions \ {"C02"} # {} THEN Conditions \ {"C02"} ELSE {"C08", "C09", "C10", "C11", "C12"})
         ELSE IF E.hung # <<>> THEN
            (IF s.down # {} THEN {"C10"} ELSE {})
            \cup (IF s.down = {} THEN {"C08"} \cup Conditions ELSE {})
            \cup (IF \E j \in Range(E.hung) : j \in DOMAIN s.call /\ s.call[j].st = "made" /\ s.down = {} THEN {"C09"} ELSE {})
         ELSE IF E.rest = <<>> THEN {"C33"} ELSE {"C08", "C06"}
    [] OTHER -> {"C08"}

Says ==
  CASE E.e = "ret" -> ToString(<<s.call[E.i], Returns(s, E.i), s.down>>)
    [] E.e = "sent" -> ToString(<<Of(E.b), "tag outstanding", N2(SubSeq(E.b, 6, 7)) \in DOMAIN s.out>>)
    [] E.e = "end" -> ToString([j \in {x \in DOMAIN s.call : s.call[x].st # "done"} |-> s.call[j]])
    [] OTHER -> ""

Next ==
  /\ k < Len(Evs)
  /\ IF Explained
     THEN /\ Step
          /\ k' = k + 1
          /\ k' = Len(Evs) => PrintT("@@DONE " \o ToString(i))
     ELSE /\ PrintT("@@MISMATCH " \o ToJson([i |-> i, k |-> k + 1, blame |-> Blame, exp |-> Says]))
          /\ k' = Len(Evs) + 1
          /\ UNCHANGED <<s, buf, aux>>
  /\ UNCHANGED i

TraceSpec == Init /\ [][Next]_vars
TraceView == <<i, k>>
=============================================================================

----------------------------- MODULE ClientGen -----------------------------
(***************************************************************************)
(* Random behaviours of Client, as scripts for a peer of the real client:  *)
(* which calls are made, which are answered and how, what stray replies    *)
(* there are, where the connection fails, what is waited for.  Sending is  *)
(* left to the client: a call is taken to be sent at once.                 *)
(***************************************************************************)
EXTENDS Client, TLC, Json, IOUtils

LEN == atoi(IOEnv.LEN)
Focus == IOEnv.FOCUS          \* "plain", "odd", "break" or "all"

VARIABLES s, n, h
vars == <<s, n, h>>

Init == s = Start /\ n = 0 /\ h = <<>>

Pick(S) == RandomElement(S)
Ok(rq) == Result(<<>>)
FreeTag == CHOOSE t \in 1..MaxTag : t \notin DOMAIN s.out
TagOf(i) == CHOOSE t \in DOMAIN s.out : s.out[t] = i
Got == {i \in DOMAIN s.call : s.call[i].st = "got"}
Made == {i \in DOMAIN s.call : s.call[i].st = "made"}
Down == s.down # {}
Odd == Focus \in {"odd", "all"}
Breaks == Focus \in {"break", "all"}

Do(st, step) == s' = st /\ h' = Append(h, step) /\ n' = n + 1

Call == /\ Cardinality(DOMAIN s.call) < 40
        /\ LET i == Cardinality(DOMAIN s.call) + 1
               m == Make(s, i, i)
           IN  Do(IF Down \/ Free(s) = {} THEN m ELSE Send(m, i, FreeTag),
                  [s |-> "call", i |-> i])
Answer == /\ ~Down /\ Outstanding(s) # {}
          /\ \E i \in {Pick(Outstanding(s))} : \E k \in {Pick(1..12)} :
               Do(Reply(s, TagOf(i), Ok),
                  [s |-> "reply", i |-> i,
                   k |-> CASE k <= 2 -> "err"
                           [] k <= 4 /\ Odd -> "wrong"
                           [] k <= 6 /\ Odd -> "bad"
                           [] OTHER -> "ok"])
Stray == /\ Odd /\ ~Down
         /\ \E k \in {Pick({"zero", "notag", "free", "dup"})} :
              \E i \in {IF DOMAIN s.call \ Outstanding(s) = {} THEN 0 ELSE Pick(DOMAIN s.call \ Outstanding(s))} :
                \* dup: the tag of an answered call, which is nobody's
                Do(s, [s |-> "stray", k |-> IF i = 0 /\ k = "dup" THEN "free" ELSE k, i |-> i])
Wait == /\ Got # {}
        /\ \E i \in {Pick(Got)} : Do(Return(s, i, s.call[i].want), [s |-> "wait", i |-> i])
Fail == /\ Breaks /\ ~Down /\ n > 2
        /\ \E k \in {Pick({"eof", "err", "mid", "hdr", "badsize", "werr", "wpart", "stall", "close"})} :
             \E i \in {IF Outstanding(s) = {} THEN 0 ELSE Pick(Outstanding(s))} :
               Do(Break(s, IF k \in {"werr", "wpart"} THEN "w" ELSE "r"), [s |-> "break", k |-> k, i |-> i])

Step == \E w \in {Pick(1..20)} :
          CASE w <= 8 -> Call
            [] w <= 13 /\ ENABLED Answer -> Answer
            [] w <= 15 /\ ENABLED Wait -> Wait
            [] w <= 17 /\ ENABLED Stray -> Stray
            [] w = 18 /\ Breaks /\ ~Down /\ n > 2 -> Fail
            [] OTHER -> IF ~Down /\ Outstanding(s) # {} THEN Answer ELSE Call

Next == IF n < LEN /\ Cardinality(DOMAIN s.call) < 40 THEN Step
        ELSE IF n < LEN + 1 THEN /\ PrintT("@@GEN " \o ToJson([steps |-> h]))
                                 /\ n' = LEN + 1 /\ UNCHANGED <<s, h>>
        ELSE UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================

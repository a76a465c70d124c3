------------------------------- MODULE UfsGen -------------------------------
(***************************************************************************)
(* Histories for the real file server, made by random walks through Ufs.   *)
(* The state of the model is used to choose requests that are interesting  *)
(* in it: mostly on fids that are valid, names that are there, and so on,  *)
(* and now and then not.  FOCUS (environment) sets the mix of requests.    *)
(*                                                                         *)
(* Run with tlc -simulate; each behaviour prints its requests as JSON.     *)
(***************************************************************************)
EXTENDS Ufs, TLC, Json, IOUtils

Focus == IOEnv.FOCUS
MaxLen == atoi(IOEnv.LEN)
NConn == atoi(IOEnv.CONNS)
NFid == atoi(IOEnv.FIDS)

VARIABLES st, hist, tree0
vars == <<st, hist, tree0>>

R(n) == RandomElement(1..n)
Pick(S) == RandomElement(S)
Choose(s) == s[RandomElement(1..Len(s))]

---------------------------------------------------------------------------
N(p, k, perm, data) == [p |-> p, k |-> k, perm |-> perm, data |-> data, to |-> <<>>]
L(p, to) == [p |-> p, k |-> "l", perm |-> 511, data |-> <<>>, to |-> to]
Outside == <<N(<<"R">>, "d", 493, <<>>), N(<<"S">>, "f", 420, <<9>>), N(<<"D">>, "d", 493, <<>>),
             N(<<"D", "o">>, "f", 420, <<8, 8>>), N(<<"Rx">>, "d", 493, <<>>), N(<<"Rx", "z">>, "f", 420, <<7>>)>>
Tree(t) ==
  Outside \o
  CASE t = 1 -> <<N(<<"R", "a">>, "d", 493, <<>>), N(<<"R", "a", "x">>, "f", 420, <<1, 2, 3>>),
                  N(<<"R", "a", "y">>, "f", 256, <<4>>), N(<<"R", "b">>, "d", 493, <<>>),
                  N(<<"R", "f">>, "f", 438, <<5, 6, 7, 8, 9>>), N(<<"R", "g">>, "f", 420, <<>>),
                  N(<<"R", "ln">>, "l", 511, <<>>)>>
    [] t = 2 -> <<N(<<"R", "a">>, "d", 493, <<>>), N(<<"R", "a", "b">>, "d", 493, <<>>),
                  N(<<"R", "a", "b", "c">>, "d", 511, <<>>), N(<<"R", "a", "b", "c", "x">>, "f", 420, <<1>>),
                  N(<<"R", "a", "b", "y">>, "f", 128, <<2, 2>>), N(<<"R", "f">>, "f", 420, <<3, 4, 5>>),
                  N(<<"R", "d">>, "d", 365, <<>>), N(<<"R", "d", "x">>, "f", 420, <<6>>)>>
    [] t = 3 -> <<N(<<"R", "S">>, "f", 420, <<1>>), N(<<"R", "D">>, "d", 493, <<>>),
                  N(<<"R", "D", "x">>, "f", 420, <<2>>), N(<<"R", "a">>, "d", 448, <<>>),
                  N(<<"R", "e">>, "d", 73, <<>>), N(<<"R", "e", "x">>, "f", 420, <<3>>),
                  N(<<"R", "z">>, "d", 0, <<>>), N(<<"R", "f">>, "f", 0, <<4>>)>>
    [] t = 5 -> <<N(<<"R", "a">>, "d", 493, <<>>), N(<<"R", "a", "x">>, "f", 420, <<1, 2>>), N(<<"R", "a", "b">>, "d", 493, <<>>),
                  N(<<"R", "a", "b", "y">>, "f", 256, <<3>>), N(<<"R", "f">>, "f", 420, <<4, 5, 6>>), N(<<"R", "c">>, "d", 365, <<>>),
                  L(<<"R", "d">>, <<"R", "a">>), L(<<"R", "g">>, <<"R", "f">>), L(<<"R", "a", "e">>, <<"R", "a", "b">>),
                  L(<<"R", "ln">>, <<"R", "n1">>), L(<<"R", "a", "b", "ln">>, <<"R", "g">>), L(<<"R", "c", "x">>, <<"R", "d", "x">>),
                  L(<<"R", "b">>, <<"R", "b">>)>>
    [] t = 4 -> <<N(<<"R", "k1">>, "d", 493, <<>>), N(<<"R", "k1", "x">>, "f", 420, <<1, 1>>),
                  N(<<"R", "k1", "a">>, "d", 493, <<>>), N(<<"R", "k1", "a", "y">>, "f", 420, <<2>>),
                  N(<<"R", "k2">>, "d", 493, <<>>), N(<<"R", "k2", "x">>, "f", 420, <<3, 3>>),
                  N(<<"R", "k2", "a">>, "d", 493, <<>>), N(<<"R", "k2", "a", "y">>, "f", 256, <<4>>),
                  N(<<"R", "k3">>, "d", 493, <<>>), N(<<"R", "k3", "x">>, "f", 420, <<5, 5>>)>>

Confined == Focus = "C25"
Hosting == IOEnv.HOSTING = "1"
Names == {"a", "b", "x", "y", "f", "n1", "n2"}
NewNames == {"n1", "n2", "n3"}
FidPool == 1..NFid
EscNames == {<<"..", "S">>, <<"..", "..", "S">>, <<"..", "Rx", "z">>, <<"a", "..", "..", "S">>, <<"..", "D", "o">>,
             <<"..", "D">>, <<"..", "Rx">>, <<"", "..", "S">>, <<"HOST", "S">>, <<".", "..", "D", "o">>, <<"..", "n1">>,
             <<"..", "..", "..", "n2">>, <<"..", "R", "f">>, <<"a", "x">>, <<"a", "..", "f">>, <<"..", "D", "n3">>,
             <<"a", "b", "..", "..", "..", "..", "S">>, <<"..", "R", "..", "S">>, <<"nope", "..", "f">>}

NamePick(s, p) ==
  LET ch == IF Goal(s, p) # <<>> THEN Children(s, Goal(s, p)) ELSE Children(s, p)
      r == R(100)
  IN  IF r <= 68 /\ ch # {} THEN <<Pick(ch)>>
      ELSE IF r <= 82 \/ Confined THEN <<Pick(Names)>>
      ELSE IF r <= 90 THEN <<"..">>
      ELSE IF r <= 92 THEN <<".">>
      ELSE IF r <= 93 THEN <<"">>
      ELSE Pick(EscNames)

RECURSIVE GenNames(_, _, _)
GenNames(s, p, n) ==
  IF n = 0 THEN <<>>
  ELSE LET nm == NamePick(s, p) IN <<nm>> \o GenNames(s, Join(p, nm), n - 1)

Valid(s, c) == DOMAIN s.conn[c].fids
PFid(s, c) == IF Valid(s, c) # {} /\ R(12) > 1 THEN Pick(Valid(s, c)) ELSE Pick(FidPool)
PNew(s, c) == IF FidPool \ Valid(s, c) # {} /\ R(8) > 1 THEN Pick(FidPool \ Valid(s, c)) ELSE Pick(FidPool)
Where(s, c, f) == IF f \in Valid(s, c) THEN s.conn[c].fids[f].p ELSE Root
POpen(s, c) ==
  LET O == {f \in Valid(s, c) : s.conn[c].fids[f].o # "n"}
  IN  IF O # {} /\ R(8) > 1 THEN Pick(O) ELSE PFid(s, c)
\* with some predilection for fids of which Good holds
PBest(s, c, Good(_)) ==
  LET G == {f \in Valid(s, c) : Good(s.conn[c].fids[f])}
  IN  IF G # {} /\ R(5) > 1 THEN Pick(G) ELSE PFid(s, c)
Kind(s, p) == IF Goal(s, p) # <<>> THEN Node(s, Goal(s, p)).k ELSE IF Exists(s, p) THEN "l"
              ELSE IF Here(s, p) THEN Node(s, p).k ELSE "?"
Kids(s, p) == IF Goal(s, p) # <<>> THEN Children(s, Goal(s, p)) ELSE Children(s, p)

OK == [ok |-> TRUE, cap |-> 1000, top |-> 1000, msize |-> 8192]
DirPerm == <<493, 511, 448, 493, 365, 73, 0, 457>>
FilePerm == <<420, 438, 384, 256, 128, 0, 511, 292>>

GVersion(s, c) ==
  [op |-> "version", c |-> c, good |-> R(6) > 1, tiny |-> R(8) = 1, mk |-> Choose(<<"a", "b", "c">>), msize |-> 8192, r |-> OK]
GAttach(s, c) ==
  [op |-> "attach", c |-> c, fid |-> PNew(s, c), auth |-> R(15) = 1,
   name |-> IF Confined THEN <<<<"k1">>, <<"k2">>, <<"k3">>>>[c]
            ELSE IF R(10) <= 6 THEN <<>> ELSE IF R(3) = 1 THEN Pick(EscNames)
            ELSE LET p == Pick({p \in DOMAIN s.tree : Under(Root, p) /\ Node(s, p).k # "l"}) IN SubSeq(p, 2, Len(p)),
   abs |-> R(2) = 1, r |-> OK]
GWalk(s, c) ==
  LET f == PFid(s, c)
      n == Choose(<<0, 0, 1, 1, 1, 1, 1, 2, 2, 2, 3, 4, 16>>)
  IN  [op |-> "walk", c |-> c, fid |-> f, newfid |-> IF R(6) = 1 THEN f ELSE PNew(s, c),
       names |-> GenNames(s, Where(s, c, f), n), abs |-> R(6) = 1, r |-> OK]
GOpen(s, c) ==
  LET f == PBest(s, c, LAMBDA F : F.o = "n" /\ (Focus # "C17" \/ Kind(s, F.p) = "d"))
      d == Kind(s, Where(s, c, f)) = "d"
  IN  [op |-> "open", c |-> c, fid |-> f,
       m |-> IF d /\ R(5) > 1 THEN Choose(<<"r", "r", "x">>) ELSE Choose(<<"r", "r", "w", "rw", "rw", "rw", "x">>),
       trunc |-> R(IF d THEN 12 ELSE 5) = 1, r |-> OK]
GCreate(s, c) ==
  LET f == PBest(s, c, LAMBDA F : F.o = "n" /\ Kind(s, F.p) = "d")
      d == R(3) = 1
      ch == Kids(s, Where(s, c, f))
      r == R(10)
  IN  [op |-> "create", c |-> c, fid |-> f,
       name |-> IF r <= 6 THEN <<Pick(NewNames)>> ELSE IF r <= 8 /\ ch # {} THEN <<Pick(ch)>>
                ELSE IF Confined THEN <<Pick(Names)>>
                ELSE IF r = 9 THEN Pick(EscNames) ELSE Pick({<<"..">>, <<".">>, <<"">>, <<"nope", "n1">>, <<"a", "n1">>}),
       abs |-> R(6) = 1, dir |-> d, perm |-> Choose(IF d THEN DirPerm ELSE FilePerm),
       m |-> Choose(<<"r", "w", "rw", "rw", "rw", "x">>), trunc |-> R(6) = 1, r |-> OK]
GClunk(s, c) == [op |-> "clunk", c |-> c, fid |-> PFid(s, c), r |-> OK]
GRemove(s, c) ==
  [op |-> "remove", c |-> c,
   fid |-> PBest(s, c, LAMBDA F : Exists(s, F.p) /\ (Kind(s, F.p) # "d" \/ Kids(s, F.p) = {})), r |-> OK]
GStat(s, c) == [op |-> "stat", c |-> c, fid |-> PFid(s, c), r |-> OK]
GWstat(s, c) ==
  LET f == PBest(s, c, LAMBDA F : Exists(s, F.p))
      p == Where(s, c, f)
      kd == Kind(s, p)
      w == Choose(<<{"mode"}, {"ren"}, {"ren"}, {"len"}, {"len"}, {"mtime"}, {"atime"}, {"own"}, {},
                    {"ren", "len"}, {"mode", "ren"}, {"mode", "len"}, {"mode", "len", "mtime"}, {"mode", "len", "ren"},
                    {"ren", "mtime"}, {"own", "mode"}, {"own", "ren"}, {"own", "len"}, {"len", "ren", "mode", "mtime", "atime"}>>)
      what == IF kd = "l" THEN {"ren"} ELSE IF kd = "d" THEN w \ (IF R(3) = 1 THEN {} ELSE {"len"}) ELSE w
      dirs == {q \in DOMAIN s.tree : Under(Root, q) /\ Node(s, q).k = "d"}
      r == R(12)
      mv == IF r <= 4 THEN [abs |-> FALSE, name |-> <<Pick(NewNames)>>]
            ELSE IF r <= 6 THEN [abs |-> FALSE, name |-> <<Pick(Names)>>]
            ELSE IF Confined THEN [abs |-> FALSE, name |-> <<Pick(NewNames)>>]
            ELSE IF r <= 9 THEN LET q == Pick(dirs) IN [abs |-> TRUE, name |-> SubSeq(q, 2, Len(q)) \o <<Pick(Names \cup NewNames)>>]
            ELSE IF r = 10 THEN [abs |-> TRUE, name |-> Pick(EscNames)]
            ELSE IF r = 11 THEN [abs |-> FALSE, name |-> Pick(EscNames)]
            ELSE [abs |-> FALSE, name |-> Choose(<<<<Base(p)>>, <<"..">>, <<".">>, <<"nope", "n1">>, <<Base(p), "n1">>>>)]
      badperm == "mode" \in what /\ "ren" \in what /\ kd = "d"
  IN  [op |-> "wstat", c |-> c, fid |-> f,
       mode |-> IF "mode" \in what /\ ~badperm THEN Choose(IF kd = "d" THEN DirPerm ELSE FilePerm) ELSE -1,
       ren |-> "ren" \in what, abs |-> mv.abs, name |-> mv.name,
       len |-> IF "len" \in what THEN R(9) - 1 ELSE -1, hi |-> FALSE, neg |-> "len" \in what /\ R(10) = 1,
       mtime |-> IF "mtime" \in what THEN Choose(<<"1000000000", "1", "0", "2000000000", "2147483648", "4294967294">>) ELSE "",
       atime |-> IF "atime" \in what THEN "1500000000" ELSE "",
       own |-> "own" \in what, r |-> OK]

FLen(s, F) == IF F.oid = 0 THEN 0 ELSE Len(s.node[F.oid].data)
GRead(s, c) ==
  LET f == IF Focus = "C17" THEN PBest(s, c, LAMBDA F : F.o # "n" /\ s.node[F.oid].k = "d")
           ELSE IF Focus = "C16" THEN PBest(s, c, LAMBDA F : F.o \in {"r", "rw"} /\ s.node[F.oid].k = "f") ELSE POpen(s, c)
      F == IF f \in Valid(s, c) THEN s.conn[c].fids[f] ELSE NoFid
      d == F.o # "n" /\ s.node[F.oid].k = "d"
      far == F.oid # 0 /\ s.node[F.oid].far # <<>>
      hi == ~d /\ (IF far THEN R(2) = 1 ELSE R(25) = 1)
      len == IF hi /\ F.oid # 0 THEN Len(s.node[F.oid].far) ELSE FLen(s, F)
      z == F.seen = {} \/ R(5) = 1
  IN  [op |-> "read", c |-> c, fid |-> f, off |-> Choose(<<0, 0, R(len + 2) - 1, R(len + 2) - 1, len, 40>>),
       cnt |-> Choose(<<0, 1, 1, 2, 3, 5, 20, 1000, 1000000>>), neg |-> ~d /\ R(25) = 1, hi |-> hi,
       isdir |-> d, zero |-> z, ck |-> Choose(<<"big", "big", "big", "big", "tiny", "mid", "zero">>), r |-> OK]
GWrite(s, c) ==
  LET f == PBest(s, c, LAMBDA F : F.o \in {"w", "rw"})
      F == IF f \in Valid(s, c) THEN s.conn[c].fids[f] ELSE NoFid
      hi == R(IF Focus = "C16" THEN 12 ELSE 30) = 1
      len == IF hi /\ F.oid # 0 THEN Len(s.node[F.oid].far) ELSE FLen(s, F)
      n == Choose(<<0, 1, 1, 2, 3, 4>>)
      v == (Len(hist) * 5) % 240
  IN  [op |-> "write", c |-> c, fid |-> f,
       off |-> IF len > 30 THEN R(30) - 1 ELSE Choose(<<0, R(len + 1) - 1, R(len + 1) - 1, len, len, len + 2>>),
       data |-> [j \in 1..n |-> 1 + ((v + j) % 240)], neg |-> R(40) = 1, hi |-> hi, r |-> OK]
\* Something happens to the tree on the host, most often to what a fid designates.
GHost(s, c) ==
  LET ps == {q \in DOMAIN s.tree : Under(Root, q) /\ q # Root}
      fs == {s.conn[c].fids[f].p : f \in Valid(s, c)} \ {Root}
      dirs == {q \in ps \cup {Root} : Exists(s, q) /\ IsDir(s, q)}
      p == IF fs # {} /\ R(3) > 1 THEN Pick(fs) ELSE Pick(ps)
      d == IF dirs = {} THEN Root ELSE Pick(dirs)
      n == Append(d, Pick(Names \cup NewNames))
      kd == IF R(3) = 1 THEN "d" ELSE "f"
      w == Choose(<<"new", "write", "write", "chmod", "chmod", "touch", "del", "del", "mv", "mv">>)
      v == (Len(hist) * 11) % 200
      lead == IF w = "new" /\ R(5) = 1 THEN "l" ELSE kd
  IN  [op |-> "host", c |-> c, what |-> w, to |-> IF lead = "l" /\ R(8) > 1 THEN Pick(ps \cup {n}) ELSE <<>>,
       p |-> IF w = "new" THEN (IF R(2) = 1 /\ ~Here(s, p) THEN p ELSE n) ELSE p,
       q |-> IF R(3) > 1 THEN n ELSE Pick(ps), k |-> lead,
       perm |-> Choose(IF (w = "new" /\ kd = "d") \/ (w = "chmod" /\ Kind(s, p) = "d") THEN DirPerm ELSE FilePerm),
       data |-> IF w = "new" /\ lead # "f" THEN <<>> ELSE [j \in 1..R(5) - 1 |-> 1 + ((v + j) % 240)],
       mtime |-> Choose(<<"1000000001", "1", "1234567890", "2100000000">>), r |-> OK]

GFlush(s, c) == [op |-> "flush", c |-> c, r |-> OK]

Mix ==
  CASE Focus = "C13" -> <<"attach", "attach", "walk", "walk", "walk", "walk", "clunk", "clunk", "clunk", "remove", "open", "create", "stat", "read", "write", "wstat", "version">>
    [] Focus = "C14" -> <<"walk", "walk", "walk", "walk", "walk", "walk", "attach", "clunk", "clunk", "open", "create", "remove", "stat", "wstat">>
    [] Focus = "C15" -> <<"open", "open", "open", "walk", "walk", "clunk", "clunk", "read", "read", "write", "write", "create", "remove", "wstat", "attach", "version">>
    [] Focus = "C16" -> <<"open", "open", "walk", "read", "read", "read", "read", "write", "write", "write", "write", "create", "clunk", "wstat">>
    [] Focus = "C17" -> <<"open", "open", "walk", "read", "read", "read", "read", "read", "read", "read", "read", "create", "remove", "clunk", "wstat">>
    [] Focus = "C18" -> <<"walk", "walk", "walk", "create", "create", "wstat", "wstat", "wstat", "attach", "attach", "remove", "clunk", "stat", "open", "read", "write">>
    [] Focus = "C19" -> <<"create", "create", "create", "create", "walk", "walk", "walk", "attach", "clunk", "read", "write", "remove", "wstat", "open">>
    [] Focus = "C20" -> <<"remove", "remove", "remove", "walk", "walk", "walk", "walk", "attach", "create", "create", "open", "read", "write", "clunk">>
    [] Focus = "C21" -> <<"wstat", "wstat", "wstat", "wstat", "walk", "walk", "attach", "create", "open", "stat", "read", "write", "clunk">>
    [] Focus = "C22" -> <<"stat", "stat", "stat", "walk", "walk", "open", "create", "read", "write", "wstat", "attach", "clunk">>
    [] Focus = "C24" -> <<"version", "version", "attach", "attach", "walk", "walk", "open", "create", "read", "write", "stat", "clunk", "remove", "wstat">>
    [] Focus = "C32" -> <<"attach", "walk", "walk", "walk", "open", "open", "open", "create", "create", "clunk", "remove", "stat", "wstat", "read", "write", "version">>
    [] OTHER -> <<"attach", "walk", "walk", "walk", "open", "open", "create", "create", "clunk", "remove", "stat", "wstat", "wstat", "read", "read", "write", "write", "flush">>

\* Requests the specification says nothing about are not made: links that are
\* moved, possibly to where they lead, while the times of where they lead are
\* changed.  Connections that are to be told apart stay in their own
\* directories.
Fit(s, o) ==
  CASE o.op = "host" -> CanHost(s, o)
    [] o.op = "wstat" /\ o.ren /\ (o.mtime # "" \/ o.atime # "") -> Goal(s, Where(s, o.c, o.fid)) = Real(s, Where(s, o.c, o.fid))
    [] o.op \in {"remove", "wstat"} /\ Confined -> Len(Where(s, o.c, o.fid)) # 2
    [] OTHER -> TRUE

Make(s, c) ==
  LET m == IF Hosting /\ R(10) = 1 THEN "host" ELSE Choose(Mix) IN
  CASE m = "version" -> IF R(3) = 1 THEN GVersion(s, c) ELSE GStat(s, c)
    [] m = "attach" -> GAttach(s, c)
    [] m = "walk" -> GWalk(s, c)
    [] m = "open" -> GOpen(s, c)
    [] m = "create" -> GCreate(s, c)
    [] m = "clunk" -> GClunk(s, c)
    [] m = "remove" -> GRemove(s, c)
    [] m = "stat" -> GStat(s, c)
    [] m = "wstat" -> GWstat(s, c)
    [] m = "read" -> GRead(s, c)
    [] m = "write" -> GWrite(s, c)
    [] m = "flush" -> GFlush(s, c)
    [] m = "host" -> GHost(s, c)

\* Probes: look at fids afterwards.
Probes(s) ==
  LET open == {<<c, f>> \in (DOMAIN s.conn) \X FidPool :
                 f \in Valid(s, c) /\ s.conn[c].fids[f].o \in {"r", "rw"} /\ s.node[s.conn[c].fids[f].oid].k = "f"}
  IN [s |-> (DOMAIN s.conn) \X FidPool, r |-> open]

First(n) ==
  IF n < NConn THEN [op |-> "connect", c |-> n + 1, r |-> OK]
  ELSE IF n < 2 * NConn
  THEN [op |-> "version", c |-> n - NConn + 1, good |-> TRUE, tiny |-> FALSE, mk |-> Choose(<<"a", "b", "c">>), msize |-> 8192, r |-> OK]
  ELSE [op |-> "attach", c |-> n - 2 * NConn + 1, fid |-> 1, auth |-> FALSE,
        name |-> IF Confined THEN <<<<"k1">>, <<"k2">>, <<"k3">>>>[n - 2 * NConn + 1] ELSE <<>>, abs |-> TRUE, r |-> OK]

\* The next request.  A directory read does not change the state here.
Apply(s, o) == IF o.op = "read" THEN (IF o.isdir /\ o.fid \in Valid(s, o.c)
                                      THEN [s EXCEPT !.conn[o.c].fids[o.fid].seen = {"?"}] ELSE s)
               ELSE Op(s, o).st

Init == /\ tree0 \in (IF Confined THEN {4} ELSE IF Focus = "C31" THEN {5} ELSE {1, 2, 3, 5})
        /\ st = InitSt(Tree(tree0)) /\ hist = <<>>

\* Bound by \E over one-element sets: TLC evaluates each random choice once.
Choice ==
  LET n == Len(hist)
      c0 == R(NConn)
      again == \/ Confined /\ n > 3 * NConn /\ R(30) = 1
               \/ Focus = "C32" /\ n > 3 * NConn /\ R(10) = 1
      o0 == IF n < 3 * NConn THEN First(n)
            ELSE IF c0 \notin DOMAIN st.conn THEN [op |-> "connect", c |-> c0, r |-> OK]
            ELSE IF again THEN [op |-> "hangup", c |-> c0, r |-> OK]
            ELSE IF ~st.conn[c0].ver /\ R(3) > 1 THEN [GVersion(st, c0) EXCEPT !.good = TRUE, !.tiny = FALSE]
            ELSE Make(st, c0)
  IN  IF Fit(st, o0) THEN o0 ELSE GFlush(st, c0)

Next ==
  /\ Len(hist) < MaxLen
  /\ \E o \in {Choice} : \E s \in {Apply(st, o)} : \E p \in {R(3)} :
       /\ hist' = Append(hist, [o |-> o, pb |-> IF p = 1 THEN Probes(s) ELSE [s |-> {}, r |-> {}]])
       /\ st' = s
  /\ UNCHANGED tree0
  /\ Len(hist') = MaxLen => PrintT("@@GEN " \o ToJson([init |-> Tree(tree0), ops |-> hist']))

Spec == Init /\ [][Next]_vars
=============================================================================

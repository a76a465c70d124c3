------------------------------- MODULE UfsMC -------------------------------
(***************************************************************************)
(* Ufs on a small tree with few fids and names, all requests, to a bounded *)
(* number of steps.  What the file server promises is checked on each step *)
(* of the specification: that is the reference the real server is held to. *)
(***************************************************************************)
EXTENDS Ufs, TLC

CONSTANTS Conns, FidSet, Depth, Ops, Links

VARIABLES st, last, n
vars == <<st, last, n>>

N(p, k, perm, data) == [p |-> p, k |-> k, perm |-> perm, data |-> data, to |-> <<>>]
L(p, to) == [p |-> p, k |-> "l", perm |-> 511, data |-> <<>>, to |-> to]
Tree0 == IF Links THEN
         <<N(<<"R">>, "d", 493, <<>>), N(<<"S">>, "f", 420, <<9>>), N(<<"R", "d">>, "d", 493, <<>>),
           N(<<"R", "d", "x">>, "f", 420, <<1, 2>>), L(<<"R", "a">>, <<"R", "d">>), L(<<"R", "f">>, <<"R", "a", "x">>),
           L(<<"R", "d", "n">>, <<"R", "n">>)>>
         ELSE <<N(<<"R">>, "d", 493, <<>>), N(<<"S">>, "f", 420, <<9>>),
           N(<<"R", "a">>, "d", 493, <<>>), N(<<"R", "a", "x">>, "f", 420, <<1, 2>>), N(<<"R", "f">>, "f", 292, <<3>>),
           N(<<"R", "a", "n">>, "s", 420, <<>>)>>

Nm == {<<"a">>, <<"x">>, <<"n">>, <<"..">>, <<"..", "..", "S">>}
OKR == [ok |-> TRUE, cap |-> 1, top |-> 2, msize |-> 100]

Requests(s, c) ==
  LET F == FidSet IN
  IF c \notin DOMAIN s.conn THEN {[op |-> "connect", c |-> c]} ELSE
     (IF "hangup" \in Ops THEN {[op |-> "hangup", c |-> c]} ELSE {}) \cup
     (IF "version" \in Ops THEN {[op |-> "version", c |-> c, good |-> g, tiny |-> FALSE, msize |-> 100, r |-> OKR] : g \in BOOLEAN} ELSE {})
  \cup {[op |-> "attach", c |-> c, fid |-> f, auth |-> FALSE, name |-> <<>>, r |-> OKR] : f \in F}
  \cup {[op |-> "walk", c |-> c, fid |-> f, newfid |-> g, names |-> ns, r |-> OKR] :
          f \in F, g \in F, ns \in {<<>>, <<<<"a">>>>, <<<<"a">>, <<"x">>>>, <<<<"..", "S">>>>, <<<<"f">>>>, <<<<"a">>, <<"n">>>>}}
  \cup (IF "io" \in Ops THEN
          {[op |-> "open", c |-> c, fid |-> f, m |-> m, trunc |-> t, r |-> OKR] : f \in F, m \in {"r", "rw"}, t \in BOOLEAN}
          \cup {[op |-> "write", c |-> c, fid |-> f, off |-> o, data |-> <<7>>, neg |-> FALSE, hi |-> h, r |-> OKR] :
                  f \in F, o \in {0, 2}, h \in BOOLEAN}
          \cup UNION {
                LET d == f \in DOMAIN Fids(s, [c |-> c]) /\ Fids(s, [c |-> c])[f].o # "n"
                         /\ s.node[Fids(s, [c |-> c])[f].oid].k = "d"
                    left == IF d THEN (Fids(s, [c |-> c])[f].must \ Fids(s, [c |-> c])[f].seen) ELSE {}
                    rs == IF ~d THEN {OKR}
                          ELSE {[ok |-> TRUE, ents |-> <<>>]} \cup {[ok |-> TRUE, ents |-> <<[n |-> x]>>] : x \in left}
                IN {[op |-> "read", c |-> c, fid |-> f, off |-> 0, cnt |-> 2, neg |-> FALSE, hi |-> FALSE,
                     isdir |-> d, zero |-> z, room |-> 1000, size |-> [x \in {"a", "f", "n", "x"} |-> 60], r |-> r] :
                      z \in (IF d THEN BOOLEAN ELSE {FALSE}), r \in rs}
                : f \in F}
        ELSE {})
  \cup (IF "tree" \in Ops THEN
          {[op |-> "create", c |-> c, fid |-> f, name |-> x, dir |-> d, perm |-> 420, m |-> "rw", r |-> OKR] :
             f \in F, x \in Nm, d \in BOOLEAN}
          \cup {[op |-> "remove", c |-> c, fid |-> f, r |-> OKR] : f \in F}
          \cup {[op |-> "wstat", c |-> c, fid |-> f, mode |-> md, ren |-> x # <<>>, abs |-> ab, name |-> x, len |-> l,
                 mtime |-> "", atime |-> "", own |-> ow, hi |-> FALSE, neg |-> ow, r |-> OKR] :
                  f \in F, md \in {-1, 256}, ab \in BOOLEAN, x \in Nm \cup {<<>>}, l \in {-1, 0}, ow \in {FALSE}}
          \cup {[op |-> "wstat", c |-> c, fid |-> f, mode |-> 0, ren |-> FALSE, abs |-> FALSE, name |-> <<>>, len |-> 0,
                 mtime |-> "", atime |-> "", own |-> TRUE, hi |-> FALSE, neg |-> FALSE, r |-> OKR] : f \in F}
        ELSE {})
  \cup {[op |-> "clunk", c |-> c, fid |-> f, r |-> OKR] : f \in F}
  \cup {[op |-> "stat", c |-> c, fid |-> f, r |-> OKR] : f \in F}

\* Directory readings that do not follow the specification are not taken.
Legal(res) == (res.x # <<>> /\ "t" \in DOMAIN res.x /\ res.x.t = "dir") => res.x.good

Init == /\ st = [InitSt(Tree0) EXCEPT !.conn = [c \in Conns |-> [NewConn EXCEPT !.ver = "version" \notin Ops, !.cap = 2, !.top = 2, !.msize = 100]]]
        /\ last = [op |-> "none"] /\ n = 0
Next == /\ n < Depth
        /\ \E c \in Conns : \E e \in Requests(st, c) :
             LET res == Op(st, e) IN
               /\ Legal(res)
               /\ st' = res.st
               /\ last' = [e |-> e, res |-> res, op |-> e.op]
        /\ n' = n + 1
Spec == Init /\ [][Next]_vars
View == <<st, n>>

---------------------------------------------------------------------------
FidsOf(s, c) == s.conn[c].fids
E == last'.e
Res == last'.res
\* fids without what is known of directory readings
Bare(fs) == [f \in DOMAIN fs |-> [fs[f] EXCEPT !.must = {}, !.flux = {}]]

\* C26: refused requests have no effect (a remove gives up its fid)
Refused ==
  ~Res.ok => /\ st'.tree = st.tree /\ st'.node = st.node
             /\ IF E.op = "remove" THEN FidsOf(st', E.c) = Without(FidsOf(st, E.c), {E.fid})
                ELSE FidsOf(st', E.c) = FidsOf(st, E.c)
\* C25: other connections
Others == \A c \in DOMAIN st.conn \ {E.c} : c \in DOMAIN st'.conn /\ Bare(FidsOf(st', c)) = Bare(FidsOf(st, c)) /\ st'.conn[c].ver = st.conn[c].ver
                                    /\ st'.conn[c].msize = st.conn[c].msize
\* C13, C15, C20: a request concerns the fid it names, and the new one of a walk
Own == E.op # "version" =>
         LET touched == ({E.fid} \cup (IF E.op = "walk" THEN {E.newfid} ELSE {}))
             a == FidsOf(st, E.c)  b == FidsOf(st', E.c)
         IN /\ Bare(Without(b, touched)) = Bare(Without(a, touched))
            /\ (E.op = "walk" /\ E.newfid # E.fid /\ E.fid \in DOMAIN a) => b[E.fid] = a[E.fid]
            /\ E.op \in {"clunk", "remove"} => E.fid \notin DOMAIN b
            /\ (E.op = "clunk" /\ E.fid \in DOMAIN a) => Res.ok
            /\ (E.fid \notin DOMAIN a /\ E.op # "attach") => ~Res.ok
            /\ (E.op = "attach" /\ Res.ok) => E.fid \notin DOMAIN a /\ b[E.fid].p = Root
\* C14
WalkAll == (E.op = "walk" /\ E.fid \in DOMAIN FidsOf(st, E.c)) =>
             LET b == FidsOf(st', E.c) IN
             /\ Res.ok => Len(Res.x.ids) <= Len(E.names) /\ (E.names # <<>> => Res.x.ids # <<>>)
             /\ (Res.ok /\ Len(Res.x.ids) = Len(E.names)) => E.newfid \in DOMAIN b
             /\ (Res.ok /\ Len(Res.x.ids) = Len(E.names) /\ E.names # <<>>) => b[E.newfid].id = Res.x.ids[Len(E.names)]
             /\ (Res.ok /\ Len(Res.x.ids) < Len(E.names)) => b = FidsOf(st, E.c)
\* C15
IOMode == /\ (E.op \in {"read", "write"} /\ Res.ok) => FidsOf(st, E.c)[E.fid].o # "n"
          /\ (E.op = "write" /\ Res.ok) => FidsOf(st, E.c)[E.fid].o \in {"w", "rw"}
          /\ (E.op = "open" /\ Res.ok) => /\ FidsOf(st, E.c)[E.fid].o = "n" /\ FidsOf(st', E.c)[E.fid].o # "n"
                                          /\ (E.m = "rw" \/ E.trunc) => WBit(Node(st, FidsOf(st, E.c)[E.fid].p).perm)
\* C16
Data == /\ (E.op = "write" /\ Res.ok) =>
             LET id == FidsOf(st, E.c)[E.fid].oid IN
               /\ \A i \in DOMAIN st.node \ {id} : st'.node[i] = st.node[i]
               /\ ReadNode(st'.node[id], E.hi, E.off, 1) = E.data
               /\ \A o \in 0..3, h \in BOOLEAN :
                    (o # E.off \/ h # E.hi) =>
                      LET a == ReadNode(st.node[id], h, o, 1)  b == ReadNode(st'.node[id], h, o, 1)
                      IN a # <<>> => a = b
        /\ (E.op = "read" /\ Res.ok /\ ~E.isdir) => Len(Res.x.d) <= Min(E.cnt, st.conn[E.c].cap)
        /\ E.op \notin {"write", "create", "open", "wstat"} => st'.node = st.node
\* C17: at the end of a reading nothing that was there throughout is missing
Listing == (E.op = "read" /\ E.isdir /\ Res.ok /\ Res.why # "free" /\ E.r.ents = <<>>) =>
             FidsOf(st', E.c)[E.fid].must \subseteq FidsOf(st', E.c)[E.fid].seen
\* C18: the outside stays as it is and the root where it is
Contained == /\ {p \in DOMAIN st'.tree : ~Under(Root, p)} = {<<"S">>}
             /\ st'.tree[<<"S">>] = 2 /\ st'.node[2] = st.node[2]
             /\ st'.tree[Root] = 1
\* C19
Created == (E.op = "create" /\ Res.ok) =>
             LET f == FidsOf(st', E.c)[E.fid]  d == FidsOf(st, E.c)[E.fid].p IN
               /\ Here(st', f.p) /\ st'.tree[f.p] = f.id /\ Under(Root, f.p)
               /\ Node(st', f.p).data = <<>> /\ Node(st', f.p).k = IF E.dir THEN "d" ELSE "f"
               /\ ~Here(st, f.p) => Node(st', f.p).perm = E.perm
               /\ ~E.dir => f.o = "rw"
               /\ \A p \in DOMAIN st.tree : p \in DOMAIN st'.tree /\ st'.tree[p] = st.tree[p]
               /\ DOMAIN st'.tree \ DOMAIN st.tree \subseteq {f.p}
\* C20
Removed == (E.op = "remove" /\ Res.ok) =>
             LET p == FidsOf(st, E.c)[E.fid].p IN
               /\ st'.tree = Without(st.tree, {p}) /\ p # Root
               /\ Children(st, p) = {}
\* C21
Changed == (E.op = "wstat" /\ Res.ok) =>
             LET p == FidsOf(st, E.c)[E.fid].p  q == FidsOf(st', E.c)[E.fid].p IN
               /\ (~E.ren => p = q)
               /\ (Here(st, p) => /\ st'.tree[q] = st.tree[p]
                                  /\ LET a == Node(st, p)  b == Node(st', q) IN
                                       /\ b.perm = (IF E.mode = -1 THEN a.perm ELSE E.mode)
                                       /\ b.data = (IF E.len = -1 THEN a.data ELSE Resize(a.data, E.len)))
               /\ \A i \in DOMAIN st.node : (Here(st, p) /\ i = st.tree[p]) \/ st'.node[i] = st.node[i]
               /\ (p # q => ~Here(st', p))
\* special files stay special and have no content (that nothing opens them is in OpenHave)
Special == \A i \in DOMAIN st.node : st.node[i].k = "s" => st'.node[i].k = "s" /\ st'.node[i].data = <<>>
\* C24
Afresh == (E.op = "version") => (IF Res.ok THEN FidsOf(st', E.c) = [x \in {} |-> NoFid] ELSE FidsOf(st', E.c) = FidsOf(st, E.c))

\* Trees are trees.
WellFormed == \A p \in DOMAIN st.tree : Len(p) > 1 => Parent(p) \in DOMAIN st.tree /\ IsDir(st, Parent(p))
\* Open files keep their node even when it is removed.
OpenHave == \A c \in DOMAIN st.conn : \A f \in DOMAIN FidsOf(st, c) : FidsOf(st, c)[f].o # "n" =>
              FidsOf(st, c)[f].oid \in DOMAIN st.node /\ st.node[FidsOf(st, c)[f].oid].k # "s"

\* C31: handling a link is handling it, using it is using what it leads to.
Entry(s, c, f) == Real(s, FidsOf(s, c)[f].p)
LinkIds == {i \in DOMAIN st.node : st.node[i].k = "l"}
LinksKept ==
  \* links stay links, and lead where they did
  /\ \A i \in LinkIds : st'.node[i] = st.node[i]
  /\ (E.op = "remove" /\ Res.ok) => /\ st'.tree = Without(st.tree, {Entry(st, E.c, E.fid)}) /\ st'.node = st.node
                                    /\ Entry(st, E.c, E.fid) \in DOMAIN st.tree
  /\ (E.op = "wstat" /\ Res.ok /\ ~E.ren) => st'.tree = st.tree
  /\ (E.op = "wstat" /\ Res.ok /\ E.ren) =>
        /\ st'.tree[Entry(st', E.c, E.fid)] = st.tree[Entry(st, E.c, E.fid)]
        /\ st.tree[Entry(st, E.c, E.fid)] \in LinkIds =>
             /\ DOMAIN st.tree \ DOMAIN st'.tree \subseteq {Entry(st, E.c, E.fid)}
             /\ \A p \in DOMAIN st.tree \cap DOMAIN st'.tree : p # Entry(st', E.c, E.fid) => st'.tree[p] = st.tree[p]
  /\ (E.op \in {"open", "create"} /\ Res.ok) =>
        LET f == FidsOf(st', E.c)[E.fid] IN f.o # "n" => f.oid \notin LinkIds
  /\ (E.op = "wstat" /\ Res.ok /\ (E.mode # -1 \/ E.len # -1)) => Goal(st, FidsOf(st, E.c)[E.fid].p) # <<>>
  /\ (E.op = "stat" /\ Res.ok) => st.tree[Res.x.p] = st.tree[Entry(st, E.c, E.fid)]
  /\ (E.op = "create" /\ Res.ok) => Cardinality(DOMAIN st'.tree \ DOMAIN st.tree) <= 1 /\ DOMAIN st.tree \subseteq DOMAIN st'.tree
\* C32: what a connection held goes with it, and only that; one that comes has nothing
Ending == E.op \in {"hangup", "connect"}
Ended == /\ st'.tree = st.tree /\ st'.node = st.node /\ Others
         /\ E.op = "hangup" => /\ E.c \notin DOMAIN st'.conn
                               /\ OpenFids(st') = {x \in OpenFids(st) : x[1] # E.c}
         /\ E.op = "connect" => FidsOf(st', E.c) = [x \in {} |-> NoFid] /\ ~st'.conn[E.c].ver
\* what the host keeps open is what fids of connections that are there have open
Held == OpenFids(st) \subseteq ((DOMAIN st.conn) \X FidSet)

LinkPromises == [][Refused /\ Others /\ Own /\ WalkAll /\ Data /\ Contained /\ LinksKept]_vars

Promises == [][IF Ending THEN Ended /\ Contained
               ELSE Refused /\ Others /\ Own /\ WalkAll /\ IOMode /\ Data /\ Listing /\ Contained /\ Created /\ Removed
                    /\ Changed /\ Special /\ Afresh]_vars
=============================================================================

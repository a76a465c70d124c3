-------------------------------- MODULE Ufs --------------------------------
(***************************************************************************)
(* The file server of filesystem/filesystem.go: connections with their     *)
(* fids and open files, over one host tree.                                *)
(*                                                                         *)
(* The specification is functional: Op(st, e) gives, for state st and      *)
(* request e, the next state and what the reply has to be:                 *)
(*    [st |-> next, ok |-> is it granted, why |-> reason, x |-> content].  *)
(* Requests and replies are records; UfsTrace reads them from recordings   *)
(* of the real server, UfsGen makes them up, UfsMC enumerates them.        *)
(*                                                                         *)
(* Host paths are sequences of names starting at the directory that holds  *)
(* the exported one, so that there is an outside for clients to reach for: *)
(* <<"R">> is the exported root.                                           *)
(*                                                                         *)
(* File contents are sequences of blocks; the size of a block is chosen by *)
(* whoever binds the specification to the code.  Offsets, counts and       *)
(* lengths are in blocks.  Files have a second region far behind the first *)
(* (4 GB and more), so that offsets beyond 32 bits are in the model: far   *)
(* is what the file holds from there on.                                   *)
(*                                                                         *)
(* Symbolic links (k = "l") lead to the path to, or nowhere if that is     *)
(* empty; where they lead is below the root.  The host follows them where  *)
(* the operating system does: in the middle of paths, and at the end of    *)
(* those that are opened, attached to or changed, but not of those that    *)
(* are looked at, removed or moved.                                        *)
(*                                                                         *)
(* Special files (k = "s"; sockets stand for all of them) have a name and  *)
(* permissions like others, but cannot be opened and have no length that   *)
(* could be set.                                                           *)
(*                                                                         *)
(* The server runs as an ordinary user who owns all files: the owner's     *)
(* permission bits decide.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Root == <<"R">>

---------------------------------------------------------------------------
\* Paths and names
Parent(p) == SubSeq(p, 1, Len(p) - 1)
Base(p) == p[Len(p)]
Under(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p    \* q is p or below it

RECURSIVE Clean(_, _, _)
\* The path that the names cs lead to from p, lexically, not going above the
\* first floor names.
Clean(floor, p, cs) ==
  IF cs = <<>> THEN p
  ELSE LET c == Head(cs)
           q == IF c \in {"", "."} THEN p
                ELSE IF c = ".." THEN (IF Len(p) > floor THEN Parent(p) ELSE p)
                ELSE Append(p, c)
       IN  Clean(floor, q, Tail(cs))

Join(p, cs) == Clean(Len(Root), p, cs)

\* The path a wstat renames p to: absolute names are from the root, others
\* from the directory p is in and not above it.
RenameTo(p, abs, cs) == IF abs THEN Clean(Len(Root), Root, cs)
                        ELSE Clean(Len(p) - 1, Parent(p), cs)

---------------------------------------------------------------------------
\* The host tree: st.tree maps paths to nodes, st.node describes them.
Node(st, p) == st.node[st.tree[p]]
Here(st, p) == p \in DOMAIN st.tree
RBit(perm) == (perm \div 256) % 2 = 1
WBit(perm) == (perm \div 128) % 2 = 1
XBit(perm) == (perm \div 64) % 2 = 1
IsDir(st, p) == Node(st, p).k = "d"

RECURSIVE Look(_, _, _, _)
\* Where path p is in the tree when the links on the way are followed, and if
\* last, also one at its end, but not more than n; <<>> if a directory on the
\* way is not there or cannot be searched.
Look(st, p, last, n) ==
  LET d == IF Len(p) <= Len(Root) THEN <<>> ELSE Look(st, Parent(p), TRUE, n)
      q == IF Len(p) <= Len(Root) THEN p
           ELSE IF d = <<>> THEN <<>>
           ELSE IF ~Here(st, d) THEN <<>>
           ELSE IF ~IsDir(st, d) \/ ~XBit(Node(st, d).perm) THEN <<>>
           ELSE Append(d, Base(p))
  IN  IF q = <<>> \/ ~last \/ ~Here(st, q) THEN q
      ELSE IF Node(st, q).k # "l" THEN q
      ELSE IF n = 0 \/ Node(st, q).to = <<>> THEN <<>>
      ELSE Look(st, Node(st, q).to, TRUE, n - 1)

Real(st, p) == Look(st, p, FALSE, 8)
Aim(st, p) == Look(st, p, TRUE, 8)
Goal(st, p) == LET q == Aim(st, p) IN IF q # <<>> /\ Here(st, q) THEN q ELSE <<>>
\* There is something at p, possibly a link.
Exists(st, p) == LET q == Real(st, p) IN q # <<>> /\ Here(st, q)
\* p leads to a directory.
Leads(st, p) == LET q == Goal(st, p) IN q # <<>> /\ IsDir(st, q)
\* Names can be added to and taken from directory p.
Changeable(st, p) == LET q == Goal(st, p) IN
                       q # <<>> /\ IsDir(st, q) /\ WBit(Node(st, q).perm) /\ XBit(Node(st, q).perm)
IdAt(st, p) == st.tree[Real(st, p)]

Children(st, p) == {Base(q) : q \in {q \in DOMAIN st.tree : Len(q) = Len(p) + 1 /\ Under(p, q)}}

Pairs(f) == {<<x, f[x]>> : x \in DOMAIN f}
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Without(f, S) == [y \in DOMAIN f \ S |-> f[y]]

---------------------------------------------------------------------------
\* Contents
Zeros(n) == [i \in 1..n |-> 0]
Resize(d, n) == IF n <= Len(d) THEN SubSeq(d, 1, n) ELSE d \o Zeros(n - Len(d))
Put(d, off, b) == IF b = <<>> THEN d
                  ELSE LET e == Resize(d, IF off + Len(b) > Len(d) THEN off + Len(b) ELSE Len(d))
                       IN  [i \in 1..Len(e) |-> IF i > off /\ i <= off + Len(b) THEN b[i - off] ELSE e[i]]
Min(a, b) == IF a < b THEN a ELSE b
Get(d, off, n) == SubSeq(d, off + 1, Min(Len(d), off + n))

\* What reading n blocks at off of a region gives.
ReadNode(nd, hi, off, n) ==
  IF hi THEN Get(nd.far, off, n)
  ELSE IF nd.far = <<>> THEN Get(nd.data, off, n)
  ELSE [i \in 1..n |-> IF off + i <= Len(nd.data) THEN nd.data[off + i] ELSE 0]
WriteNode(nd, hi, off, b) ==
  IF hi THEN [nd EXCEPT !.far = Put(nd.far, off, b)]
  ELSE [nd EXCEPT !.data = Put(nd.data, off, b)]

---------------------------------------------------------------------------
(***************************************************************************)
(* Connections.  A fid has the path it designates (p), the node that was   *)
(* there when it was made (id), its open mode (o: n, r, w, rw), the node   *)
(* it is open on (oid), and for a directory being read: the entries there  *)
(* since the start of the reading (must), those that came or went during   *)
(* it (flux), those returned (seen), whether a record was held back for a  *)
(* read too small for it (held), and whether nothing can be said about     *)
(* this reading any more (lost).                                           *)
(***************************************************************************)
NoFid == [p |-> <<>>, id |-> 0, o |-> "n", oid |-> 0, must |-> {}, flux |-> {}, seen |-> {}, held |-> FALSE, lost |-> FALSE]
NewFid(st, p) == [NoFid EXCEPT !.p = p, !.id = IdAt(st, p)]
NewConn == [ver |-> FALSE, cap |-> 0, top |-> 1000000000, msize |-> 0, fids |-> [x \in {} |-> NoFid]]

Fids(st, e) == st.conn[e.c].fids
SetFid(st, e, fid, f) == [st EXCEPT !.conn[e.c].fids = With(@, fid, f)]
DelFid(st, e, fid) == [st EXCEPT !.conn[e.c].fids = Without(@, {fid})]

OpenFids(st) == {<<c, f>> \in (DOMAIN st.conn) \X (UNION {DOMAIN st.conn[c].fids : c \in DOMAIN st.conn}) :
                   f \in DOMAIN st.conn[c].fids /\ st.conn[c].fids[f].o # "n"}

Refuse(st, why) == [st |-> st, ok |-> FALSE, why |-> why, x |-> <<>>]
Grant(st, x) == [st |-> st, ok |-> TRUE, why |-> "", x |-> x]
\* Nothing is prescribed; the state stays.
Free(st, e) == [st |-> st, ok |-> e.r.ok, why |-> "free", x |-> <<>>]

\* The entry name in directory p came or went: readings in progress of that
\* directory may or may not show it.
Flux(st, p, name) ==
  IF ~Here(st, p) THEN st
  ELSE [st EXCEPT !.conn = [c \in DOMAIN st.conn |->
         [st.conn[c] EXCEPT !.fids = [f \in DOMAIN st.conn[c].fids |->
            LET F == st.conn[c].fids[f]
            IN  IF F.o # "n" /\ F.oid = st.tree[p]
                THEN [F EXCEPT !.must = @ \ {name}, !.flux = @ \cup {name}] ELSE F]]]]

AddNode(st, p, nd) ==
  LET id == st.next
  IN  Flux([st EXCEPT !.next = id + 1, !.node = With(st.node, id, nd), !.tree = With(st.tree, p, id)],
           Parent(p), Base(p))

DelNode(st, p) == Flux([st EXCEPT !.tree = Without(st.tree, {p})], Parent(p), Base(p))

MoveNode(st, p, q) ==
  LET inP == {x \in DOMAIN st.tree : Under(p, x)}
      to(x) == q \o SubSeq(x, Len(p) + 1, Len(x))
      back(y) == p \o SubSeq(y, Len(q) + 1, Len(y))
      newq == {to(x) : x \in inP}
      keep == (DOMAIN st.tree \ inP) \ {q}
      t == [y \in keep \cup newq |-> IF y \in newq THEN st.tree[back(y)] ELSE st.tree[y]]
  IN  IF p = q THEN st
      ELSE Flux(Flux([st EXCEPT !.tree = t], Parent(p), Base(p)), Parent(q), Base(q))

SetData(st, id, nd) == [st EXCEPT !.node[id] = nd]
EmptyFile(st, id) == [st EXCEPT !.node[id].data = <<>>, !.node[id].far = <<>>]

---------------------------------------------------------------------------
(***************************************************************************)
(* The requests                                                            *)
(***************************************************************************)
\* Version: everything before is forgotten.  The message size the server
\* answers with is its choice; msize and cap (the blocks of data that fit in
\* a reply) are taken from the reply.
Version(st, e) ==
  IF ~e.good THEN Refuse([st EXCEPT !.conn[e.c].ver = TRUE], "badversion")
  ELSE IF e.tiny THEN Refuse([st EXCEPT !.conn[e.c].ver = TRUE], "tinymsize")
  ELSE Grant([st EXCEPT !.conn[e.c] = [NewConn EXCEPT !.ver = TRUE, !.cap = e.r.cap, !.top = e.r.top, !.msize = e.r.msize]],
             [t |-> "version"])

Attach(st, e) ==
  LET p == Clean(Len(Root), Root, e.name) IN
  IF e.auth THEN Refuse(st, "auth")
  ELSE IF Goal(st, p) = <<>> THEN Refuse(st, "nofile")
  ELSE IF e.fid \in DOMAIN Fids(st, e) THEN Refuse(st, "inuse")
  ELSE Grant(SetFid(st, e, e.fid, NewFid(st, p)), [t |-> "qid", id |-> st.tree[Goal(st, p)]])

RECURSIVE WalkIds(_, _, _)
\* The paths that can be walked, one after the other, from p.
WalkIds(st, p, names) ==
  IF names = <<>> THEN <<>>
  ELSE LET q == Join(p, Head(names)) IN
       IF ~Exists(st, q) THEN <<>> ELSE <<q>> \o WalkIds(st, q, Tail(names))

Walk(st, e) ==
  IF e.fid \notin DOMAIN Fids(st, e) THEN Refuse(st, "nofid")
  ELSE
  LET f == Fids(st, e)[e.fid]
      ps == WalkIds(st, f.p, e.names)
      n == Len(ps)
      ids == [i \in 1..n |-> IdAt(st, ps[i])]
  IN
  IF e.names # <<>> /\ n = 0 THEN Refuse(st, "nofile")
  ELSE IF n < Len(e.names) THEN Grant(st, [t |-> "qids", ids |-> ids])
  ELSE IF e.newfid = e.fid THEN
     IF n = 0 THEN Grant(st, [t |-> "qids", ids |-> <<>>])
     ELSE IF f.o # "n" THEN Refuse(st, "isopen")
     ELSE Grant(SetFid(st, e, e.fid, NewFid(st, ps[n])), [t |-> "qids", ids |-> ids])
  ELSE IF e.newfid \in DOMAIN Fids(st, e) THEN Refuse(st, "inuse")
  ELSE Grant(SetFid(st, e, e.newfid,
                    IF n = 0 THEN [NoFid EXCEPT !.p = f.p, !.id = f.id] ELSE NewFid(st, ps[n])),
             [t |-> "qids", ids |-> ids])

Reads(m) == m \in {"r", "rw", "x"}
Writes(m) == m \in {"w", "rw"}
Opened(m) == CASE m = "x" -> "r" [] OTHER -> m
\* The permissions grant opening in mode m (execution counts as reading).
Permits(perm, m, trunc) == (Reads(m) => RBit(perm)) /\ ((Writes(m) \/ trunc) => WBit(perm))

StartDir(st, p, f) == [f EXCEPT !.must = Children(st, p), !.flux = {}, !.seen = {}, !.held = FALSE, !.lost = FALSE]

Open(st, e) ==
  IF e.fid \notin DOMAIN Fids(st, e) THEN Refuse(st, "nofid")
  ELSE
  LET f == Fids(st, e)[e.fid] IN
  IF f.o # "n" THEN Refuse(st, "isopen")
  ELSE
  LET p == Goal(st, f.p) IN
  IF p = <<>> THEN Refuse(st, "nofile")
  ELSE IF Node(st, p).k = "s" THEN Refuse(st, "special")
  ELSE IF ~Permits(Node(st, p).perm, e.m, e.trunc) THEN Refuse(st, "perm")
  ELSE IF IsDir(st, p) /\ (Writes(e.m) \/ e.trunc) THEN Refuse(st, "isdir")
  ELSE
  LET id == st.tree[p]
      g == [f EXCEPT !.o = Opened(e.m), !.oid = id, !.id = id]
      s == IF e.trunc THEN EmptyFile(st, id) ELSE st
  IN  Grant(SetFid(s, e, e.fid, IF IsDir(st, p) THEN StartDir(st, p, g) ELSE g),
            [t |-> "open", id |-> id])

\* An existing file is truncated and opened if its own permissions grant it;
\* a link is followed, and the file it leads to made if need be (but not for a
\* directory).  The qid in the reply may then be that of either.
Create(st, e) ==
  IF e.fid \notin DOMAIN Fids(st, e) THEN Refuse(st, "nofid")
  ELSE
  LET f == Fids(st, e)[e.fid]
      p == Join(f.p, e.name)
      ex == Exists(st, p)
      link == ex /\ Node(st, Real(st, p)).k = "l"
      a == IF e.dir THEN Real(st, p) ELSE Aim(st, p)
      new == [k |-> IF e.dir THEN "d" ELSE "f", perm |-> e.perm, data |-> <<>>, far |-> <<>>, to |-> <<>>]
      opened(s) == SetFid(s, e, e.fid, [NewFid(s, p) EXCEPT !.o = Opened(e.m), !.oid = s.tree[a]])
      t == IF link THEN "made" ELSE "open"
      lid == IF link THEN st.tree[Real(st, p)] ELSE 0
  IN
  IF f.o # "n" THEN Refuse(st, "isopen")
  ELSE IF ~Leads(st, f.p) THEN Refuse(st, "nodir")
  ELSE IF ex /\ (e.dir \/ Leads(st, p)) THEN Refuse(st, "exists")
  ELSE IF a = <<>> THEN Refuse(st, "nodir")
  ELSE IF Here(st, a) THEN
    IF Node(st, a).k = "s" THEN Refuse(st, "special")
    ELSE IF ~Permits(Node(st, a).perm, e.m, TRUE) THEN Refuse(st, "perm")
    ELSE Grant(opened(EmptyFile(st, st.tree[a])), [t |-> t, id |-> st.tree[a], lid |-> lid])
  ELSE IF ~Changeable(st, Parent(a)) THEN Refuse(st, "perm")
  ELSE
  LET s == AddNode(st, a, new) IN
  Grant(IF e.dir THEN SetFid(s, e, e.fid, NewFid(s, p)) ELSE opened(s),
        [t |-> t, id |-> s.tree[a], lid |-> lid])

Clunk(st, e) ==
  IF e.fid \notin DOMAIN Fids(st, e) THEN Refuse(st, "nofid")
  ELSE Grant(DelFid(st, e, e.fid), [t |-> "none"])

\* The fid is gone whatever happens.
Remove(st, e) ==
  IF e.fid \notin DOMAIN Fids(st, e) THEN Refuse(st, "nofid")
  ELSE
  LET p == Real(st, Fids(st, e)[e.fid].p)
      s == DelFid(st, e, e.fid)
  IN
  IF Fids(st, e)[e.fid].p = Root THEN Refuse(s, "root")
  ELSE IF p = <<>> \/ ~Here(st, p) THEN Refuse(s, "nofile")
  ELSE IF ~Changeable(st, Parent(p)) THEN Refuse(s, "perm")
  ELSE IF IsDir(st, p) /\ Children(st, p) # {} THEN Refuse(s, "notempty")
  ELSE Grant(DelNode(s, p), [t |-> "none"])

Stat(st, e) ==
  IF e.fid \notin DOMAIN Fids(st, e) THEN Refuse(st, "nofid")
  ELSE
  LET p == Fids(st, e)[e.fid].p IN
  IF ~Exists(st, p) THEN Refuse(st, "nofile")
  ELSE Grant(st, [t |-> "stat", p |-> Real(st, p)])

\* e.mode: new permissions or -1; e.ren: is there a name (e.abs, e.name);
\* e.len: new length or -1 (e.hi: it ends in the region far behind, e.neg: it
\* is not a possible one); e.own: another owner or group is asked for;
\* e.mtime, e.atime: new times or "".
Wstat(st, e) ==
  IF e.fid \notin DOMAIN Fids(st, e) THEN Refuse(st, "nofid")
  ELSE
  LET f == Fids(st, e)[e.fid]
      touch == e.len # -1 \/ e.mode # -1 \/ e.mtime # "" \/ e.atime # ""
      to == RenameTo(f.p, e.abs, e.name)
      p == Real(st, f.p)             \* what is moved
      g == Goal(st, f.p)             \* what is changed
      q == Real(st, to)
      s1 == IF e.len = -1 THEN st
            ELSE SetData(st, st.tree[g], IF e.hi THEN [Node(st, g) EXCEPT !.far = Resize(@, e.len)]
                                           ELSE [Node(st, g) EXCEPT !.data = Resize(@, e.len), !.far = <<>>])
      s2 == IF e.mode = -1 THEN s1 ELSE [s1 EXCEPT !.node[s1.tree[g]].perm = e.mode]
      s3 == SetFid(MoveNode(s2, p, q), e, e.fid, [Fids(MoveNode(s2, p, q), e)[e.fid] EXCEPT !.p = to])
  IN
  IF e.own THEN Refuse(st, "owner")
  ELSE IF ~touch /\ ~e.ren THEN Grant(st, [t |-> "none"])
  ELSE IF p = <<>> \/ ~Here(st, p) \/ (touch /\ g = <<>>) THEN Refuse(st, "nofile")
  ELSE IF e.len # -1 /\ (Node(st, g).k # "f" \/ ~WBit(Node(st, g).perm) \/ e.neg) THEN Refuse(st, "length")
  \* the new permissions are in force when the times are set and it is moved
  ELSE IF ~e.ren THEN
    IF (e.mtime # "" \/ e.atime # "") /\ Goal(s2, f.p) = <<>> THEN Refuse(st, "search") ELSE Grant(s2, [t |-> "none"])
  ELSE IF f.p = Root THEN Refuse(st, "root")
  ELSE IF Leads(s2, to) THEN Refuse(st, "isdir")
  ELSE IF Real(s2, f.p) = <<>> \/ Real(s2, to) = <<>> THEN Refuse(st, "nodir")
  \* a link does not take the place of what it leads to, nor of a link that it leads to that by
  ELSE IF Node(st, p).k = "l" /\ f.p # to /\ Goal(s2, f.p) # <<>> /\ Goal(s2, f.p) = Goal(s2, to) THEN Refuse(st, "samefile")
  ELSE IF p = q THEN Grant(SetFid(s2, e, e.fid, [f EXCEPT !.p = to]), [t |-> "none"])
  ELSE IF ~Changeable(s2, Parent(p)) \/ ~Changeable(s2, Parent(q)) THEN Refuse(st, "perm")
  ELSE IF IsDir(st, p) /\ (Under(p, q) \/ Here(st, q)) THEN Refuse(st, "isdir")
  ELSE IF IsDir(st, p) /\ Parent(p) # Parent(q) /\ ~WBit(Node(s2, p).perm) THEN Refuse(st, "perm")
  ELSE Grant(s3, [t |-> "none"])

\* Reading of a file.  e.neg: the offset is not a possible one.
ReadFile(st, e, f) ==
  IF e.cnt = 0 THEN (IF e.r.ok THEN Grant(st, [t |-> "data", d |-> <<>>, most |-> <<>>]) ELSE Refuse(st, "zero"))
  ELSE IF f.o = "w" THEN Refuse(st, "mode")
  ELSE IF e.neg THEN Refuse(st, "offset")
  ELSE Grant(st, [t |-> "data", d |-> ReadNode(st.node[f.oid], e.hi, e.off, Min(e.cnt, st.conn[e.c].cap)),
                  most |-> ReadNode(st.node[f.oid], e.hi, e.off, Min(e.cnt, st.conn[e.c].top))])

(***************************************************************************)
(* Reading of a directory.  The reply (e.r.ents, the names in it) tells    *)
(* which entries it was.  e.zero: from the start.  e.room: how many bytes  *)
(* the reply may hold; e.size[n]: the size of the record of name n.        *)
(***************************************************************************)
ReadDir(st, e, f0) ==
  LET at == Goal(st, f0.p)
      f == IF e.zero /\ at # <<>> THEN StartDir(st, at, f0) ELSE f0
      names == {e.r.ents[i].n : i \in 1..Len(e.r.ents)}
      left == f.must \ f.seen
      g == [f EXCEPT !.seen = @ \cup names, !.held = names = {}]
  IN
  \* the fid's path has come to be something else: nothing is prescribed
  IF at = <<>> \/ (at # <<>> /\ (st.tree[at] # f.oid \/ ~XBit(Node(st, at).perm)))
  THEN Free(SetFid(st, e, e.fid, [f EXCEPT !.lost = TRUE]), e)
  ELSE IF f.lost THEN Free(st, e)
  ELSE IF ~e.r.ok THEN Grant(st, [t |-> "dir", good |-> FALSE, fresh |-> FALSE, p |-> at])
  ELSE Grant(SetFid(st, e, e.fid, g),
             [t |-> "dir", p |-> at, fresh |-> ~f.held,
              good |->
                /\ names \subseteq (f.must \ f.seen) \cup f.flux
                /\ Cardinality(names) = Len(e.r.ents)
                /\ names = {} => \/ left = {}
                                 \/ \E n \in left \cup f.flux : n \in DOMAIN e.size => e.size[n] > e.room])

Read(st, e) ==
  IF e.fid \notin DOMAIN Fids(st, e) THEN Refuse(st, "nofid")
  ELSE
  LET f == Fids(st, e)[e.fid] IN
  IF f.o = "n" THEN Refuse(st, "notopen")
  ELSE IF st.node[f.oid].k = "d" THEN ReadDir(st, e, f)
  ELSE ReadFile(st, e, f)

Write(st, e) ==
  IF e.fid \notin DOMAIN Fids(st, e) THEN Refuse(st, "nofid")
  ELSE
  LET f == Fids(st, e)[e.fid] IN
  IF f.o = "n" THEN Refuse(st, "notopen")
  ELSE IF e.data = <<>> THEN (IF e.r.ok THEN Grant(st, [t |-> "count", n |-> 0]) ELSE Refuse(st, "zero"))
  ELSE IF f.o = "r" THEN Refuse(st, "mode")
  ELSE IF e.neg THEN Refuse(st, "offset")
  ELSE Grant(SetData(st, f.oid, WriteNode(st.node[f.oid], e.hi, e.off, e.data)),
             [t |-> "count", n |-> Len(e.data)])

Flush(st, e) == Grant(st, [t |-> "none"])

(***************************************************************************)
(* The tree is not the server's alone: e.what of path e.p is done to it on *)
(* the host.  Fids designate paths, open files are the nodes they were     *)
(* opened on.                                                              *)
(***************************************************************************)
CanHost(st, e) ==
  /\ Under(Root, e.p) /\ e.p # Root /\ Real(st, e.p) = e.p
  /\ CASE e.what = "new" -> ~Here(st, e.p) /\ Changeable(st, Parent(e.p))
       [] e.what = "write" -> Exists(st, e.p) /\ Node(st, e.p).k = "f" /\ WBit(Node(st, e.p).perm)
       [] e.what = "chmod" -> Exists(st, e.p) /\ Node(st, e.p).k # "l"
       [] e.what = "touch" -> Exists(st, e.p) /\ Node(st, e.p).k # "l"
       [] e.what = "del" -> Exists(st, e.p) /\ Changeable(st, Parent(e.p)) /\ Children(st, e.p) = {}
       [] e.what = "mv" -> /\ Exists(st, e.p) /\ Changeable(st, Parent(e.p))
                           /\ Under(Root, e.q) /\ e.q # Root /\ ~Under(e.p, e.q) /\ Real(st, e.q) = e.q
                           /\ Changeable(st, Parent(e.q))
                           /\ Here(st, e.q) => ~IsDir(st, e.p) /\ ~IsDir(st, e.q)
                           /\ IsDir(st, e.p) => WBit(Node(st, e.p).perm)
Host(st, e) ==
  Grant(CASE e.what = "new" -> AddNode(st, e.p, [k |-> e.k, perm |-> e.perm, data |-> e.data, far |-> <<>>, to |-> e.to])
          [] e.what = "write" -> SetData(st, st.tree[e.p], [Node(st, e.p) EXCEPT !.data = e.data, !.far = <<>>])
          [] e.what = "chmod" -> [st EXCEPT !.node[st.tree[e.p]].perm = e.perm]
          [] e.what = "touch" -> st
          [] e.what = "del" -> DelNode(st, e.p)
          [] e.what = "mv" -> MoveNode(st, e.p, e.q),
        [t |-> "none"])

\* Connections come and go.
Connect(st, e) == Grant([st EXCEPT !.conn = With(@, e.c, NewConn)], [t |-> "none"])
Hangup(st, e) == Grant([st EXCEPT !.conn = Without(@, {e.c})], [t |-> "none"])

Op(st, e) ==
  CASE e.op = "connect" -> Connect(st, e)
    [] e.op = "hangup" -> Hangup(st, e)
    [] e.op = "nop" -> Grant(st, [t |-> "none"])
    [] e.op = "host" -> Host(st, e)
    [] e.op = "version" -> Version(st, e)
    [] ~st.conn[e.c].ver -> Refuse(st, "gate")
    [] e.op = "attach" -> Attach(st, e)
    [] e.op = "walk" -> Walk(st, e)
    [] e.op = "open" -> Open(st, e)
    [] e.op = "create" -> Create(st, e)
    [] e.op = "clunk" -> Clunk(st, e)
    [] e.op = "remove" -> Remove(st, e)
    [] e.op = "stat" -> Stat(st, e)
    [] e.op = "wstat" -> Wstat(st, e)
    [] e.op = "read" -> Read(st, e)
    [] e.op = "write" -> Write(st, e)
    [] e.op = "flush" -> Flush(st, e)

---------------------------------------------------------------------------
\* Initial state for a host tree given as a sequence of [p, k, perm, data, to].
InitSt(ns) ==
  [tree |-> [p \in {ns[i].p : i \in 1..Len(ns)} |-> CHOOSE i \in 1..Len(ns) : ns[i].p = p],
   node |-> [i \in 1..Len(ns) |-> [k |-> ns[i].k, perm |-> ns[i].perm, data |-> ns[i].data, far |-> <<>>, to |-> ns[i].to]],
   next |-> Len(ns) + 1,
   conn |-> [c \in {} |-> NewConn]]
=============================================================================

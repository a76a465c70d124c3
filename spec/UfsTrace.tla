------------------------------ MODULE UfsTrace ------------------------------
(***************************************************************************)
(* Checks recordings of the real file server against Ufs.  Each line of    *)
(* the trace file is one history: init is the host tree at the start, ev   *)
(* the requests made, in order, each with its arguments, its reply r, the  *)
(* host tree found afterwards (snap, if snapd) and the number of the       *)
(* server's open files (fds).                                              *)
(*                                                                         *)
(* With conc, connections ran at the same time: the order of events is     *)
(* theirs only within a connection, and nothing that depends on the order  *)
(* between connections is judged, such as the reuse of a removed file's    *)
(* identity.                                                               *)
(*                                                                         *)
(* Beyond the state of Ufs: qb maps nodes to the qid path the server gave  *)
(* them, vb nodes to their qid version, while nothing happens; ps is the   *)
(* host tree after the event before; aux remembers which fids were given   *)
(* up by a remove and how many version requests there were.                *)
(***************************************************************************)
EXTENDS Ufs, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, k, st, qb, vb, ps, aux
vars == <<i, k, st, qb, vb, ps, aux>>

Evs == Trace[i].ev
\* An event that leaves the host tree as it was does not repeat it.
E == LET e == Evs[k + 1] IN IF e.same THEN [e EXCEPT !.snap = ps] ELSE e

EmptyFn == [x \in {} |-> 0]
Init == /\ i \in 1..Len(Trace) /\ k = 0
        /\ st = InitSt(Trace[i].init)
        /\ qb = EmptyFn /\ vb = EmptyFn /\ ps = <<>>
        /\ aux = [rem |-> {}, walked |-> {}, vers |-> EmptyFn, hung |-> FALSE, seen |-> EmptyFn, agreed |-> EmptyFn]

---------------------------------------------------------------------------
\* The host tree against the model's
RECURSIVE Trim(_)
Trim(d) == IF d # <<>> /\ d[Len(d)] = 0 THEN Trim(SubSeq(d, 1, Len(d) - 1)) ELSE d

SameNode(nd, s) ==
  /\ nd.k = s.k
  /\ nd.k # "l" => nd.perm = s.perm
  /\ nd.k = "f" => /\ nd.far = s.far
                   /\ IF nd.far = <<>> THEN nd.data = s.data ELSE Trim(nd.data) = Trim(s.data)

Inside(p) == Under(Root, p) /\ p # Root
SnapHas(snap, p) == \E j \in 1..Len(snap) : snap[j].p = p
SnapAt(snap, p) == snap[CHOOSE j \in 1..Len(snap) : snap[j].p = p]

\* paths at which tree and host differ
TreeDiff(s, snap) ==
  {snap[j].p : j \in {j \in 1..Len(snap) :
      snap[j].p \notin DOMAIN s.tree \/ ~SameNode(s.node[s.tree[snap[j].p]], snap[j])}}
  \cup (IF Len(snap) = Cardinality(DOMAIN s.tree) THEN {}
        ELSE {p \in DOMAIN s.tree : ~SnapHas(snap, p)})

\* The nodes a request is about: their times may change.
FidOf(e) == IF "fid" \in DOMAIN e /\ e.c \in DOMAIN st.conn /\ e.fid \in DOMAIN Fids(st, e)
            THEN {Fids(st, e)[e.fid]} ELSE {}
Target(e, s) ==
  {f.oid : f \in FidOf(e)}
  \cup {st.tree[p] : p \in UNION {{f.p, Real(st, f.p), Goal(st, f.p)} : f \in FidOf(e)} \cap DOMAIN st.tree}
  \cup (IF e.op = "create" THEN {s.tree[p] : p \in {Goal(s, Join(f.p, e.name)) : f \in FidOf(e)} \cap DOMAIN s.tree} ELSE {})

\* paths whose identity or times changed though nothing was to happen to them
Stirred(s, e) ==
  IF ps = <<>> \/ e.op = "host" THEN {}
  ELSE IF ~e.r.ok THEN (IF e.snap = ps THEN {} ELSE
         {e.snap[j].p : j \in {j \in 1..Len(e.snap) : ~SnapHas(ps, e.snap[j].p) \/ SnapAt(ps, e.snap[j].p) # e.snap[j]}}
         \cup {ps[j].p : j \in {j \in 1..Len(ps) : ~SnapHas(e.snap, ps[j].p)}})
  ELSE LET tgt == Target(e, s) IN
       {e.snap[j].p : j \in {j \in 1..Len(e.snap) :
          LET p == e.snap[j].p IN
            /\ Here(st, p) /\ Here(s, p) /\ st.tree[p] = s.tree[p]
            /\ SnapHas(ps, p)
            /\ LET o == SnapAt(ps, p) IN
                 \/ o.ino # e.snap[j].ino
                 \/ /\ o.mtn # e.snap[j].mtn
                    /\ st.tree[p] \notin tgt
                    /\ ~(o.k = "d" /\ \/ Children(st, p) # Children(s, p)
                                      \/ e.op \in {"create", "remove", "wstat"})}}

\* wstat: the time asked for is set, otherwise the time stays unless the
\* content was cut or extended.
TimeWrong(s, e) ==
  /\ e.op = "wstat" /\ e.r.ok /\ FidOf(e) # {}
  /\ LET p == Goal(s, Fids(s, e)[e.fid].p) IN
       /\ SnapHas(e.snap, p)
       /\ IF e.mtime # "" THEN SnapAt(e.snap, p).mt # e.mtime
          ELSE /\ e.len = -1 /\ ps # <<>>
               /\ \E g \in {Goal(st, f.p) : f \in FidOf(e)} :
                                     /\ SnapHas(ps, g)
                                     /\ ~(e.ren /\ SnapAt(ps, g).k = "d")
                                     /\ SnapAt(ps, g).mtn # SnapAt(e.snap, p).mtn

\* The access time of a file, likewise.
AtimeWrong(s, e) ==
  /\ e.op = "wstat" /\ e.r.ok /\ FidOf(e) # {}
  /\ LET p == Goal(s, Fids(s, e)[e.fid].p) IN
       /\ SnapHas(e.snap, p) /\ SnapAt(e.snap, p).k = "f"
       /\ IF e.atime # "" THEN SnapAt(e.snap, p).at # e.atime
          ELSE /\ ps # <<>>
               /\ \E g \in {Goal(st, f.p) : f \in FidOf(e)} :
                                     /\ SnapHas(ps, g)
                                     /\ SnapAt(ps, g).atn # SnapAt(e.snap, p).atn

---------------------------------------------------------------------------
\* Qids.  A node keeps the path it was first given; different nodes that are
\* there at the same time have different ones.
QType(kd) == CASE kd = "d" -> 128 [] kd = "l" -> 2 [] OTHER -> 0
Live(s) == {s.tree[p] : p \in DOMAIN s.tree}
QidOK(s, q, id) ==
  /\ q.t = QType(s.node[id].k)
  /\ IF id \in DOMAIN qb THEN qb[id] = q.p
     ELSE Trace[i].conc \/ \A d \in Live(s) \cap DOMAIN qb : qb[d] # q.p
Learn(f, id, q) == IF id \in DOMAIN f THEN f ELSE With(f, id, q.p)

\* where what the fid was attached or opened to is
FidAt(s, e) == Goal(s, s.conn[e.c].fids[e.fid].p)

\* Versions are compared as long as nothing happens to the host tree; they
\* differ when the time of the last modification does.
Seen(s, e, p, q) == IF e.snapd /\ Here(s, p) /\ SnapHas(e.snap, p) THEN <<[id |-> s.tree[p], v |-> q.v, mv |-> SnapAt(e.snap, p).mv]>> ELSE <<>>
VerOK(s, e, p, q) ==
  /\ (e.snapd /\ e.same /\ Here(s, p) /\ s.tree[p] \in DOMAIN vb) => vb[s.tree[p]] = q.v
  /\ LET o == Seen(s, e, p, q) IN
       (o # <<>> /\ o[1].id \in DOMAIN aux.seen) =>
         (aux.seen[o[1].id].mv # o[1].mv => aux.seen[o[1].id].v # q.v)

\* A stat record of p against the host.
RecSame(s, e, p, r) ==
  /\ r.n = Base(p) /\ r.own
  /\ r.dir = (s.node[s.tree[p]].k = "d") /\ r.mx = 0
  /\ s.node[s.tree[p]].k # "l" => r.perm = s.node[s.tree[p]].perm
  /\ (e.snapd /\ SnapHas(e.snap, p)) =>
       LET h == SnapAt(e.snap, p) IN r.len = h.len /\ r.mt = h.mt

(***************************************************************************)
(* What is wrong with a reply of the right class: a set of aspects.        *)
(***************************************************************************)
ReplyWrong(res, e) ==
  LET s == res.st  x == res.x IN
  CASE res.why = "free" \/ ~res.ok -> {}
    [] x.t = "none" -> {}
    [] x.t = "version" -> (IF e.r.msize > e.msize THEN {"msize"} ELSE {})
                          \cup (IF e.msize \in DOMAIN aux.agreed /\ aux.agreed[e.msize] # e.r.msize THEN {"anew"} ELSE {})
    [] x.t = "qid" -> (IF QidOK(s, e.r.q, x.id) THEN {} ELSE {"qid"})
                      \cup (IF VerOK(s, e, FidAt(s, e), e.r.q) THEN {} ELSE {"version"})
    [] x.t = "qids" ->
         IF Len(e.r.qs) # Len(x.ids) THEN {"nqids"}
         ELSE (IF \A j \in 1..Len(x.ids) : QidOK(s, e.r.qs[j], x.ids[j]) THEN {} ELSE {"qid"})
              \cup (IF e.snapd /\ e.same /\ \E j \in 1..Len(x.ids) :
                          x.ids[j] \in DOMAIN vb /\ vb[x.ids[j]] # e.r.qs[j].v THEN {"version"} ELSE {})
    [] x.t = "open" ->
         (IF QidOK(s, e.r.q, x.id) THEN {} ELSE {"qid"})
         \cup (IF VerOK(s, e, FidAt(s, e), e.r.q) THEN {} ELSE {"version"})
         \cup (IF st.conn[e.c].msize # 0 /\ e.r.iounit + 24 > st.conn[e.c].msize THEN {"iounit"} ELSE {})
    [] x.t = "made" ->
         (IF QidOK(s, e.r.q, x.id) \/ QidOK(s, e.r.q, x.lid) THEN {} ELSE {"qid"})
         \cup IF st.conn[e.c].msize # 0 /\ e.r.iounit + 24 > st.conn[e.c].msize THEN {"iounit"} ELSE {}
    [] x.t = "stat" ->
         (IF QidOK(s, e.r.s.q, s.tree[x.p]) THEN {} ELSE {"ident"})
         \cup (IF e.r.whole /\ RecSame(s, e, x.p, e.r.s) THEN {} ELSE {"stat"})
         \cup (IF VerOK(s, e, x.p, e.r.s.q) THEN {} ELSE {"version"})
    [] x.t = "data" ->
         (IF e.r.whole /\ ~e.r.over /\ Len(e.r.d) >= Len(x.d) /\ Len(e.r.d) <= Len(x.most) /\ e.r.d = SubSeq(x.most, 1, Len(e.r.d)) THEN {} ELSE {"data"})
         \cup (IF e.r.big THEN {"toobig"} ELSE {})
    [] x.t = "count" -> IF e.r.n = x.n THEN {} ELSE {"count"}
    [] x.t = "dir" ->
         (IF x.good /\ e.r.dwhole /\ ~e.r.over THEN {} ELSE {"listing"})
         \cup (IF e.r.big THEN {"toobig"} ELSE {})
         \cup (IF x.good /\ x.fresh /\ \E j \in 1..Len(e.r.ents) :
                    LET r == e.r.ents[j]  p == Append(x.p, r.n) IN
                      p \in DOMAIN s.tree /\ ~(RecSame(s, e, p, r) /\ QidOK(s, r.q, s.tree[p])
                                               /\ VerOK(s, e, p, r.q))
               THEN {"record"} ELSE {})

\* What the reply teaches about qids.
NewQb(res, e) ==
  LET s == res.st  x == res.x IN
  IF ~res.ok \/ res.why = "free" THEN qb
  ELSE CASE x.t = "qid" -> Learn(qb, x.id, e.r.q)
         [] x.t = "qids" -> LET RECURSIVE L(_, _)
                                L(f, j) == IF j > Len(x.ids) THEN f ELSE L(Learn(f, x.ids[j], e.r.qs[j]), j + 1)
                            IN  L(qb, 1)
         [] x.t = "open" -> Learn(qb, x.id, e.r.q)
         [] x.t = "stat" -> Learn(qb, s.tree[x.p], e.r.s.q)
         [] x.t = "dir" /\ x.fresh ->
              LET RECURSIVE L(_, _)
                  L(f, j) == IF j > Len(e.r.ents) THEN f
                             ELSE LET p == Append(x.p, e.r.ents[j].n) IN
                                  L(IF p \in DOMAIN s.tree THEN Learn(f, s.tree[p], e.r.ents[j].q) ELSE f, j + 1)
              IN  L(qb, 1)
         [] OTHER -> qb

\* and about versions
NewVb(res, e) ==
  LET s == res.st  x == res.x
      old == IF e.snapd /\ e.same THEN vb ELSE EmptyFn
      add(f, p, q) == IF Here(s, p) THEN With(f, s.tree[p], q.v) ELSE f
  IN
  IF ~res.ok \/ res.why = "free" THEN old
  ELSE CASE x.t = "stat" -> add(old, x.p, e.r.s.q)
         [] x.t \in {"qid", "open"} -> add(old, FidAt(s, e), e.r.q)
         [] x.t = "qids" -> LET RECURSIVE L(_, _)
                                L(f, j) == IF j > Len(x.ids) THEN f ELSE L(With(f, x.ids[j], e.r.qs[j].v), j + 1)
                            IN  L(old, 1)
         [] x.t = "dir" /\ x.fresh /\ Len(e.r.ents) = 1 -> add(old, Append(x.p, e.r.ents[1].n), e.r.ents[1].q)
         [] OTHER -> old

NewSeen(res, e) ==
  LET o == IF ~res.ok \/ res.why = "free" \/ ~e.r.ok THEN <<>>
           ELSE IF res.x.t = "stat" THEN Seen(res.st, e, res.x.p, e.r.s.q)
           ELSE IF res.x.t \in {"qid", "open"} THEN Seen(res.st, e, FidAt(res.st, e), e.r.q)
           ELSE IF res.x.t = "dir" /\ res.x.fresh /\ Len(e.r.ents) = 1
           THEN Seen(res.st, e, Append(res.x.p, e.r.ents[1].n), e.r.ents[1].q)
           ELSE <<>>
  IN  IF o = <<>> THEN aux.seen ELSE With(aux.seen, o[1].id, o[1])

---------------------------------------------------------------------------
(***************************************************************************)
(* Which properties a deviation goes against.                              *)
(***************************************************************************)
OpProp(op) ==
  CASE op = "version" -> {"C24"} [] op = "attach" -> {"C13"} [] op = "walk" -> {"C14"}
    [] op = "open" -> {"C15"} [] op = "create" -> {"C19"} [] op = "clunk" -> {"C13"}
    [] op = "remove" -> {"C20"} [] op = "stat" -> {"C22"} [] op = "wstat" -> {"C21"}
    [] op = "host" -> {"host"}
    [] op = "readdir" -> {"C17"} [] op = "read" -> {"C16"} [] op = "write" -> {"C16"}
    [] OTHER -> {"C25"}
OpOf(e) == IF e.op = "read" /\ (e.isdir \/ \E f \in FidOf(e) : f.o # "n" /\ st.node[f.oid].k = "d")
           THEN "readdir" ELSE e.op

AllUfs == {"C07", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C31", "C32"}

\* A probe looks at what the request before it, and the session, did.
Inherited(e) == IF e.probe = "" THEN {}
                ELSE OpProp(e.probe) \cup (IF e.pref THEN {"C26"} ELSE {})
Session(e) == (IF "fid" \in DOMAIN e /\ <<e.c, e.fid>> \in aux.rem THEN {"C20"} ELSE {})
              \cup (IF e.c \in DOMAIN aux.vers /\ aux.vers[e.c] > 1 THEN {"C24"} ELSE {})
Walked(e) == IF "fid" \in DOMAIN e /\ <<e.c, e.fid>> \in aux.walked THEN {"C14"} ELSE {}
\* Requests in which a symbolic link plays a part.
Linked(e) == IF \E f \in FidOf(e) :
                  \/ Goal(st, f.p) # f.p /\ Exists(st, f.p)
                  \/ e.op = "create" /\ LET p == Join(f.p, e.name) IN Exists(st, p) /\ Goal(st, p) # p
                  \/ e.op = "walk" /\ \E p \in {WalkIds(st, f.p, e.names)[j] : j \in 1..Len(WalkIds(st, f.p, e.names))} : Goal(st, p) # p
                  \/ e.op = "wstat" /\ e.ren /\ LET p == RenameTo(f.p, e.abs, e.name) IN Exists(st, p) /\ Goal(st, p) # p
             THEN {"C31"} ELSE IF e.op = "attach" /\ LET p == Clean(Len(Root), Root, e.name) IN Exists(st, p) /\ Goal(st, p) # p
             THEN {"C31"} ELSE {}
Escape(e) == IF e.esc THEN {"C18"} ELSE {}

ClassBlame(res, e) ==
  Inherited(e) \cup Escape(e) \cup
  (IF ~res.ok
   THEN CASE res.why = "nofid" -> {"C13"} \cup Session(e)
          [] res.why = "inuse" -> {"C13"} \cup OpProp(OpOf(e)) \cup Session(e)
          [] res.why = "isopen" -> {"C15"} \cup OpProp(OpOf(e))
          [] res.why = "notopen" -> {"C15"} \cup Session(e)
          [] res.why = "mode" -> {"C15"}
          [] res.why = "gate" -> {"C04", "C25"}
          [] res.why = "badversion" -> {"C24"}
          [] res.why = "tinymsize" -> {"C23"}
          [] res.why = "root" -> {"C18"} \cup OpProp(OpOf(e))
          [] OTHER -> OpProp(OpOf(e))
   ELSE {"C13"} \cup OpProp(OpOf(e)) \cup Session(e)
        \cup (IF OpOf(e) \in {"read", "readdir", "write"} THEN {"C15"} ELSE {}))

AspectBlame(a, e) ==
  CASE a = "msize" -> {"C23"}
    [] a = "anew" -> {"C24"}
    [] a = "iounit" -> {"C23"}
    [] a = "toobig" -> {"C23"}
    [] a = "qid" -> {"C22"} \cup OpProp(OpOf(e)) \cup Escape(e) \cup Inherited(e) \cup Walked(e)
    [] a = "nqids" -> {"C14"} \cup Escape(e)
    [] a = "ident" -> {"C22", "C13"} \cup Inherited(e) \cup Session(e) \cup Walked(e)
    [] a = "stat" -> {"C22"} \cup (IF e.probe \in {"wstat", "create"} THEN OpProp(e.probe) ELSE {})
    [] a = "version" -> {"C22"}
    [] a = "data" -> {"C16"} \cup Inherited(e)
    [] a = "count" -> {"C16"}
    [] a = "listing" -> {"C17"}
    [] a = "record" -> {"C22", "C17"}

TreeBlame(d, e) ==
  (IF \E p \in d : ~Inside(p) THEN {"C18"} ELSE {})
  \cup Escape(e)
  \cup (IF ~e.r.ok THEN {"C26"} ELSE {})
  \cup OpProp(OpOf(e))
  \cup (IF e.op \in {"open", "create"} THEN {"C16"} ELSE {})

FdBlame(e) == {"C15"} \cup OpProp(OpOf(e))

\* Deviations of a reply after which the rest can still be followed.
Soft == {"msize", "anew", "iounit", "toobig", "qid", "ident", "stat", "version", "record"}

\* The verdict on event E: [blame, what, soft]
Hard(res, e) ==
  IF e.r.dead THEN [blame |-> AllUfs, what |-> "the server crashed or does not answer"]
  ELSE IF res.why # "free" /\ res.why # "zero" /\ res.ok # e.r.ok
       THEN [blame |-> ClassBlame(res, e),
             what |-> IF res.ok THEN "is to be granted" ELSE "is to be refused: " \o res.why]
  ELSE LET a == ReplyWrong(res, e) IN
       IF a \ Soft # {} THEN [blame |-> UNION {AspectBlame(y, e) : y \in a}, what |-> "reply: " \o ToString(a) \o " " \o ToString(res.x)]
  ELSE LET d == IF e.snapd THEN TreeDiff(res.st, e.snap) ELSE {} IN
       IF d # {} THEN [blame |-> TreeBlame(d, e), what |-> "host tree differs at " \o ToString(d)]
  ELSE LET d2 == IF e.snapd THEN Stirred(res.st, e) ELSE {} IN
       IF d2 # {} THEN [blame |-> TreeBlame(d2, e), what |-> "host files touched at " \o ToString(d2)]
  ELSE IF e.snapd /\ TimeWrong(res.st, e) THEN [blame |-> {"C21"}, what |-> "modification time"]
  ELSE IF e.snapd /\ AtimeWrong(res.st, e) THEN [blame |-> {"C21"}, what |-> "access time"]
  ELSE IF e.fds > Cardinality(OpenFids(res.st))
       THEN [blame |-> IF e.op = "hangup" THEN {"C32"} ELSE IF aux.hung THEN {"C32"} \cup FdBlame(e) ELSE FdBlame(e),
             what |-> "more open files than open fids"]
  ELSE IF e.op = "hangup" /\ ~e.r.closed THEN [blame |-> {"C32"}, what |-> "the server does not close the connection"]
  ELSE [blame |-> {}, what |-> ""]
Judge(res, e) ==
  LET h == Hard(res, e) IN
  IF h.blame # {} THEN [blame |-> h.blame \cup Linked(e), what |-> h.what, soft |-> FALSE]
  ELSE IF res.why = "free" \/ ~res.ok \/ ~e.r.ok THEN [blame |-> {}, what |-> "", soft |-> TRUE]
  ELSE LET a == ReplyWrong(res, e) IN
       [blame |-> UNION {AspectBlame(y, e) \cup Linked(e) : y \in a}, what |-> IF a = {} THEN "" ELSE "reply: " \o ToString(a) \o " " \o ToString(res.x), soft |-> TRUE]

Next ==
  /\ k < Len(Evs)
  /\ LET res == IF E.op \in {"connect", "hangup", "nop"} \/ E.c \in DOMAIN st.conn THEN Op(st, E) ELSE Free(st, E)
         j == Judge(res, E)
     IN
     IF j.soft
     THEN /\ j.blame # {} => PrintT("@@SOFT " \o ToJson([i |-> i, k |-> k + 1, blame |-> j.blame, exp |-> j.what]))
          /\ st' = res.st
          /\ qb' = IF j.blame = {} THEN NewQb(res, E) ELSE qb
          /\ vb' = IF j.blame = {} THEN NewVb(res, E) ELSE EmptyFn
          /\ ps' = IF E.snapd THEN E.snap ELSE <<>>
          /\ aux' = [walked |-> (IF E.op = "walk" THEN aux.walked \cup {<<E.c, E.fid>>, <<E.c, E.newfid>>} ELSE aux.walked),
                     rem |-> (IF E.op = "remove" THEN aux.rem \cup {<<E.c, E.fid>>} ELSE aux.rem),
                     vers |-> (IF E.op = "version" /\ E.r.ok
                               THEN With(aux.vers, E.c, IF E.c \in DOMAIN aux.vers THEN aux.vers[E.c] + 1 ELSE 1)
                               ELSE IF E.op = "hangup" THEN Without(aux.vers, {E.c}) ELSE aux.vers),
                     hung |-> aux.hung \/ E.op = "hangup",
                     agreed |-> IF E.op = "version" /\ E.r.ok /\ E.msize \notin DOMAIN aux.agreed
                                THEN With(aux.agreed, E.msize, E.r.msize) ELSE aux.agreed,
                     seen |-> IF j.blame = {} THEN NewSeen(res, E) ELSE aux.seen]
          /\ k' = k + 1
          /\ k' = Len(Evs) => PrintT("@@DONE " \o ToString(i))
     ELSE /\ PrintT("@@MISMATCH " \o ToJson([i |-> i, k |-> k + 1, blame |-> j.blame, exp |-> j.what]))
          /\ k' = Len(Evs) + 1
          /\ UNCHANGED <<st, qb, vb, ps, aux>>
  /\ UNCHANGED i

TraceSpec == Init /\ [][Next]_vars
TraceView == <<i, k>>
=============================================================================

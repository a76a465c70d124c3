------------------------------- MODULE Wire -------------------------------
(***************************************************************************)
(* The 9P2000 wire format, as implemented by protocol/genout.go.           *)
(*                                                                         *)
(* Bytes are numbers 0..255.  Integer fields are kept as the little-endian *)
(* byte sequences they are on the wire (TLC's integers are 32 bits wide),  *)
(* strings and data as byte sequences.  A message is a record              *)
(*    [ty |-> type byte, tag |-> two bytes, f |-> sequence of field values]*)
(* The format is given by one table, Layout; Encode and Decode interpret   *)
(* it.  Decode is defined for every byte sequence.                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Byte == 0..255

\* Message types
Tversion == 100  Rversion == 101
Tauth    == 102  Rauth    == 103
Tattach  == 104  Rattach  == 105
Terror   == 106  Rerror   == 107
Tflush   == 108  Rflush   == 109
Twalk    == 110  Rwalk    == 111
Topen    == 112  Ropen    == 113
Tcreate  == 114  Rcreate  == 115
Tread    == 116  Rread    == 117
Twrite   == 118  Rwrite   == 119
Tclunk   == 120  Rclunk   == 121
Tremove  == 122  Rremove  == 123
Tstat    == 124  Rstat    == 125
Twstat   == 126  Rwstat   == 127

\* The requests the server implements; the reply type is one more.
Requests == {Tversion, Tattach, Tflush, Twalk, Topen, Tcreate, Tread, Twrite,
             Tclunk, Tremove, Tstat, Twstat}
ReplyOf(t) == t + 1
Messages == Requests \cup {ReplyOf(t) : t \in Requests} \cup {Rerror}

(***************************************************************************)
(* Field kinds: u1 u2 u4 u8 integers; str a string with a 2 byte count;    *)
(* strs a 2 byte count of strings; qid; qids a 2 byte count of qids;       *)
(* data bytes with a 4 byte count; stat bytes with a 2 byte count.         *)
(***************************************************************************)
Layout(t) ==
  CASE t = Tversion -> <<"u4", "str">>
    [] t = Rversion -> <<"u4", "str">>
    [] t = Tattach  -> <<"u4", "u4", "str", "str">>
    [] t = Rattach  -> <<"qid">>
    [] t = Rerror   -> <<"str">>
    [] t = Tflush   -> <<"u2">>
    [] t = Rflush   -> <<>>
    [] t = Twalk    -> <<"u4", "u4", "strs">>
    [] t = Rwalk    -> <<"qids">>
    [] t = Topen    -> <<"u4", "u1">>
    [] t = Ropen    -> <<"qid", "u4">>
    [] t = Tcreate  -> <<"u4", "str", "u4", "u1">>
    [] t = Rcreate  -> <<"qid", "u4">>
    [] t = Tread    -> <<"u4", "u8", "u4">>
    [] t = Rread    -> <<"data">>
    [] t = Twrite   -> <<"u4", "u8", "data">>
    [] t = Rwrite   -> <<"u4">>
    [] t = Tclunk   -> <<"u4">>
    [] t = Rclunk   -> <<>>
    [] t = Tremove  -> <<"u4">>
    [] t = Rremove  -> <<>>
    [] t = Tstat    -> <<"u4">>
    [] t = Rstat    -> <<"stat">>
    [] t = Twstat   -> <<"u4", "stat">>
    [] t = Rwstat   -> <<>>

\* Type Dev Qid Mode Atime Mtime Length Name User Group ModUser, after the
\* record's own two byte size.
DirLayout == <<"u2", "u4", "qid", "u4", "u4", "u4", "u8",
               "str", "str", "str", "str">>

HdrLen == 7       \* size[4] type[1] tag[2]

---------------------------------------------------------------------------
\* Numbers (below 2^31) and little-endian bytes
U2(n) == <<n % 256, (n \div 256) % 256>>
U4(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
N2(b) == b[1] + 256 * b[2]
\* A four byte number; -1 (too big for anything here) if it is 2^31 or more.
TooBig == 2147483647
N4(b) == IF b[4] >= 128 THEN TooBig
         ELSE b[1] + 256 * b[2] + 65536 * b[3] + 16777216 * b[4]

Drop(s, n) == SubSeq(s, n + 1, Len(s))
Take(s, n) == SubSeq(s, 1, n)

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))

FixedLen == [u1 |-> 1, u2 |-> 2, u4 |-> 4, u8 |-> 8, qid |-> 13]

EncQid(q) == q.t \o q.v \o q.p

EncField(k, v) ==
  CASE k \in {"u1", "u2", "u4", "u8"} -> v
    [] k = "qid"  -> EncQid(v)
    [] k = "str"  -> U2(Len(v)) \o v
    [] k = "stat" -> U2(Len(v)) \o v
    [] k = "data" -> U4(Len(v)) \o v
    [] k = "strs" -> U2(Len(v)) \o Cat([i \in 1..Len(v) |-> U2(Len(v[i])) \o v[i]])
    [] k = "qids" -> U2(Len(v)) \o Cat([i \in 1..Len(v) |-> EncQid(v[i])])

EncFields(ks, f) == Cat([i \in 1..Len(ks) |-> EncField(ks[i], f[i])])

Encode(m) ==
  LET rest == <<m.ty>> \o m.tag \o EncFields(Layout(m.ty), m.f)
  IN  U4(4 + Len(rest)) \o rest

EncodeDir(f) == LET b == EncFields(DirLayout, f) IN U2(Len(b)) \o b

---------------------------------------------------------------------------
\* Decoders take <<bytes>> and give [ok, v, rest].
No == [ok |-> FALSE, v |-> <<>>, rest |-> <<>>]
Yes(v, rest) == [ok |-> TRUE, v |-> v, rest |-> rest]

DecBytes(n, b) == IF Len(b) < n THEN No ELSE Yes(Take(b, n), Drop(b, n))

DecCounted(w, b) ==
  IF Len(b) < w THEN No
  ELSE DecBytes(IF w = 2 THEN N2(b) ELSE N4(b), Drop(b, w))

DecQid(b) ==
  IF Len(b) < 13 THEN No
  ELSE Yes([t |-> Take(b, 1), v |-> SubSeq(b, 2, 5), p |-> SubSeq(b, 6, 13)], Drop(b, 13))

RECURSIVE DecMany(_, _, _, _)
DecMany(k, n, b, acc) ==
  IF n = 0 THEN Yes(acc, b)
  ELSE LET r == IF k = "str" THEN DecCounted(2, b) ELSE DecQid(b)
       IN  IF r.ok THEN DecMany(k, n - 1, r.rest, Append(acc, r.v)) ELSE No

DecList(k, b) == IF Len(b) < 2 THEN No ELSE DecMany(k, N2(b), Drop(b, 2), <<>>)

DecField(k, b) ==
  CASE k \in {"u1", "u2", "u4", "u8"} -> DecBytes(FixedLen[k], b)
    [] k = "qid"  -> DecQid(b)
    [] k \in {"str", "stat"} -> DecCounted(2, b)
    [] k = "data" -> DecCounted(4, b)
    [] k = "strs" -> DecList("str", b)
    [] k = "qids" -> DecList("qid", b)

RECURSIVE DecFields(_, _, _)
DecFields(ks, b, acc) ==
  IF ks = <<>> THEN Yes(acc, b)
  ELSE LET r == DecField(Head(ks), b)
       IN  IF r.ok THEN DecFields(Tail(ks), r.rest, Append(acc, r.v)) ELSE No

(***************************************************************************)
(* What follows the size and type bytes: tag and body.  A message must     *)
(* decode exactly: nothing missing, nothing left over.                     *)
(***************************************************************************)
DecodeBody(t, b) ==
  IF Len(b) < 2 \/ t \notin Messages THEN [ok |-> FALSE, m |-> <<>>]
  ELSE LET r == DecFields(Layout(t), Drop(b, 2), <<>>)
       IN  IF r.ok /\ r.rest = <<>>
           THEN [ok |-> TRUE, m |-> [ty |-> t, tag |-> Take(b, 2), f |-> r.v]]
           ELSE [ok |-> FALSE, m |-> <<>>]

\* A whole frame, size included.
DecodeFrame(b) ==
  IF Len(b) < HdrLen \/ N4(b) # Len(b) THEN [ok |-> FALSE, m |-> <<>>]
  ELSE DecodeBody(b[5], Drop(b, 5))

\* A stat record at the start of b; the code ignores the inner size and what
\* follows, so only the fields are prescribed here.
DecodeDir(b) ==
  IF Len(b) < 2 THEN No ELSE DecFields(DirLayout, Drop(b, 2), <<>>)

(***************************************************************************)
(* Framing: the first frame of a byte stream.                              *)
(***************************************************************************)
FrameSize(s) == N4(s)
HasHeader(s) == Len(s) >= HdrLen
BadSize(s)   == HasHeader(s) /\ FrameSize(s) < HdrLen
HasFrame(s)  == HasHeader(s) /\ ~BadSize(s) /\ FrameSize(s) <= Len(s)
FirstFrame(s) == Take(s, FrameSize(s))
=============================================================================

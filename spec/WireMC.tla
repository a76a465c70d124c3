------------------------------ MODULE WireMC ------------------------------
(* Exhaustive check of the codec specification on small field values:      *)
(* decoding inverts encoding, every encoding has the right size, and a     *)
(* sequence decodes only if it is the encoding of what it decodes to, so   *)
(* truncated and extended messages are malformed.                          *)
EXTENDS Wire, TLC

Vals(k) ==
  CASE k = "u1" -> {<<0>>, <<255>>}
    [] k = "u2" -> {<<0, 0>>, <<1, 2>>}
    [] k = "u4" -> {<<0, 0, 0, 0>>, <<1, 2, 3, 255>>}
    [] k = "u8" -> {<<8, 7, 6, 5, 4, 3, 2, 255>>}
    [] k = "qid" -> {[t |-> <<128>>, v |-> <<1, 2, 3, 4>>, p |-> <<1, 2, 3, 4, 5, 6, 7, 8>>]}
    [] k = "str" -> {<<>>, <<0>>, <<97, 98, 0>>}
    [] k = "stat" -> {<<>>, <<0, 0>>, <<7>>}
    [] k = "data" -> {<<>>, <<0>>, <<1, 0, 0>>}
    [] k = "strs" -> {<<>>, <<<<>>>>, <<<<97>>, <<0, 0>>>>}
    [] k = "qids" -> {<<>>, <<[t |-> <<1>>, v |-> <<0, 0, 0, 0>>, p |-> <<0, 0, 0, 0, 0, 0, 0, 1>>]>>}

RECURSIVE Tuples(_)
Tuples(ks) == IF ks = <<>> THEN {<<>>}
              ELSE {<<v>> \o t : v \in Vals(Head(ks)), t \in Tuples(Tail(ks))}

VARIABLES m, b
Init == /\ \E t \in Messages : \E tag \in {<<1, 0>>, <<255, 255>>} : \E f \in Tuples(Layout(t)) :
             m = [ty |-> t, tag |-> tag, f |-> f]
        /\ b = Encode(m)

Resize(s) == IF Len(s) < 4 THEN s ELSE U4(Len(s)) \o Drop(s, 4)
\* mutations of the bytes: cut anywhere, add bytes, change one byte, with and
\* without the outer size following
Truncate == \E n \in 0..(Len(b) - 1) : b' = Take(b, n) \/ b' = Resize(Take(b, n))
Extend == \E x \in {<<0>>, <<1, 2>>} : b' = b \o x \/ b' = Resize(b \o x)
Flip == \E i \in 1..Len(b) : \E v \in {0, 1, 255} : b' = [b EXCEPT ![i] = v]
Next == /\ b = Encode(m)
        /\ UNCHANGED m
        /\ Truncate \/ Extend \/ Flip

RoundTrip == b = Encode(m) => DecodeFrame(b) = [ok |-> TRUE, m |-> m]
SizeRight == HasFrame(Encode(m)) /\ FrameSize(Encode(m)) = Len(Encode(m))
Canonical == LET d == DecodeFrame(b) IN d.ok => Encode(d.m) = b
\* a truncated or extended encoding of m, size adjusted, is never m
ExactLength == (b # Encode(m) /\ Len(b) # Len(Encode(m))) =>
                 LET d == DecodeFrame(b) IN d.ok => d.m # m
Spec == Init /\ [][Next]_<<m, b>>
=============================================================================

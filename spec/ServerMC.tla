----------------------------- MODULE ServerMC -----------------------------
(* Small instance: all streams of up to two (three, Big) messages taken    *)
(* from a few well-formed, malformed and unsupported ones, cut off at      *)
(* every byte or not, and every way of delivering them.                    *)
EXTENDS Server, TLC

CONSTANT MaxMsgs

F4 == <<1, 0, 0, 0>>
MV  == Encode([ty |-> Tversion, tag |-> <<255, 255>>, f |-> <<<<0, 1, 0, 0>>, <<57>>>>])
MC  == Encode([ty |-> Tclunk, tag |-> <<1, 0>>, f |-> <<F4>>])
MF  == Encode([ty |-> Tflush, tag |-> <<1, 0>>, f |-> <<<<9, 9>>>>])
Bad == U4(9) \o <<Tclunk, 2, 0, 1, 1>>              \* fid cut short
Ext == U4(10) \o <<Tflush, 3, 0, 1, 1, 7>>          \* a byte left over
Unk == U4(7) \o <<Tauth, 4, 0>>
Sml == U4(6) \o <<Tclunk, 5, 0>>                    \* size smaller than the header

Pieces == {MV, MC, MF, Bad, Ext, Unk, Sml}
RECURSIVE Seqs(_)
Seqs(n) == IF n = 0 THEN {<<>>} ELSE {<<>>} \cup {p \o s : p \in Pieces, s \in Seqs(n - 1)}
Base == Seqs(MaxMsgs)
MCStreams == Base \cup {MV \o s : s \in Base}
             \cup UNION {{Take(MV \o p, n) : n \in 0..Len(MV \o p)} : p \in Pieces}
MCAnswer(m) == {[ok |-> FALSE, err |-> <<69>>]} \cup
   (CASE m.ty = Tversion -> {[ok |-> TRUE, f |-> m.f]}
      [] OTHER -> {[ok |-> TRUE, f |-> <<>>]})
\* deliveries of one byte, of a few, or of all there is
MCDeliver == \E n \in {1, 4, 7, Len(in) - got} : n >= 1 /\ Deliver(n)
MCNext == MCDeliver \/ Refuse \/ Call \/ Reply \/ Close
MCSpec == Init /\ [][MCNext]_vars /\ WF_vars(Refuse \/ Call \/ Reply \/ Close) /\ WF_vars(MCDeliver)
=============================================================================

----------------------------- MODULE CodecTrace -----------------------------
(***************************************************************************)
(* Checks recorded uses of the real encoders and decoders against Wire.    *)
(***************************************************************************)
EXTENDS Wire, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, k

Evs == Trace[i].ev
E == Evs[k + 1]

Explained ==
  CASE E.e = "enc"    -> E.b = Encode(E.m)
    [] E.e = "dec"    -> LET d == DecodeBody(E.ty, E.b) IN
                         d.ok = E.ok /\ (d.ok => d.m = E.m)
    [] E.e = "encdir" -> E.b = EncodeDir(E.f)
    [] E.e = "decdir" -> LET d == DecodeDir(E.b) IN
                         d.ok = E.ok /\ (d.ok => d.v = E.f)
    [] OTHER          -> FALSE

Here == CASE E.e = "enc"    -> ToString(Encode(E.m))
          [] E.e = "dec"    -> ToString(DecodeBody(E.ty, E.b))
          [] E.e = "encdir" -> ToString(EncodeDir(E.f))
          [] E.e = "decdir" -> ToString(DecodeDir(E.b))
          [] OTHER          -> "no crash"

Init == i \in 1..Len(Trace) /\ k = 0
Next == /\ k < Len(Evs)
        /\ IF Explained
           THEN k' = k + 1 /\ (k' = Len(Evs) => PrintT("@@DONE " \o ToString(i)))
           ELSE /\ PrintT("@@MISMATCH " \o ToJson([i |-> i, k |-> k + 1, blame |-> {"C05"} \cup (IF E.e = "dec" THEN {"C03"} ELSE {}), exp |-> Here]))
                /\ k' = Len(Evs) + 1
        /\ UNCHANGED i
TraceSpec == Init /\ [][Next]_<<i, k>>
=============================================================================

-------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* Enumerates every history of the specification up to a depth, as scripts *)
(* to be replayed against the real code: which operation, and on which of  *)
(* the remarks there are.  The texts are assigned when replaying.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Depth
VARIABLE hist

Op(c, h) == [c |-> c, h |-> h]
Init == hist = <<Op("cs", 0)>>
Next == /\ Len(hist) < Depth
        /\ \/ hist' = Append(hist, Op("cs", 0))
           \/ \E h \in 1..Len(hist), c \in {"ar", "af", "cc"} : hist' = Append(hist, Op(c, h))
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = Depth => PrintT("HIST " \o ToJson(hist))
=============================================================================

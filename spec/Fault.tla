------------------------------- MODULE Fault -------------------------------
(***************************************************************************)
(* C13: whichever storage call fails, the API call that made it reports an *)
(* error.  The storage is specified as able to fail at any call; the       *)
(* recorded events list, for one API call, which storage calls were failed *)
(* one at a time and what the API call then returned                       *)
(* (1 success, 0 error, -2 panic, -3 did not come back).                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, TLC, IOUtils

Data == JsonDeserialize(IOEnv.TRACE)
Runs == Data.runs
VARIABLES run, l, k
vars == <<run, l, k>>
Ev == Runs[run].ev
Cur == Ev[l]

Points(e) == IF e.k = "fl" THEN Len(e.res) ELSE 0
Init == run \in DOMAIN Runs /\ l = 0 /\ k = 0
FailNext == /\ l > 0 /\ k < Points(Cur)
            /\ k' = k + 1 /\ UNCHANGED <<run, l>>
NextCall == /\ l < Len(Ev) /\ k = (IF l = 0 THEN 0 ELSE Points(Cur))
            /\ l' = l + 1 /\ k' = 0 /\ run' = run
Next == FailNext \/ NextCall
Spec == Init /\ [][Next]_vars

Inv_C13 == k > 0 => Cur.res[k] = 0

Cost(ev) == FoldLeft(LAMBDA n, e : n + 1 + Points(e), 0, ev)
Expected == FoldLeft(LAMBDA n, x : n + Cost(x.ev) + 1, 0, Runs)
AllConsumed == TLCGet("stats").distinct = Expected
=============================================================================

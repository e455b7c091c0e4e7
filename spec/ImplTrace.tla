------------------------------ MODULE ImplTrace ------------------------------
(***************************************************************************)
(* Does the code make the writes that Impl.tla designs?  Information only: *)
(* another order of writes can be as good.                                 *)
(***************************************************************************)
EXTENDS Impl, Json, TLC, IOUtils

Data == JsonDeserialize(IOEnv.TRACE)
Texts == Data.texts
Runs == Data.runs
VARIABLES run, l, s, ids, same
vars == <<run, l, s, ids, same>>
Ev == Runs[run].ev
Cur == Ev[l]

Init == run \in DOMAIN Runs /\ l = 0 /\ s = EmptyStore /\ ids = <<>> /\ same = TRUE
Node(h) == IF h = 0 THEN 0 ELSE ids[h]
Txt(t) == IF t = 0 THEN <<>> ELSE Texts[t]
Step(e) ==
  IF e.k = "op"
  THEN LET y == Run(s, e.c, Node(e.h), Txt(e.o), Txt(e.p)) IN
       /\ s' = FoldLeft(Do, s, e.w)
       /\ ids' = IF e.r > 0 THEN Append(ids, e.id) ELSE ids
       /\ same' = (y.w = e.w /\ y.ok = (e.r > 0) /\ (y.ok => y.v = e.id))
  ELSE UNCHANGED <<s, ids>> /\ same' = TRUE
Next == l < Len(Ev) /\ l' = l + 1 /\ run' = run /\ Step(Ev[l + 1])
Spec == Init /\ [][Next]_vars
AsDesigned == same
=============================================================================

---------------------------- MODULE LayoutTrace ----------------------------
(***************************************************************************)
(* C18: at every moment between operations the storage holds exactly the   *)
(* graph that was built, in the documented layout.  Recorded dumps of the  *)
(* storage under the real code are read with the refinement mapping of     *)
(* Layout.tla and compared with the abstract state of Semnet.tla.          *)
(***************************************************************************)
EXTENDS Layout, SequencesExt, Json, TLC, IOUtils

Data == JsonDeserialize(IOEnv.TRACE)
Texts == Data.texts
Runs == Data.runs
VARIABLES run, l, st
vars == <<run, l, st>>
Ev == Runs[run].ev
Cur == Ev[l]

Init == run \in DOMAIN Runs /\ l = 0 /\ st = Empty
Step(e) ==
  IF e.k = "op" /\ e.r > 0
  THEN st' = Apply(st, e.c, e.h, e.o, e.p)
  ELSE IF e.k = "told"   \* the storage was written by Golden.tla
  THEN st' = FoldLeft(LAMBDA g, x : Apply(g, x.c, x.h, x.o, x.p), st, e.ops)
  ELSE UNCHANGED st
Next == l < Len(Ev) /\ l' = l + 1 /\ run' = run /\ Step(Ev[l + 1])
Spec == Init /\ [][Next]_vars

TextOf(t) == Texts[t]
\* (a graph without a statement may not have stored anything yet)
Inv_C18 ==
  /\ l > 0 /\ Cur.k = "dump" /\ NRem(st) > 0 =>
       /\ Shape(Cur.s)
       /\ Vocabulary(Cur.s)
       /\ Len(Cur.ids) = NRem(st)
       /\ Conforms(Cur.s, Cur.ids, st, TextOf)
  \* accepted, but answered with a remark of before: nothing was stored for it
  /\ l > 0 /\ Cur.k = "op" => Cur.r # -1

Expected == FoldLeft(LAMBDA n, x : n + Len(x.ev) + 1, 0, Runs)
AllConsumed == TLCGet("stats").distinct = Expected
=============================================================================

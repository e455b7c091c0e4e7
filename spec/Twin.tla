-------------------------------- MODULE Twin --------------------------------
(***************************************************************************)
(* Two recorded runs that the specification maps to the same behaviour     *)
(* must answer alike.  Both start from the same abstract history; they     *)
(* differ in something the specification does not have (reopening, the     *)
(* order neighbours are listed in, node numbering, which graph object is   *)
(* used) or in operations on other stories, which the specification says   *)
(* are independent.  Events with the same mark correspond.                 *)
(***************************************************************************)
EXTENDS Semnet, SequencesExt, Json, TLC, IOUtils

Data == JsonDeserialize(IOEnv.TRACE)
Meta == JsonDeserialize(IOEnv.META)
Rows == Data.rows
Runs == Data.runs
Pairs == Meta.pairs   \* [a, b, map]; map: remark of b -> remark of a, <<>> for identity

VARIABLES pair, l
vars == <<pair, l>>
A == Runs[Pairs[pair].a].ev
B == Runs[Pairs[pair].b].ev
Map == Pairs[pair].map

Marks(ev) == {ev[i].m : i \in {j \in DOMAIN ev : ev[j].k \in {"op", "obs"}}} \ {0}
ByMark(ev) == [m \in Marks(ev) |-> CHOOSE i \in DOMAIN ev : ev[i].k \in {"op", "obs"} /\ ev[i].m = m]
Index == [i \in DOMAIN Pairs |-> ByMark(Runs[Pairs[i].a].ev)]

Init == pair \in DOMAIN Pairs /\ l = 0
Next == l < Len(B) /\ l' = l + 1 /\ pair' = pair
Spec == Init /\ [][Next]_vars

To(r) == IF r <= 0 \/ Map = <<>> THEN r ELSE IF r \in DOMAIN Map THEN Map[r] ELSE -7
\* columns holding remark numbers
Refs == {4, 5, 7, 9, 11}
SameRow(a, b) ==
  \/ a = b /\ Map = <<>>
  \/ a # 0 /\ b # 0 /\ \A i \in 1..11 :
       Rows[a][i] = IF i \in Refs THEN To(Rows[b][i]) ELSE Rows[b][i]

Agree(ea, eb) ==
  /\ ea.k = eb.k
  /\ ea.k = "op" => ea.r = To(eb.r)
  /\ ea.k = "obs" =>
       \A r \in DOMAIN eb.rows :
         To(r) \in DOMAIN ea.rows /\ SameRow(ea.rows[To(r)], eb.rows[r])

Cur == B[l]
Alike ==
  l > 0 /\ Cur.k \in {"op", "obs"} /\ Cur.m # 0 =>
    /\ Cur.m \in DOMAIN Index[pair]
    /\ Agree(A[Index[pair][Cur.m]], Cur)
Inv_C10 == Alike
Inv_C15 == Alike
Inv_C17 == Alike
Inv_C19 == Alike

\* C25: reading calls were made while the storage failed.  The specification
\* has no such calls, so they correspond to no step at all: nothing is stored,
\* every remark answers what it answered before, through the handle the calls
\* were made with and through new ones, and the rest of the run agrees with the
\* run in which the calls were not made.
Recovered ==
  l > 0 /\ Cur.k = "flaky" =>
    /\ Cur.a = Cur.b
    /\ \A i \in DOMAIN Cur.tries :
         LET t == Cur.tries[i] IN t.rows = Cur.want /\ t.same = Cur.want[t.place]
Inv_C25 == Alike /\ Recovered

Expected == FoldLeft(LAMBDA n, x : n + Len(Runs[x.b].ev) + 1, 0, Pairs)
AllConsumed == TLCGet("stats").distinct = Expected
=============================================================================

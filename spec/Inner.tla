------------------------------- MODULE Inner -------------------------------
(***************************************************************************)
(* C22 and C23: the layers below the public interface, over a graph that   *)
(* was told through it.  The fact layer knows more than the interface      *)
(* shows: the story a story was created under.  The class layer knows what *)
(* every node is.  Both are compared with the abstract graph.              *)
(***************************************************************************)
EXTENDS Semnet, SequencesExt, Json, TLC, IOUtils

Data == JsonDeserialize(IOEnv.TRACE)
Texts == Data.texts
Runs == Data.runs

VARIABLES run, l, st, ids
vars == <<run, l, st, ids>>
Ev == Runs[run].ev
Cur == Ev[l]
At(k) == l > 0 /\ Cur.k = k

Init == run \in DOMAIN Runs /\ l = 0 /\ st = Empty /\ ids = <<>>
Step(e) ==
  IF e.k = "op" /\ e.r > 0
  THEN st' = Apply(st, e.c, e.h, e.o, e.p) /\ ids' = Append(ids, e.id)
  ELSE UNCHANGED <<st, ids>>
Next == l < Len(Ev) /\ l' = l + 1 /\ run' = run /\ Step(Ev[l + 1])
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* the first remark of the story that r's story was created under; 0: none
Parent(s, r) == LET up == s.story[StoryOf(s, r)].parent
                IN IF up = 0 THEN 0 ELSE FirstOfStory(s, up)
Flag(x) == IF x = 0 THEN 0 ELSE 1

\* what the fact of remark r answers, in remarks that facts begin with
Answers(s, r) ==
  LET up == Parent(s, r)  nf == NextFact(s, r)  ns == NextStory(s, r)
  IN <<Flag(up), up, Flag(nf), nf, FirstFact(s, r), Flag(ns), ns, FirstRemark(s, s.rem[r].fact)>>
\* and the facts one step away from it
Around(s, r) ==
  LET Row(x) == IF x = 0 THEN <<>> ELSE Answers(s, x)
  IN <<Answers(s, r), Row(Parent(s, r)), Row(NextFact(s, r)), Row(FirstFact(s, r)), Row(NextStory(s, r))>>

\* C22: facts and stories
Inv_C22 ==
  At("look") =>
    /\ Cur.wrote = 0
    /\ Len(Cur.rows) = NRem(st)
    /\ \A r \in 1..NRem(st) : Cur.rows[r] = Around(st, r)

\* C23: the kind of every node
Told == {Texts[st.rem[r].o] : r \in 1..NRem(st)} \cup {Texts[st.rem[r].p] : r \in 1..NRem(st)}
Details == {<<st.rem[r].o, st.rem[r].p>> : r \in 1..NRem(st)}
Inv_C23 ==
  At("kinds") =>
    LET is == [k \in 1..8 |-> Range(Cur.is[k])] IN
    /\ Cur.res = 1 /\ Cur.bad = 0 /\ Cur.wrote = 0
    /\ Cur.bits = 2
    /\ Cardinality(is[1]) = 2
    /\ Cardinality(is[2]) = Cardinality(CharNodes(Told))
    /\ Cardinality(is[3]) = Cardinality(WordNodes(Told))
    /\ Cardinality(is[4]) = Cardinality(PhraseNodes(Told))
    /\ Cardinality(is[5]) = Cardinality(Details)
    /\ is[6] = Range(ids)
    /\ Cardinality(is[7]) = Len(st.fact)
    /\ Cardinality(is[8]) = Len(st.story)
    /\ \A i, j \in 1..8 : i # j => is[i] \cap is[j] = {}

Expected == FoldLeft(LAMBDA n, x : n + Len(x.ev) + 1, 0, Runs)
AllConsumed == TLCGet("stats").distinct = Expected
=============================================================================

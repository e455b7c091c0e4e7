------------------------------- MODULE Vocab -------------------------------
(***************************************************************************)
(* C04: the vocabulary of a graph (characters, words, phrases, details) is *)
(* stored once.  The specification predicts how many items of each kind a  *)
(* history needs; the recorded runs say how many the real code stored, and *)
(* how many nodes each operation created.                                  *)
(***************************************************************************)
EXTENDS Semnet, SequencesExt, Json, TLC, IOUtils

Data == JsonDeserialize(IOEnv.TRACE)
Texts == Data.texts
Runs == Data.runs

VARIABLES run, l, st, voc, cost
vars == <<run, l, st, voc, cost>>
Ev == Runs[run].ev
Cur == Ev[l]
At(k) == l > 0 /\ Cur.k = k

\* voc: the texts accepted so far, the vocabulary they need, and the details
\* cost: what an operation of each kind created when it needed no vocabulary
NoVoc == [ts |-> {}, chars |-> {}, words |-> {}, phrases |-> {}, details |-> {}]
Known(v, o, p) == {o, p} \subseteq v.ts /\ <<o, p>> \in v.details
Learn(v, o, p) ==
  LET new == {o, p} \ v.ts
      tx == {Texts[t] : t \in new}
  IN [ts |-> v.ts \cup new,
      chars |-> v.chars \cup CharNodes(tx),
      words |-> v.words \cup WordNodes(tx),
      phrases |-> v.phrases \cup PhraseNodes(tx),
      details |-> v.details \cup {<<o, p>>}]
Obj(e) == IF e.c = "ar" THEN st.rem[e.h].o ELSE e.o

Init == run \in DOMAIN Runs /\ l = 0 /\ st = Empty /\ voc = NoVoc
        /\ cost = [c \in {"cs", "ar", "af", "cc"} |-> {}]

Step(e) ==
  IF e.k = "op" /\ e.r > 0
  THEN /\ st' = Apply(st, e.c, e.h, e.o, e.p)
       /\ voc' = Learn(voc, Obj(e), e.p)
       /\ cost' = IF Known(voc, Obj(e), e.p)
                  THEN [cost EXCEPT ![e.c] = @ \cup {e.creates}] ELSE cost
  ELSE IF e.k = "told"   \* the storage was written by Golden.tla
  THEN /\ st' = FoldLeft(LAMBDA g, x : Apply(g, x.c, x.h, x.o, x.p), st, e.ops)
       /\ voc' = FoldLeft(LAMBDA v, r : Learn(v, r.o, r.p), voc, st'.rem)
       /\ cost' = cost
  ELSE UNCHANGED <<st, voc, cost>>

Next == l < Len(Ev) /\ l' = l + 1 /\ run' = run /\ Step(Ev[l + 1])
Spec == Init /\ [][Next]_vars

Inv_C04 ==
  /\ At("count") =>
       /\ Cur.n[2] = Cardinality(voc.chars)
       /\ Cur.n[3] = Cardinality(voc.words)
       /\ Cur.n[4] = Cardinality(voc.phrases)
       /\ Cur.n[5] = Cardinality(voc.details)
  /\ \A c \in DOMAIN cost : Cardinality(cost[c]) <= 1

Expected == FoldLeft(LAMBDA n, x : n + Len(x.ev) + 1, 0, Runs)
AllConsumed == TLCGet("stats").distinct = Expected
=============================================================================

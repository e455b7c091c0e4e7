------------------------------- MODULE Design -------------------------------
(***************************************************************************)
(* Does the design of Impl.tla refine Semnet.tla?  TLC explores every      *)
(* history up to Depth operations over a few overlapping texts, and in     *)
(* each of them up to Crashes interruptions, at every single write; an     *)
(* interrupted operation is repeated.  poss is the set of explanations: a  *)
(* graph of Semnet.tla and the node of each of its remarks.  An            *)
(* interruption may or may not have let the operation take effect; what is *)
(* read from the storage decides, and one explanation has to remain.       *)
(***************************************************************************)
EXTENDS Impl, TLC

CONSTANTS Depth, Crashes, Small

\* code points with a common beginning in binary; words and phrases likewise
Texts == << <<1>>, <<1, Space, 2>>, <<2, 1>>, <<1, Space, 1>>, <<2>> >>
Pairs == IF Small THEN {<<1, 1>>, <<1, 2>>, <<2, 1>>}
         ELSE {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<3, 1>>, <<4, 2>>, <<5, 3>>}
TextOf(t) == Texts[t]

VARIABLES s, poss, handed, pend, done, left, told, fine
vars == <<s, poss, handed, pend, done, left, told, fine>>

\* s      the storage                     poss  the explanations
\* handed the remarks handed out          pend  the operation to be repeated
\* done   operations completed            left  interruptions left
\* told   the pairs of texts completely told so far
\* fine   what the last step did was as it should be

NoOp == <<>>
Init == /\ s = EmptyStore
        /\ poss = {[g |-> Empty, ids |-> <<>>]}
        /\ handed = {} /\ pend = NoOp /\ done = 0 /\ left = Crashes /\ told = {}
        /\ fine = [accepted |-> TRUE, added |-> TRUE, once |-> TRUE]

Ops == {<<"cs", 0, pr[1], pr[2]>> : pr \in Pairs}
       \cup {<<c, h, pr[1], pr[2]>> : c \in {"ar", "af", "cc"}, h \in handed, pr \in Pairs}

Told(e, op) == [c |-> op[1], h |-> IF op[2] = 0 THEN 0 ELSE IndexOf(e.ids, op[2])]
After_(e, op, r) ==
  LET x == Told(e, op)
      o == IF op[1] = "ar" THEN e.g.rem[x.h].o ELSE op[3]
  IN [g |-> Apply(e.g, op[1], x.h, o, op[4]), ids |-> Append(e.ids, r)]

\* the reads of the interface answer what the explanation says
At(ids, r) == IF r = 0 THEN 0 ELSE ids[r]
Matches(st, e) ==
  \A r \in DOMAIN e.ids : Has(st, e.ids[r]) /\
    Read(st, e.ids[r]) =
      [o |-> Texts[e.g.rem[r].o], p |-> Texts[e.g.rem[r].p],
       nf |-> At(e.ids, NextFact(e.g, r)), ff |-> At(e.ids, FirstFact(e.g, r)),
       ns |-> At(e.ids, NextStory(e.g, r)), nr |-> 0, whole |-> TRUE]

\* each write adds to what is there
Adds(st, wr) ==
  CASE wr[1] = 1 -> wr[2] = Size(st) + 1
    [] wr[1] = 2 -> st.next[wr[2]] \in {0, wr[3]} /\ st.prev[wr[3]] \in {0, wr[2]}
    [] wr[1] = 3 -> Has(st, wr[2]) /\ Has(st, wr[3])
Prefix(log, k) == FoldLeft(Do, s, SubSeq(log, 1, k))
OnlyAdds(log) == FoldLeft(LAMBDA x, wr : [st |-> Do(x.st, wr), ok |-> x.ok /\ Adds(x.st, wr)],
                          [st |-> s, ok |-> TRUE], log).ok
Created(log) == Cardinality({i \in DOMAIN log : log[i][1] = 1})
Needs == [c \in {"cs", "ar", "af", "cc"} |-> CASE c = "cs" -> 12 [] c = "ar" -> 4 [] c = "af" -> 8 [] c = "cc" -> 12]

Execute(op) == Run(s, op[1], op[2], Texts[op[3]], Texts[op[4]])
PairOf(op) == LET e == CHOOSE x \in poss : TRUE IN
  <<IF op[1] = "ar" THEN e.g.rem[IndexOf(e.ids, op[2])].o ELSE op[3], op[4]>>

Complete(op) ==
  LET y == Execute(op) IN
  /\ s' = y.s
  /\ poss' = {x \in {After_(e, op, y.v) : e \in poss} : Matches(y.s, x)}
  /\ handed' = handed \cup {y.v}
  /\ pend' = NoOp /\ done' = done + 1
  /\ told' = told \cup {PairOf(op)}
  /\ fine' = [accepted |-> y.ok, added |-> OnlyAdds(y.w),
              once |-> PairOf(op) \in told => Created(y.w) = Needs[op[1]]]
  /\ UNCHANGED left

Interrupted(op) ==
  LET y == Execute(op) IN
  /\ left > 0
  /\ \E k \in 1..Len(y.w) :
       LET st == Prefix(y.w, k) IN
       /\ s' = st
       /\ poss' = {x \in poss \cup {After_(e, op, y.v) : e \in poss} : Matches(st, x)}
  /\ pend' = op /\ left' = left - 1
  /\ UNCHANGED <<handed, done, told, fine>>

\* (a repeated operation on a remark is the same operation)
Next == /\ poss # {} /\ fine.accepted
        /\ IF pend = NoOp
           THEN done < Depth /\ \E op \in Ops : Complete(op) \/ Interrupted(op)
           ELSE Complete(pend) \/ Interrupted(pend)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Refines == poss # {}
Accepted == fine.accepted
OnlyAdded == fine.added
StoredOnce == fine.once
Classed == done > 0 => \A k \in 1..7 : s.next[k] = k + 1 /\ s.prev[k + 1] = k
LaidOut == left = Crashes /\ done > 0 /\ poss # {} =>
  /\ Shape(s) /\ Vocabulary(s)
  /\ \A e \in poss : Conforms(s, e.ids, e.g, TextOf)
=============================================================================

-------------------------------- MODULE Items --------------------------------
(***************************************************************************)
(* C26: the storage layer of each kind reads every stored item, from any   *)
(* of its nodes, as the whole that Layout.tla says it is, and answers what *)
(* it is joined to as the storage has it.                                  *)
(***************************************************************************)
EXTENDS Layout, SequencesExt, Json, TLC, IOUtils

Data == JsonDeserialize(IOEnv.TRACE)
Runs == Data.runs
VARIABLES run, l
vars == <<run, l>>
Ev == Runs[run].ev
Cur == Ev[l]

Init == run \in DOMAIN Runs /\ l = 0
Next == l < Len(Ev) /\ l' = l + 1 /\ run' = run
Spec == Init /\ [][Next]_vars

\* what a question is about: the slot, the direction, the form of the answer
\*   has   is anything joined       one   the one thing joined, otherwise an error
\*   some  one of what is joined    all   everything joined
Q(slot, dir, form) == [slot |-> slot, dir |-> dir, form |-> form]
Asked == [q \in {
  "bit.HasTargetCharacter", "bit.GetTargetCharacter",
  "character.GetTargetBit", "character.GetTargetCharacters", "character.HasSourceCharacter", "character.GetSourceCharacter",
  "character.HasTargetWord", "character.GetTargetWord",
  "word.GetSourceCharacter", "word.GetTargetCharacter", "word.HasSourceWord", "word.GetSourceWord", "word.GetTargetWords",
  "word.GetTargetPhrase", "word.HasTargetPhrase",
  "phrase.GetTargetPhrases", "phrase.HasSourcePhrase", "phrase.GetSourcePhrase", "phrase.GetSourceWord", "phrase.GetTargetWord",
  "phrase.GetSourceDetails", "phrase.GetTargetDetails",
  "remark.GetTargetFact", "remark.GetSourceDetail", "remark.HasNextRemark", "remark.GetNextRemark",
  "fact.HasTargetFact", "fact.GetTargetFact", "fact.GetFirstRemark", "fact.GetTargetStory",
  "story.HasTargetPosition", "story.GetTargetPosition", "story.GetTargetFact", "story.HasTargetTree", "story.GetTargetTree",
  "story.HasSourceTree", "story.GetSourceTree"} |->
  CASE q = "bit.HasTargetCharacter" -> Q(1, "tgt", "has")
    [] q = "bit.GetTargetCharacter" -> Q(1, "tgt", "one")
    [] q = "character.GetTargetBit" -> Q(1, "tgt", "one")
    [] q = "character.GetTargetCharacters" -> Q(2, "tgt", "all")
    [] q = "character.HasSourceCharacter" -> Q(2, "src", "has")
    [] q = "character.GetSourceCharacter" -> Q(2, "src", "one")
    [] q = "character.HasTargetWord" -> Q(3, "tgt", "has")
    [] q = "character.GetTargetWord" -> Q(3, "tgt", "one")
    [] q = "word.GetSourceCharacter" -> Q(1, "src", "one")
    [] q = "word.GetTargetCharacter" -> Q(1, "tgt", "one")
    [] q = "word.HasSourceWord" -> Q(2, "src", "has")
    [] q = "word.GetSourceWord" -> Q(2, "src", "one")
    [] q = "word.GetTargetWords" -> Q(2, "tgt", "all")
    [] q = "word.GetTargetPhrase" -> Q(3, "tgt", "one")
    [] q = "word.HasTargetPhrase" -> Q(3, "tgt", "has")
    [] q = "phrase.GetTargetPhrases" -> Q(2, "tgt", "all")
    [] q = "phrase.HasSourcePhrase" -> Q(2, "src", "has")
    [] q = "phrase.GetSourcePhrase" -> Q(2, "src", "one")
    [] q = "phrase.GetSourceWord" -> Q(1, "src", "one")
    [] q = "phrase.GetTargetWord" -> Q(1, "tgt", "one")
    [] q = "phrase.GetSourceDetails" -> Q(3, "src", "all")
    [] q = "phrase.GetTargetDetails" -> Q(3, "tgt", "all")
    [] q = "remark.GetTargetFact" -> Q(3, "tgt", "one")
    [] q = "remark.GetSourceDetail" -> Q(1, "src", "one")
    [] q = "remark.HasNextRemark" -> Q(2, "tgt", "has")
    [] q = "remark.GetNextRemark" -> Q(2, "tgt", "one")
    [] q = "fact.HasTargetFact" -> Q(2, "tgt", "has")
    [] q = "fact.GetTargetFact" -> Q(2, "tgt", "one")
    [] q = "fact.GetFirstRemark" -> Q(1, "tgt", "one")
    [] q = "fact.GetTargetStory" -> Q(3, "tgt", "one")
    [] q = "story.HasTargetPosition" -> Q(2, "tgt", "has")
    [] q = "story.GetTargetPosition" -> Q(2, "tgt", "one")
    [] q = "story.GetTargetFact" -> Q(1, "tgt", "one")
    [] q = "story.HasTargetTree" -> Q(3, "tgt", "has")
    [] q = "story.GetTargetTree" -> Q(3, "tgt", "one")
    [] q = "story.HasSourceTree" -> Q(3, "src", "has")
    [] q = "story.GetSourceTree" -> Q(3, "src", "some")]

Answer(s, e, a) ==
  IF a.q = "detail.GetObjectAndPropertyPhrases"
  THEN /\ One(Srcs(s, Slot(s, e, 1))) /\ One(Tgts(s, Slot(s, e, 1)))
       /\ a.r = 1 /\ a.v = <<The(Srcs(s, Slot(s, e, 1))), The(Tgts(s, Slot(s, e, 1)))>>
  ELSE LET q == Asked[a.q]
           x == Slot(s, e, q.slot)
           S == IF q.dir = "tgt" THEN Tgts(s, x) ELSE Srcs(s, x)
       IN CASE q.form = "has"  -> a.r = 1 /\ a.v = <<IF S = {} THEN 0 ELSE 1>>
            [] q.form = "one"  -> IF One(S) THEN a.r = 1 /\ a.v = <<The(S)>> ELSE a.r = 0
            [] q.form = "some" -> IF S = {} THEN a.r = 0 ELSE a.r = 1 /\ Len(a.v) = 1 /\ a.v[1] \in S
            [] q.form = "all"  -> a.r = 1 /\ Range(a.v) = S /\ Len(a.v) = Cardinality(S)

\* (a method that is not there is -9)
Absent == -9
Whole(s, k, e) == [i \in 1..(Slots[k] + 1) |-> Slot(s, e, i - 1)]
IsWhole(read, whole) ==
  \/ read = <<Absent>>
  \/ Len(read) = Len(whole) /\ \A i \in DOMAIN whole : read[i] \in {whole[i], Absent}

Inv_C26 ==
  l > 0 /\ Cur.k = "items" =>
    LET s == Cur.s IN
    /\ Cur.wrote = 0 /\ Cur.bad = 0
    /\ \A i \in DOMAIN Cur.items :
         LET x == Cur.items[i]  whole == Whole(s, x.k, x.e) IN
         /\ Len(x.reads) = Slots[x.k] + 1
         /\ \A j \in DOMAIN x.reads : IsWhole(x.reads[j], whole)
         /\ \A j \in DOMAIN x.asks : Answer(s, x.e, x.asks[j])
    /\ Range(Cur.bits) = {Slot(s, e, 1) : e \in Items(s, Bit)} /\ Len(Cur.bits) = 2
    /\ Range(Cur.digits) \in {{}, {0, 1}}

Expected == FoldLeft(LAMBDA n, x : n + Len(x.ev) + 1, 0, Runs)
AllConsumed == TLCGet("stats").distinct = Expected
=============================================================================

------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* How a graph is laid out in the storage: the refinement mapping between  *)
(* Store.tla and Semnet.tla.                                               *)
(*                                                                         *)
(* Nodes 1..8 name the classes bit, character, word, phrase, detail,       *)
(* remark, fact, story, chained by reference.  Every item is one node with *)
(* an edge to the node of its class, followed by reference by its slots:   *)
(*   bit        character                                                  *)
(*   character  bit, character, word                                       *)
(*   word       character, word, phrase                                    *)
(*   phrase     word, phrase, detail                                       *)
(*   detail     phrase, remark                                             *)
(*   remark     detail, position, fact                                     *)
(*   fact       remark, position, story                                    *)
(*   story      fact, position, tree                                       *)
(* All other edges join slots, as listed in Edges.                         *)
(***************************************************************************)
EXTENDS Store, Semnet

Bit == 1  Character == 2  Word == 3  Phrase == 4
Detail == 5  Remark == 6  Fact == 7  Story == 8
Slots == <<1, 3, 3, 3, 2, 3, 3, 3>>

\* <<class, slot>> pairs that may be joined, source first
Edges == {
  <<Character, 1, Bit, 1>>, <<Bit, 1, Character, 1>>,       \* value; first digit of a character
  <<Character, 2, Character, 2>>,                           \* next digit
  <<Character, 3, Word, 1>>, <<Word, 1, Character, 3>>,     \* first letter of a word; value
  <<Word, 2, Word, 2>>,                                     \* next letter
  <<Word, 3, Phrase, 1>>, <<Phrase, 1, Word, 3>>,           \* first word of a phrase; value
  <<Phrase, 2, Phrase, 2>>,                                 \* next word
  <<Phrase, 3, Detail, 1>>, <<Detail, 1, Phrase, 3>>,       \* object; property
  <<Detail, 2, Remark, 1>>,                                 \* a remark stating the detail
  <<Remark, 2, Remark, 2>>,                                 \* next remark
  <<Remark, 3, Fact, 1>>, <<Fact, 1, Remark, 3>>,           \* its fact; first remark
  <<Fact, 2, Fact, 2>>,                                     \* next fact
  <<Fact, 3, Story, 1>>, <<Story, 1, Fact, 3>>,             \* its story; first fact
  <<Story, 2, Story, 2>>,                                   \* next sibling
  <<Story, 3, Story, 3>> }                                  \* parent

\* the items of a class, the slots of an item
Items(s, k) == {s.src[k][i] : i \in DOMAIN s.src[k]}
RECURSIVE Slot(_, _, _)
Slot(s, e, i) == IF i = 0 THEN e ELSE IF e = 0 THEN 0 ELSE Slot(s, s.next[e], i - 1)
\* the item whose i-th slot is x
RECURSIVE Owner(_, _, _)
Owner(s, x, i) == IF i = 0 THEN x ELSE IF x = 0 THEN 0 ELSE Owner(s, s.prev[x], i - 1)

Tgts(s, x) == IF x = 0 THEN {} ELSE Range(s.tgt[x])
Srcs(s, x) == IF x = 0 THEN {} ELSE Range(s.src[x])
The(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : TRUE

\* every node's place: <<class, slot, item>>, slot 0 for the item's own node
Places(s) ==
  LET mine(k) == UNION {{<<Slot(s, e, i), <<k, i, e>>>> : i \in 0..Slots[k]} : e \in Items(s, k)}
  IN UNION {mine(k) : k \in 1..8}

-----------------------------------------------------------------------------
(* Shape: every node has exactly one place and every edge a meaning        *)

Shape(s) ==
  LET pl == Places(s)
      at == [x \in {p[1] : p \in pl} |-> (CHOOSE p \in pl : p[1] = x)[2]]
  IN /\ Size(s) >= 8
     /\ \A k \in 1..7 : s.next[k] = k + 1 /\ s.prev[k + 1] = k
     /\ s.next[8] = 0 /\ s.prev[1] = 0
     /\ \A k \in 1..8 : s.tgt[k] = <<>>
     /\ {p[1] : p \in pl} = 9..Size(s)
     /\ Cardinality(pl) = Size(s) - 8
     /\ \A x \in 9..Size(s) :
          LET k == at[x][1]  i == at[x][2]  e == at[x][3] IN
          /\ (i = 0) <=> (s.prev[x] = 0)
          /\ (i = Slots[k]) <=> (s.next[x] = 0)
          /\ i > 0 => s.next[s.prev[x]] = x
          /\ i = 0 => s.tgt[x] = <<k>> /\ s.src[x] = <<>>
          /\ i > 0 => \A y \in Range(s.tgt[x]) :
                        y > 8 /\ <<k, i, at[y][1], at[y][2]>> \in Edges

-----------------------------------------------------------------------------
(* Reading the vocabulary                                                  *)

BitValue(s, e) == IF e = (CHOOSE x \in Items(s, Bit) : \A y \in Items(s, Bit) : x <= y) THEN 0 ELSE 1
RECURSIVE CharValue(_, _, _)
CharValue(s, e, fuel) ==
  LET b == BitValue(s, Owner(s, The(Tgts(s, Slot(s, e, 1))), 1))
      up == Srcs(s, Slot(s, e, 2))
  IN IF up = {} \/ fuel = 0 THEN b ELSE 2 * CharValue(s, Owner(s, The(up), 2), fuel - 1) + b
RECURSIVE WordText(_, _, _)
WordText(s, e, fuel) ==
  LET c == CharValue(s, Owner(s, The(Tgts(s, Slot(s, e, 1))), 3), 64)
      up == Srcs(s, Slot(s, e, 2))
  IN IF up = {} \/ fuel = 0 THEN <<c>> ELSE Append(WordText(s, Owner(s, The(up), 2), fuel - 1), c)
RECURSIVE PhraseText(_, _, _)
PhraseText(s, e, fuel) ==
  LET w == WordText(s, Owner(s, The(Tgts(s, Slot(s, e, 1))), 3), Size(s))
      up == Srcs(s, Slot(s, e, 2))
  IN IF up = {} \/ fuel = 0 THEN w
     ELSE PhraseText(s, Owner(s, The(up), 2), fuel - 1) \o <<Space>> \o w

\* the vocabulary items point at what they need, and are there once
One(S) == Cardinality(S) = 1
AtMostOne(S) == Cardinality(S) <= 1
Vocabulary(s) ==
  /\ Cardinality(Items(s, Bit)) = 2
  /\ \A k \in {Character, Word, Phrase} : \A e \in Items(s, k) :
       /\ One(Tgts(s, Slot(s, e, 1)))
       /\ AtMostOne(Srcs(s, Slot(s, e, 2)))
       \* an item without a predecessor is the first of its value, and only that one
       /\ Srcs(s, Slot(s, e, 2)) = {} <=> Srcs(s, Slot(s, e, 1)) # {}
       /\ Srcs(s, Slot(s, e, 1)) \subseteq Tgts(s, Slot(s, e, 1))
  /\ \A e \in Items(s, Detail) : One(Srcs(s, Slot(s, e, 1))) /\ One(Tgts(s, Slot(s, e, 1)))

-----------------------------------------------------------------------------
(* Conformance: store s, in which remark r is node id[r], holds exactly    *)
(* the graph g; Text(t) is the text with number t                          *)

DetailOf(s, x) == Owner(s, The(Srcs(s, Slot(s, x, 1))), 2)
ObjectText(s, d) == PhraseText(s, Owner(s, The(Srcs(s, Slot(s, d, 1))), 3), Size(s))
PropertyText(s, d) == PhraseText(s, Owner(s, The(Tgts(s, Slot(s, d, 1))), 3), Size(s))
FactOf(s, x) == Owner(s, The(Tgts(s, Slot(s, x, 3))), 1)
StoryNode(s, f) == Owner(s, The(Tgts(s, Slot(s, f, 3))), 1)

Conforms(s, id, g, Text(_)) ==
  LET F == [f \in DOMAIN g.fact |-> FactOf(s, id[g.fact[f].rems[1]])]
      T == [t \in DOMAIN g.story |-> StoryNode(s, F[g.story[t].facts[1]])]
      Link(S, n) == IF n = 0 THEN S = {} ELSE S = {n}
  IN /\ Items(s, Remark) = Range(id)
     /\ \A x \in Items(s, Remark) : One(Srcs(s, Slot(s, x, 1))) /\ One(Tgts(s, Slot(s, x, 3)))
     /\ \A x \in Items(s, Fact) : One(Tgts(s, Slot(s, x, 1))) /\ One(Tgts(s, Slot(s, x, 3)))
     /\ Items(s, Fact) = Range(F) /\ Cardinality(Range(F)) = Len(g.fact)
     /\ Items(s, Story) = Range(T) /\ Cardinality(Range(T)) = Len(g.story)
     /\ \A r \in DOMAIN g.rem :
          /\ ObjectText(s, DetailOf(s, id[r])) = Text(g.rem[r].o)
          /\ PropertyText(s, DetailOf(s, id[r])) = Text(g.rem[r].p)
          /\ FactOf(s, id[r]) = F[g.rem[r].fact]
          \* the recorded finding: a remark added to a fact may be left unlinked
          /\ LET n == NextRemark(g, r) IN
             \/ Tgts(s, Slot(s, id[r], 2)) = {}
             \/ n # 0 /\ Tgts(s, Slot(s, id[r], 2)) = {Slot(s, id[n], 2)}
     /\ \A f \in DOMAIN g.fact :
          LET n == After(g.story[g.fact[f].story].facts, f) IN
          /\ Tgts(s, Slot(s, F[f], 1)) = {Slot(s, id[g.fact[f].rems[1]], 3)}
          /\ Link(Tgts(s, Slot(s, F[f], 2)), IF n = 0 THEN 0 ELSE Slot(s, F[n], 2))
          /\ Tgts(s, Slot(s, F[f], 3)) = {Slot(s, T[g.fact[f].story], 1)}
     /\ \A t \in DOMAIN g.story :
          LET up == g.story[t].parent
              n == IF up = 0 THEN 0 ELSE After(g.story[up].kids, t) IN
          /\ Tgts(s, Slot(s, T[t], 1)) = {Slot(s, F[g.story[t].facts[1]], 3)}
          /\ Link(Tgts(s, Slot(s, T[t], 2)), IF n = 0 THEN 0 ELSE Slot(s, T[n], 2))
          /\ Link(Tgts(s, Slot(s, T[t], 3)), IF up = 0 THEN 0 ELSE Slot(s, T[up], 3))
=============================================================================

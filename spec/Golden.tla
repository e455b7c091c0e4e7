------------------------------- MODULE Golden -------------------------------
(***************************************************************************)
(* Writes stores: for a graph of Semnet.tla, the storage contents that     *)
(* Layout.tla documents, with every link in place.  The real code has to   *)
(* read them (C21, C16).  The refinement mapping of Layout.tla is checked  *)
(* on every store written here, so the two directions agree.               *)
(***************************************************************************)
EXTENDS Layout, SequencesExt, Json, TLC, IOUtils

Input == JsonDeserialize(IOEnv.HISTORIES)
Texts == Input.texts
Hists == Input.runs

\* the graph a history tells; ops are [c, h, o, p]
Graph(ops) == FoldLeft(LAMBDA g, e : Apply(g, e.c, e.h, e.o, e.p), Empty, ops)

\* all items in storage order: <<class, key>>
ItemsOf(g) ==
  LET used == {Texts[g.rem[r].o] : r \in DOMAIN g.rem} \cup {Texts[g.rem[r].p] : r \in DOMAIN g.rem}
      pairs == {<<Texts[g.rem[r].o], Texts[g.rem[r].p]>> : r \in DOMAIN g.rem}
      As(k, S) == LET q == SetToSeq(S) IN [i \in DOMAIN q |-> <<k, q[i]>>]
      Num(k, n) == [i \in 1..n |-> <<k, i>>]
  IN <<<<Bit, 0>>, <<Bit, 1>>>> \o As(Character, CharNodes(used)) \o As(Word, WordNodes(used))
     \o As(Phrase, PhraseNodes(used)) \o As(Detail, pairs)
     \o Num(Remark, Len(g.rem)) \o Num(Fact, Len(g.fact)) \o Num(Story, Len(g.story))

\* the node of each item
Numbering(items) ==
  LET ends == FoldLeft(LAMBDA acc, it : Append(acc, acc[Len(acc)] + Slots[it[1]] + 1), <<9>>, items)
  IN [it \in Range(items) |-> ends[IndexOf(items, it)]]

Links(g, N) ==
  LET s(k, key, i) == N[<<k, key>>] + i
      prefix(k, below, key, low) ==
        {<<s(k, key, 1), low>>}
        \cup IF Len(key) = 1 THEN {<<low, s(k, key, 1)>>}
             ELSE {<<s(k, SubSeq(key, 1, Len(key) - 1), 2), s(k, key, 2)>>}
      last(key) == key[Len(key)]
      of(it) ==
        LET k == it[1]  x == it[2] IN
        {<<N[it], k>>} \cup
        (CASE k = Bit -> {}
           [] k = Character -> prefix(k, Bit, x, s(Bit, last(x), 1))
           [] k = Word -> prefix(k, Character, x, s(Character, BinaryOf(last(x)), 3))
           [] k = Phrase -> prefix(k, Word, x, s(Word, last(x), 3))
           [] k = Detail -> {<<s(Phrase, Words(x[1]), 3), s(k, x, 1)>>, <<s(k, x, 1), s(Phrase, Words(x[2]), 3)>>}
           [] k = Remark ->
                {<<s(Detail, <<Texts[g.rem[x].o], Texts[g.rem[x].p]>>, 2), s(k, x, 1)>>,
                 <<s(k, x, 3), s(Fact, g.rem[x].fact, 1)>>}
                \cup (IF NextRemark(g, x) = 0 THEN {} ELSE {<<s(k, x, 2), s(k, NextRemark(g, x), 2)>>})
           [] k = Fact ->
                LET n == After(g.story[g.fact[x].story].facts, x) IN
                {<<s(k, x, 1), s(Remark, g.fact[x].rems[1], 3)>>, <<s(k, x, 3), s(Story, g.fact[x].story, 1)>>}
                \cup (IF n = 0 THEN {} ELSE {<<s(k, x, 2), s(k, n, 2)>>})
           [] k = Story ->
                LET up == g.story[x].parent
                    n == IF up = 0 THEN 0 ELSE After(g.story[up].kids, x) IN
                {<<s(k, x, 1), s(Fact, g.story[x].facts[1], 3)>>}
                \cup (IF up = 0 THEN {} ELSE {<<s(k, x, 3), s(k, up, 3)>>})
                \cup (IF n = 0 THEN {} ELSE {<<s(k, x, 2), s(k, n, 2)>>}))
  IN UNION {of(it) : it \in DOMAIN N}

Build(ops) ==
  LET g == Graph(ops)
      items == ItemsOf(g)
      N == Numbering(items)
      size == FoldLeft(LAMBDA n, it : n + Slots[it[1]] + 1, 8, items)
      chain(it) == {<<N[it] + i - 1, N[it] + i>> : i \in 1..Slots[it[1]]}
  IN [n |-> size,
      refs |-> SetToSeq({<<k, k + 1>> : k \in 1..7} \cup UNION {chain(it) : it \in DOMAIN N}),
      edges |-> SetToSeq(Links(g, N)),
      remarks |-> [r \in DOMAIN g.rem |-> N[<<Remark, r>>]]]

\* the same, written into an empty storage by the actions of Store.tla
AsStore(b) ==
  LET made == FoldLeft(LAMBDA s, x : Create(s), EmptyStore, [x \in 1..b.n |-> x])
      chained == FoldLeft(LAMBDA s, r : SetReference(s, r[1], r[2]), made, b.refs)
  IN FoldLeft(LAMBDA s, e : Connect(s, e[1], e[2]), chained, b.edges)

\* one history after the other, each written to a file of its own
VARIABLES hist, built
Init == hist \in DOMAIN Hists /\ built = <<>>
Next == built = <<>> /\ hist' = hist /\ built' = Build(Hists[hist].ops)
Spec == Init /\ [][Next]_<<hist, built>>

TextOf(t) == Texts[t]
Faithful == built # <<>> =>
  LET s == AsStore(built) IN
  /\ Shape(s) /\ Vocabulary(s) /\ Conforms(s, built.remarks, Graph(Hists[hist].ops), TextOf)
  /\ JsonSerialize(IOEnv.GOLDEN \o "." \o ToString(hist), built)
=============================================================================

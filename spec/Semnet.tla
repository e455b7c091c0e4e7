------------------------------- MODULE Semnet -------------------------------
(***************************************************************************)
(* What a semnet graph is, as its user sees it: remarks (an object and a   *)
(* property) grouped into facts, facts into stories, stories into trees.   *)
(* The operations are total functions from state to state; the observers   *)
(* say what every public read must answer.  Nothing here mentions storage. *)
(*                                                                         *)
(* Texts are sequences of code points; the specification refers to them    *)
(* by number (an index into a table), so equality of texts is equality of  *)
(* numbers.                                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Range(f) == {f[x] : x \in DOMAIN f}
Max2(a, b) == IF a > b THEN a ELSE b

-----------------------------------------------------------------------------
(* State                                                                   *)

\* rem[r]   = [fact, o, p]            in creation order
\* fact[f]  = [story, rems]           rems: remarks in the order they were added
\* story[s] = [parent, facts, kids]   parent 0 for a top-level story
Empty == [rem |-> <<>>, fact |-> <<>>, story |-> <<>>]

NRem(s) == Len(s.rem)
StoryOf(s, r) == s.fact[s.rem[r].fact].story
RECURSIVE RootOf(_, _)
RootOf(s, st) == IF s.story[st].parent = 0 THEN st ELSE RootOf(s, s.story[st].parent)
Tree(s, r) == RootOf(s, StoryOf(s, r))

-----------------------------------------------------------------------------
(* Operations                                                              *)

NewStory(s, parent, o, p) ==
  LET r == NRem(s) + 1  f == Len(s.fact) + 1  t == Len(s.story) + 1
      kin == IF parent = 0 THEN s.story
             ELSE [s.story EXCEPT ![parent].kids = Append(@, t)]
  IN [rem   |-> Append(s.rem, [fact |-> f, o |-> o, p |-> p]),
      fact  |-> Append(s.fact, [story |-> t, rems |-> <<r>>]),
      story |-> Append(kin, [parent |-> parent, facts |-> <<f>>, kids |-> <<>>])]

CreateStory(s, o, p) == NewStory(s, 0, o, p)

CreateChildStory(s, h, o, p) == NewStory(s, StoryOf(s, h), o, p)

AddFactToStory(s, h, o, p) ==
  LET r == NRem(s) + 1  f == Len(s.fact) + 1  t == StoryOf(s, h)
  IN [rem   |-> Append(s.rem, [fact |-> f, o |-> o, p |-> p]),
      fact  |-> Append(s.fact, [story |-> t, rems |-> <<r>>]),
      story |-> [s.story EXCEPT ![t].facts = Append(@, f)]]

AddRemarkToFact(s, h, p) ==
  LET r == NRem(s) + 1  f == s.rem[h].fact
  IN [rem   |-> Append(s.rem, [fact |-> f, o |-> s.rem[h].o, p |-> p]),
      fact  |-> [s.fact EXCEPT ![f].rems = Append(@, r)],
      story |-> s.story]

Apply(s, c, h, o, p) ==
  CASE c = "cs" -> CreateStory(s, o, p)
    [] c = "cc" -> CreateChildStory(s, h, o, p)
    [] c = "af" -> AddFactToStory(s, h, o, p)
    [] c = "ar" -> AddRemarkToFact(s, h, p)

-----------------------------------------------------------------------------
(* Observers                                                               *)

IndexOf(seq, x) == CHOOSE i \in DOMAIN seq : seq[i] = x
After(seq, x) == LET i == IndexOf(seq, x) IN IF i < Len(seq) THEN seq[i + 1] ELSE 0

FirstRemark(s, f) == s.fact[f].rems[1]
FirstOfStory(s, t) == FirstRemark(s, s.story[t].facts[1])

\* 0 means: there is none, HasNext... is false and asking for it is an error
NextFact(s, r) ==
  LET f == s.rem[r].fact  n == After(s.story[s.fact[f].story].facts, f)
  IN IF n = 0 THEN 0 ELSE FirstRemark(s, n)

FirstFact(s, r) == FirstOfStory(s, StoryOf(s, r))

NextStory(s, r) ==
  LET t == StoryOf(s, r)  up == s.story[t].parent
      n == IF up = 0 THEN 0 ELSE After(s.story[up].kids, t)
  IN IF n = 0 THEN 0 ELSE FirstOfStory(s, n)

NextRemark(s, r) == After(s.fact[s.rem[r].fact].rems, r)

\* the remarks a rendering of r's story goes through
RECURSIVE RemarksFrom(_, _)
RemarksFrom(s, r) ==
  LET n == NextRemark(s, r) IN IF n = 0 THEN <<r>> ELSE <<r>> \o RemarksFrom(s, n)
Rendering(s, r) == RemarksFrom(s, FirstFact(s, r))

-----------------------------------------------------------------------------
(* Texts                                                                   *)

Space == 32

\* words separated by single spaces, at least one word, no empty word
WellFormed(t) ==
  /\ t # <<>>
  /\ t[1] # Space
  /\ t[Len(t)] # Space
  /\ \A i \in 1..(Len(t) - 1) : ~(t[i] = Space /\ t[i + 1] = Space)

\* the words of a well-formed text
SpacesOf(t) == {i \in DOMAIN t : t[i] = Space}
RECURSIVE WordsFrom(_, _)
WordsFrom(t, from) ==
  LET later == {i \in SpacesOf(t) : i >= from}
  IN IF later = {} THEN <<SubSeq(t, from, Len(t))>>
     ELSE LET i == CHOOSE x \in later : \A y \in later : x <= y
          IN <<SubSeq(t, from, i - 1)>> \o WordsFrom(t, i + 1)
Words(t) == WordsFrom(t, 1)

Prefixes(seq) == {SubSeq(seq, 1, i) : i \in 1..Len(seq)}

\* the binary digits of a code point, most significant first; 0 is "0"
RECURSIVE BinaryOf(_)
BinaryOf(n) == IF n < 2 THEN <<n>> ELSE Append(BinaryOf(n \div 2), n % 2)

\* the vocabulary a set of texts needs: every item is stored once
CharNodes(ts) == UNION {Prefixes(BinaryOf(c)) : c \in UNION {Range(t) \ {Space} : t \in ts}}
WordNodes(ts) == UNION {Prefixes(w) : w \in UNION {Range(Words(t)) : t \in ts}}
PhraseNodes(ts) == UNION {Prefixes(Words(t)) : t \in ts}
=============================================================================

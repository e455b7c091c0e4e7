-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* The listed properties, said of Semnet.tla itself.  Trace.tla holds the  *)
(* code to the functions of Semnet.tla; this module says that those        *)
(* functions are what the properties ask for, independently of how they    *)
(* are defined: as laws of the histories (hist) that TLC enumerates.       *)
(* State laws are invariants, laws about change are checked of every step. *)
(***************************************************************************)
EXTENDS Semnet, SequencesExt

CONSTANT Depth
VARIABLES s, hist
vars == <<s, hist>>

\* hist[r]: the operation that made remark r; its texts are 2r and 2r + 1
O(r) == 2 * r
P(r) == 2 * r + 1
Text(h, r) == IF h[r].c = "ar" THEN LET RECURSIVE Up(_) Up(x) == IF h[x].c = "ar" THEN Up(h[x].h) ELSE x IN O(Up(r)) ELSE O(r)
Do(g, h, r) == Apply(g, h[r].c, h[r].h, IF h[r].h = 0 THEN O(r) ELSE O(r), P(r))

Ops == {[c |-> "cs", h |-> 0]} \cup {[c |-> c, h |-> h] : c \in {"ar", "af", "cc"}, h \in 1..Len(hist)}
Init == s = Empty /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E op \in Ops :
             /\ hist' = Append(hist, op)
             /\ s' = Do(s, hist', Len(hist'))
Spec == Init /\ [][Next]_vars

R == 1..Len(hist)

-----------------------------------------------------------------------------
(* Who belongs together, from the history alone                            *)

RECURSIVE FactFounder(_, _)  \* the remark that began r's fact
FactFounder(h, r) == IF h[r].c = "ar" THEN FactFounder(h, h[r].h) ELSE r
RECURSIVE StoryFounder(_, _) \* the remark that began r's story
StoryFounder(h, r) == IF h[r].c \in {"cs", "cc"} THEN r ELSE StoryFounder(h, h[r].h)
RECURSIVE Founder(_, _)      \* the remark that began r's top-level story
Founder(h, r) == LET f == StoryFounder(h, r) IN IF h[f].c = "cs" THEN f ELSE Founder(h, h[f].h)

Begins(h, r) == h[r].c # "ar"                   \* r begins a fact
FactsOf(h, f) == {r \in DOMAIN h : Begins(h, r) /\ StoryFounder(h, r) = f}
KidsOf(h, f) == {r \in DOMAIN h : h[r].c = "cc" /\ StoryFounder(h, h[r].h) = f}
RemarksOf(h, f) == {r \in DOMAIN h : FactFounder(h, r) = f}

\* the least member of S above r; 0: none
Above(S, r) == LET up == {x \in S : x > r} IN IF up = {} THEN 0 ELSE CHOOSE x \in up : \A y \in up : x <= y
InOrder(S) == SetToSortSeq(S, LAMBDA a, b : a < b)

\* where following Link from r leads, in order
RECURSIVE Follow(_, _, _)
Follow(Link(_), r, most) == IF r = 0 \/ most = 0 THEN <<>> ELSE <<r>> \o Follow(Link, Link(r), most - 1)

-----------------------------------------------------------------------------
(* Laws of states                                                          *)

Law_C01 == /\ NRem(s) = Len(hist)
           /\ \A r \in R : s.rem[r].o = Text(hist, r) /\ s.rem[r].p = P(r)
           /\ \A r \in R : hist[r].c = "ar" => s.rem[r].o = s.rem[hist[r].h].o

Law_C05 ==
  \A r \in R :
    LET f == StoryFounder(hist, r)  all == FactsOf(hist, f) IN
    /\ NextFact(s, r) = Above(all, FactFounder(hist, r))
    /\ r = f => Follow(LAMBDA x : NextFact(s, x), r, 99) = InOrder(all)

Law_C06 == \A r \in R : FirstFact(s, r) = StoryFounder(hist, r) /\ FirstFact(s, FirstFact(s, r)) = FirstFact(s, r)

Law_C07 ==
  \A r \in R :
    LET f == StoryFounder(hist, r)  all == KidsOf(hist, f) IN
    /\ hist[f].c = "cs" => NextStory(s, r) = 0
    /\ hist[f].c = "cc" => NextStory(s, r) = Above(KidsOf(hist, StoryFounder(hist, hist[f].h)), f)
    /\ all # {} => Follow(LAMBDA x : NextStory(s, x), InOrder(all)[1], 99) = InOrder(all)

Law_C08 ==
  \A r \in R :
    /\ Rendering(s, r) = Rendering(s, FirstFact(s, r))
    /\ Rendering(s, r) = InOrder(RemarksOf(hist, StoryFounder(hist, r)))

Law_C16 ==
  \A r \in R :
    LET f == FactFounder(hist, r)  all == RemarksOf(hist, f) IN
    /\ NextRemark(s, r) = Above(all, r)
    /\ r = f => Follow(LAMBDA x : NextRemark(s, x), r, 99) = InOrder(all)

\* the story tree: parents are older, children know their parents and the other way round
Law_C22 ==
  \A t \in DOMAIN s.story :
    LET up == s.story[t].parent IN
    /\ up < t
    /\ up # 0 => t \in Range(s.story[up].kids)
    /\ \A k \in Range(s.story[t].kids) : s.story[k].parent = t
    /\ LET f == FirstOfStory(s, t) IN
       /\ (up = 0) = (hist[f].c = "cs")
       /\ up # 0 => FirstOfStory(s, up) = StoryFounder(hist, hist[f].h)

-----------------------------------------------------------------------------
(* Laws of steps                                                           *)

Kept(old, new) == old # 0 => new = old

Step_C12 ==
  \A r \in R :
    /\ s'.rem[r].o = s.rem[r].o /\ s'.rem[r].p = s.rem[r].p
    /\ FirstFact(s', r) = FirstFact(s, r)
    /\ Kept(NextFact(s, r), NextFact(s', r))
    /\ Kept(NextStory(s, r), NextStory(s', r))
    /\ Kept(NextRemark(s, r), NextRemark(s', r))

Seen(g, r) == <<g.rem[r].o, g.rem[r].p, NextFact(g, r), FirstFact(g, r), NextStory(g, r), NextRemark(g, r), Rendering(g, r)>>

\* an operation touches its own story; a child also the sibling before it
Step_C17 ==
  LET new == Len(hist) + 1  op == hist'[new] IN
  \A r \in R :
    LET mine == op.c # "cs" /\ StoryFounder(hist, r) = StoryFounder(hist, op.h)
        brother == op.c = "cc" /\ StoryFounder(hist, r) \in KidsOf(hist, StoryFounder(hist, op.h))
                               /\ NextStory(s, r) = 0
    IN CASE op.c = "cc" /\ brother -> Seen(s', r) = [Seen(s, r) EXCEPT ![5] = new]
         [] mine /\ op.c \in {"af", "ar"} -> TRUE
         [] OTHER -> Seen(s', r) = Seen(s, r)

\* it does not matter which remark of a story, or of a fact, is used
Law_Handles ==
  \A a, b \in R :
    /\ StoryOf(s, a) = StoryOf(s, b) =>
         /\ AddFactToStory(s, a, 1, 1) = AddFactToStory(s, b, 1, 1)
         /\ CreateChildStory(s, a, 1, 1) = CreateChildStory(s, b, 1, 1)
    /\ s.rem[a].fact = s.rem[b].fact => AddRemarkToFact(s, a, 1) = AddRemarkToFact(s, b, 1)

\* C17: every tree is as if it had been told alone
Alone(f) ==
  LET mine == InOrder({r \in R : Founder(hist, r) = f})
      pos(r) == CHOOSE i \in DOMAIN mine : mine[i] = r
      h == [i \in DOMAIN mine |-> [c |-> hist[mine[i]].c, h |-> IF hist[mine[i]].h = 0 THEN 0 ELSE pos(hist[mine[i]].h)]]
      g == FoldLeft(LAMBDA x, i : Apply(x, h[i].c, h[i].h, O(mine[i]), P(mine[i])), Empty, [i \in DOMAIN mine |-> i])
      at(x) == IF x = 0 THEN 0 ELSE mine[x]
  IN \A i \in DOMAIN mine :
       Seen(s, mine[i]) = <<g.rem[i].o, g.rem[i].p, at(NextFact(g, i)), at(FirstFact(g, i)), at(NextStory(g, i)),
                            at(NextRemark(g, i)), [k \in DOMAIN Rendering(g, i) |-> at(Rendering(g, i)[k])]>>
Law_C17 == \A r \in R : hist[r].c = "cs" => Alone(r)

\* C03, C25: there are no steps but these; every remark has been told (C09)
Law_C09 == Len(s.rem) = Len(hist) /\ \A f \in DOMAIN s.fact : s.fact[f].rems # <<>>
           /\ \A r \in R : r \in Range(s.fact[s.rem[r].fact].rems)

\* C02: a sentence the specification can always take
Law_C02 == Len(hist) < Depth => \A op \in Ops : NRem(Apply(s, op.c, op.h, 1, 1)) = NRem(s) + 1

PropC12 == [][Step_C12]_vars
PropC17 == [][Step_C17]_vars
=============================================================================

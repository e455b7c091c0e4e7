-------------------------------- MODULE Impl --------------------------------
(***************************************************************************)
(* The algorithms of semnet, as programs over the storage: what each       *)
(* operation reads and which writes it makes, one after the other.  This   *)
(* is the design between Semnet.tla and the code: Design.tla has TLC check *)
(* that it refines Semnet.tla, interruptions included, and ImplTrace.tla   *)
(* compares it with the writes recorded from the code.                     *)
(*                                                                         *)
(* A program state is [s, w, ok, v]: the storage, the writes made so far,  *)
(* whether no error was met, and the value just computed.                  *)
(***************************************************************************)
EXTENDS Layout, SequencesExt

\* faults of the design that Design.tla must find; "" for the design itself
CONSTANT Bug
\* which of several neighbours the storage lists first: the oldest or the newest
CONSTANT Newest

Start(s) == [s |-> s, w |-> <<>>, ok |-> TRUE, v |-> 0]
Stop(x) == [x EXCEPT !.ok = FALSE]
Give(x, v) == [x EXCEPT !.v = v]

Mk(x) == IF ~x.ok THEN x
         ELSE [s |-> Create(x.s), w |-> Append(x.w, <<1, Size(x.s) + 1>>), ok |-> TRUE, v |-> Size(x.s) + 1]
Ref(x, a, b) ==
  IF ~x.ok THEN x
  ELSE IF ~(Has(x.s, a) /\ Has(x.s, b)) THEN Stop(x)
  ELSE [x EXCEPT !.s = SetReference(@, a, b), !.w = Append(@, <<2, a, b>>)]
Con(x, a, b) ==
  IF ~x.ok THEN x
  ELSE IF ~(Has(x.s, a) /\ Has(x.s, b)) THEN Stop(x)
  ELSE [x EXCEPT !.s = Connect(@, a, b), !.w = Append(@, <<3, a, b>>)]

\* one write of a log, on a storage
Do(s, wr) == CASE wr[1] = 1 -> Create(s)
               [] wr[1] = 2 -> SetReference(s, wr[2], wr[3])
               [] wr[1] = 3 -> Connect(s, wr[2], wr[3])

\* "there is at most one", "there is exactly one"
Opt(x, S, Go(_)) == IF ~x.ok \/ Cardinality(S) > 1 THEN Stop(x) ELSE Go(S)
The1(x, S, Go(_)) == IF ~x.ok \/ Cardinality(S) # 1 THEN Stop(x) ELSE Go(The(S))

-----------------------------------------------------------------------------
(* Classes, items, bits                                                    *)

ClassStep(x, k) ==
  LET made == IF Has(x.s, k) THEN x ELSE Mk(x)
  IN IF ~made.ok \/ k = 1 THEN made
     ELSE IF made.s.prev[k] = k - 1 \/ (Bug = "classes" /\ Has(x.s, k)) THEN made
     ELSE Ref(made, k - 1, k)
Classes(x) == FoldLeft(ClassStep, x, <<1, 2, 3, 4, 5, 6, 7, 8>>)

\* the node of a new item, joined to its class
Named(x, k) == LET n == Mk(x) IN IF n.ok THEN Con(n, n.v, k) ELSE n
\* a new item with its slots; v is the item
Item(x0, k) ==
  LET x == Named(Classes(x0), k)
      e == x.v
      slots == FoldLeft(LAMBDA y, i : Mk(y), x, [i \in 1..Slots[k] |-> i])
      first == slots.v - Slots[k] + 1
  IN IF ~x.ok THEN x
     ELSE Give(FoldLeft(LAMBDA y, i : Ref(y, IF i = 1 THEN e ELSE first + i - 2, first + i - 1),
                        slots, [i \in 1..Slots[k] |-> i]), e)

\* both bits; v is the slot of the wanted one
Least(S) == CHOOSE a \in S : \A b \in S : a <= b
BitSlot(x, e) ==
  IF ~x.ok THEN x
  ELSE IF x.s.next[e] # 0 \/ Bug = "bits" THEN Give(x, x.s.next[e])
  ELSE LET n == Mk(x) IN Give(Ref(n, e, n.v), n.v)
BitOf(x0, b) ==
  LET x == Classes(x0)
      have == Items(x.s, Bit)
      one == IF Cardinality(have) < 1 THEN Named(x, Bit) ELSE x
      two == IF Cardinality(have) < 2 THEN Named(one, Bit) ELSE one
      all == Items(two.s, Bit)
      zero == Least(all)
      other == Least(all \ {zero})
      z == BitSlot(two, zero)
      o == BitSlot(z, other)
  IN IF ~x.ok \/ ~two.ok \/ Cardinality(all) # 2 THEN Stop(x)
     ELSE IF b = 0 THEN Give(o, z.v) ELSE o

-----------------------------------------------------------------------------
(* The prefix trees: characters over bits, words over characters, phrases  *)
(* over words.  low is the slot of the first value below, k the class.     *)

Head_(x, k, low) ==
  Opt(x, Tgts(x.s, low), LAMBDA S :
    IF S # {} THEN Give(x, Owner(x.s, The(S), 1))
    ELSE LET n == Item(x, k)
             e == n.v
         IN IF ~n.ok THEN n
            ELSE IF Bug = "head" THEN Give(Con(Con(n, low, Slot(n.s, e, 1)), Slot(n.s, e, 1), low), e)
            ELSE Give(Con(Con(n, Slot(n.s, e, 1), low), low, Slot(n.s, e, 1)), e))

\* what the item stands for, to compare it with a wanted value
ValueAt(s, k, e) ==
  LET low == Tgts(s, Slot(s, e, 1)) IN
  IF Cardinality(low) # 1 THEN <<>>
  ELSE CASE k = Character -> BitValue(s, Owner(s, The(low), 1))
         [] k = Word -> CharValue(s, Owner(s, The(low), 3), 64)
         [] k = Phrase -> WordText(s, Owner(s, The(low), 3), Size(s))

\* the continuation of item e by a value; Low(x) provides the value's own slot
Tail_(x, k, e, value, Low(_)) ==
  IF ~x.ok THEN x
  ELSE
  LET nexts == {Owner(x.s, t, 2) : t \in Tgts(x.s, Slot(x.s, e, 2))}
      found == {n \in nexts : ValueAt(x.s, k, n) = value}
  IN IF found # {} THEN Give(x, The(found))
     ELSE LET l == Low(x)
              low == l.v
              n == IF l.ok THEN Item(l, k) ELSE l
              new == n.v
              here == IF Bug = "tail" THEN 1 ELSE 2
          IN IF ~n.ok THEN n
             ELSE LET joined == Con(Con(n, Slot(n.s, new, 1), low), Slot(n.s, e, here), Slot(n.s, new, here))
                  IN Give(IF k = Word THEN Con(joined, Slot(n.s, e, 2), Slot(n.s, new, 2)) ELSE joined, new)

Chars(x, c) ==
  LET ds == BinaryOf(c)
      first == BitOf(x, ds[1])
      head == IF first.ok THEN Head_(first, Character, first.v) ELSE first
  IN FoldLeft(LAMBDA y, d : Tail_(y, Character, y.v, d, LAMBDA z : BitOf(z, d)), head, Tail(ds))
\* the character's slot for words
CharSlot(x, c) == LET y == Chars(x, c) IN IF y.ok THEN Give(y, Slot(y.s, y.v, 3)) ELSE y

WordItem(x, w) ==
  LET first == CharSlot(x, w[1])
      head == IF first.ok THEN Head_(first, Word, first.v) ELSE first
  IN FoldLeft(LAMBDA y, c : Tail_(y, Word, y.v, c, LAMBDA z : CharSlot(z, c)), head, Tail(w))
WordSlot(x, w) ==
  IF w = <<>> THEN Stop(x)
  ELSE LET y == WordItem(x, w) IN IF y.ok THEN Give(y, Slot(y.s, y.v, 3)) ELSE y

\* the words of a text, empty ones included
RECURSIVE Split(_)
Split(t) ==
  IF SpacesOf(t) = {} THEN <<t>>
  ELSE LET i == Least(SpacesOf(t)) IN <<SubSeq(t, 1, i - 1)>> \o Split(SubSeq(t, i + 1, Len(t)))

PhraseItem(x, t) ==
  LET ws == Split(t)
      first == WordSlot(x, ws[1])
      head == IF first.ok THEN Head_(first, Phrase, first.v) ELSE first
  IN FoldLeft(LAMBDA y, w : Tail_(y, Phrase, y.v, w, LAMBDA z : WordSlot(z, w)), head, Tail(ws))

-----------------------------------------------------------------------------
(* Details and remarks                                                     *)

DetailItem(x, o, p) ==
  LET a == PhraseItem(x, o)
      b == IF a.ok THEN PhraseItem(a, p) ELSE a
      from == Slot(b.s, a.v, 3)
      to == Slot(b.s, b.v, 3)
      common == IF Bug = "detail" THEN Tgts(b.s, from) ELSE Tgts(b.s, from) \cap Srcs(b.s, to)
  IN IF ~b.ok THEN b
     ELSE IF Cardinality(common) > 1 THEN Stop(b)
     ELSE IF common # {} THEN Give(b, Owner(b.s, The(common), 1))
     ELSE IF Bug = "unslotted"
     THEN LET n == Named(b, Detail)
              d == n.v
              c == Mk(Mk(n))
          IN Give(Ref(Ref(Con(Con(c, from, c.v - 1), c.v - 1, to), d, c.v - 1), c.v - 1, c.v), d)
     ELSE LET n == Item(b, Detail)
              d == n.v
          IN IF ~n.ok THEN n
             ELSE Give(Con(Con(n, from, Slot(n.s, d, 1)), Slot(n.s, d, 1), to), d)

\* a remark stating a detail, not yet part of any fact
NewRemark(x, o, p) ==
  LET d == DetailItem(x, o, p)
      n == IF d.ok THEN Item(d, Remark) ELSE d
      r == n.v
  IN IF ~n.ok THEN n ELSE Give(Con(n, Slot(n.s, d.v, 2), Slot(n.s, r, 1)), r)

Attach(x, f, r) ==
  LET a == Con(x, Slot(x.s, r, 3), Slot(x.s, f, 1))
  IN Con(a, Slot(x.s, f, 1), Slot(x.s, r, 3))

\* the fact of remark r, the story of fact f
ItsFact(x, r, Go(_)) == The1(x, Tgts(x.s, Slot(x.s, r, 3)), LAMBDA t : Go(Owner(x.s, t, 1)))
ItsStory(x, f, Go(_)) == The1(x, Tgts(x.s, Slot(x.s, f, 3)), LAMBDA t : Go(Owner(x.s, t, 1)))

\* the end of a chain of positions, 0 when it forks or does not end
RECURSIVE LastOf(_, _, _)
LastOf(s, e, fuel) ==
  LET n == Tgts(s, Slot(s, e, 2)) IN
  IF n = {} THEN e
  ELSE IF fuel = 0 \/ Cardinality(n) > 1 THEN 0
  ELSE LastOf(s, Owner(s, The(n), 2), fuel - 1)
Follow(x, last, e) == IF ~x.ok \/ last = 0 THEN Stop(x) ELSE Con(x, Slot(x.s, last, 2), Slot(x.s, e, 2))

-----------------------------------------------------------------------------
(* The operations of the interface; v is the remark handed out             *)

CsImpl(x, o, p) ==
  LET a == NewRemark(x, o, p)
      r == a.v
      b == IF a.ok THEN Item(a, Fact) ELSE a
      f == b.v
      c == IF b.ok THEN Item(b, Story) ELSE b
      t == c.v
  IN IF ~c.ok THEN c
     ELSE LET d == Con(Con(c, Slot(c.s, f, 3), Slot(c.s, t, 1)), Slot(c.s, t, 1), Slot(c.s, f, 3))
          IN Give(Attach(d, f, r), r)

ArImpl(x, h, p) ==
  The1(x, Srcs(x.s, Slot(x.s, h, 1)), LAMBDA q :
    LET o == ObjectText(x.s, Owner(x.s, q, 2))
        a == NewRemark(x, o, p)
        r == a.v
    IN ItsFact(a, h, LAMBDA f : Give(Con(a, Slot(a.s, r, 3), Slot(a.s, f, 1)), r)))

AfImpl(x, h, o, p) ==
  LET a == NewRemark(x, o, p)
      r == a.v
  IN ItsFact(a, h, LAMBDA f : ItsStory(a, f, LAMBDA t :
       LET b == Item(a, Fact)
           n == b.v
           c == IF b.ok THEN Con(b, Slot(b.s, n, 3), Slot(b.s, t, 1)) ELSE b
           last == IF Bug = "fork" THEN f ELSE LastOf(c.s, f, Size(c.s))
       IN IF ~c.ok THEN c
          ELSE IF Bug = "early" THEN Give(Attach(Follow(c, last, n), n, r), r)
          ELSE Give(Follow(Attach(c, n, r), last, n), r)))

CcImpl(x, h, o, p) ==
  LET a == NewRemark(x, o, p)
      r == a.v
  IN ItsFact(a, h, LAMBDA f : ItsStory(a, f, LAMBDA t :
       LET kids == Srcs(a.s, Slot(a.s, t, 3))
           b == Item(a, Story)
           new == b.v
           c == IF b.ok THEN Item(b, Fact) ELSE b
           n == c.v
           d == IF ~c.ok THEN c
                ELSE Con(Con(c, Slot(c.s, n, 3), Slot(c.s, new, 1)), Slot(c.s, new, 1), Slot(c.s, n, 3))
           tree(y) == Con(y, Slot(d.s, new, 3), Slot(d.s, t, 3))
           e == IF ~d.ok THEN d ELSE Attach(IF Bug = "tree" THEN tree(d) ELSE d, n, r)
           listed == a.s.src[Slot(a.s, t, 3)]
           kid == Owner(e.s, listed[IF Newest THEN Len(listed) ELSE 1], 3)
           last == IF Bug = "sibling" THEN kid ELSE LastOf(e.s, kid, Size(e.s))
           g == IF kids = {} THEN e ELSE Follow(e, last, new)
       IN IF ~g.ok THEN g ELSE Give(IF Bug = "tree" THEN g ELSE tree(g), r)))

Run(s, c, h, o, p) ==
  CASE c = "cs" -> CsImpl(Start(s), o, p)
    [] c = "ar" -> ArImpl(Start(s), h, p)
    [] c = "af" -> AfImpl(Start(s), h, o, p)
    [] c = "cc" -> CcImpl(Start(s), h, o, p)

-----------------------------------------------------------------------------
(* The reads of the interface, on raw remark identifiers; 0 for an error   *)

OnlyOf(S) == IF Cardinality(S) = 1 THEN The(S) ELSE 0
FactAt(s, r) == Owner(s, OnlyOf(Tgts(s, Slot(s, r, 3))), 1)
StoryAt(s, r) == LET f == FactAt(s, r) IN IF f = 0 THEN 0 ELSE Owner(s, OnlyOf(Tgts(s, Slot(s, f, 3))), 1)
FirstOfFact(s, f) == IF f = 0 THEN 0 ELSE Owner(s, OnlyOf(Tgts(s, Slot(s, f, 1))), 3)
FirstOfTale(s, t) == IF t = 0 THEN 0 ELSE FirstOfFact(s, Owner(s, OnlyOf(Tgts(s, Slot(s, t, 1))), 3))
Chained(s, e) == IF e = 0 THEN 0 ELSE Owner(s, OnlyOf(Tgts(s, Slot(s, e, 2))), 2)
Forked(s, e) == e # 0 /\ Cardinality(Tgts(s, Slot(s, e, 2))) > 1

Read(s, r) ==
  LET d == Owner(s, OnlyOf(Srcs(s, Slot(s, r, 1))), 2)
      f == FactAt(s, r)
      t == StoryAt(s, r)
  IN [o |-> IF d = 0 THEN <<>> ELSE ObjectText(s, d),
      p |-> IF d = 0 THEN <<>> ELSE PropertyText(s, d),
      nf |-> FirstOfFact(s, Chained(s, f)), ff |-> FirstOfTale(s, t),
      ns |-> FirstOfTale(s, Chained(s, t)), nr |-> Chained(s, r),
      whole |-> f # 0 /\ t # 0 /\ ~Forked(s, f) /\ ~Forked(s, t) /\ ~Forked(s, r)]
=============================================================================

------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* The storage contract: numbered nodes, each with a place in a chain of   *)
(* references (previous, next) and directed edges to other nodes.  Node 0  *)
(* is the void; neighbours come in the order they were connected (nothing  *)
(* above the storage may depend on it, see C15).                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* a store: parallel sequences over node numbers 1..Size
EmptyStore == [prev |-> <<>>, next |-> <<>>, tgt |-> <<>>, src |-> <<>>]
Size(s) == Len(s.next)
Has(s, a) == a \in 1..Size(s)

Create(s) == [prev |-> Append(s.prev, 0), next |-> Append(s.next, 0),
              tgt |-> Append(s.tgt, <<>>), src |-> Append(s.src, <<>>)]
SetReference(s, a, b) == [s EXCEPT !.next[a] = b, !.prev[b] = a]
InSeq(seq, x) == \E i \in DOMAIN seq : seq[i] = x
Connect(s, a, b) ==
  IF InSeq(s.tgt[a], b) THEN s
  ELSE [s EXCEPT !.tgt[a] = Append(@, b), !.src[b] = Append(@, a)]
=============================================================================

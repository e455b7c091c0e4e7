-------------------------------- MODULE Lex --------------------------------
(***************************************************************************)
(* C20: the vocabulary layers.  Each layer is a set of values: providing a *)
(* value makes it known and hands out an item; extracting the item gives   *)
(* the value back; providing a known value creates nothing.                *)
(* A layer knows more than it was asked for: a character is known once any *)
(* longer binary number starting with it is, a word once a longer word     *)
(* starting with it is, a phrase likewise; and a phrase makes its words    *)
(* known, a word its characters.                                           *)
(***************************************************************************)
EXTENDS Semnet, SequencesExt, Json, TLC, IOUtils

Data == JsonDeserialize(IOEnv.TRACE)
Runs == Data.runs
VARIABLES run, l, chars, words, phrases, details, fresh, left
vars == <<run, l, chars, words, phrases, details, fresh, left>>
Ev == Runs[run].ev
Cur == Ev[l]

\* fresh: how many items the event just consumed has to add
\* left: what refused values may have left behind of themselves
Init == /\ run \in DOMAIN Runs /\ l = 0 /\ chars = Prefixes(BinaryOf(48))
        /\ words = {} /\ phrases = {} /\ details = {} /\ fresh = 0
        /\ left = [chars |-> {}, words |-> {}, phrases |-> {}]

IsPhrase(t) == WellFormed(t)
NeedChars(e) ==
  CASE e.k = "char"   -> IF e.r >= 0 THEN Prefixes(BinaryOf(e.r)) ELSE {}
    [] e.k = "word"   -> UNION {Prefixes(BinaryOf(c)) : c \in Range(e.t)}
    [] e.k = "phrase" -> CharNodes({e.t})
    [] e.k = "detail" -> CharNodes({e.t, e.u})
NeedWords(e) ==
  CASE e.k = "char"   -> {}
    [] e.k = "word"   -> Prefixes(e.t)
    [] e.k = "phrase" -> WordNodes({e.t})
    [] e.k = "detail" -> WordNodes({e.t, e.u})
NeedPhrases(e) ==
  CASE e.k \in {"char", "word"} -> {}
    [] e.k = "phrase" -> PhraseNodes({e.t})
    [] e.k = "detail" -> PhraseNodes({e.t, e.u})
NeedDetails(e) == IF e.k = "detail" THEN {<<e.t, e.u>>} ELSE {}
Legal(e) ==
  CASE e.k = "char"   -> e.r >= 0
    [] e.k = "word"   -> e.t # <<>>
    [] e.k = "phrase" -> IsPhrase(e.t)
    [] e.k = "detail" -> IsPhrase(e.t) /\ IsPhrase(e.u)

Step(e) ==
  IF e.res = 1 /\ Legal(e)
  THEN LET c == NeedChars(e) \ chars  w == NeedWords(e) \ words
           p == NeedPhrases(e) \ phrases  d == NeedDetails(e) \ details
       IN /\ chars' = chars \cup c /\ words' = words \cup w
          /\ phrases' = phrases \cup p /\ details' = details \cup d
          /\ fresh' = Cardinality(c) + Cardinality(w) + Cardinality(p) + Cardinality(d)
          /\ left' = left
  ELSE /\ UNCHANGED <<chars, words, phrases, details, fresh>>
       /\ left' = IF e.k \in {"phrase", "detail"}
                  THEN [chars |-> left.chars \cup NeedChars(e), words |-> left.words \cup (NeedWords(e) \ {<<>>}),
                        phrases |-> left.phrases \cup NeedPhrases(e)]
                  ELSE left

Next == l < Len(Ev) /\ l' = l + 1 /\ run' = run /\ Step(Ev[l + 1])
Spec == Init /\ [][Next]_vars

\* n items are stored: all the known ones once, and perhaps some that were left
Within(n, known, more) == n \in Cardinality(known)..Cardinality(known \cup more)

Inv_C20 == l > 0 =>
  /\ Cur.res = IF Legal(Cur) THEN 1 ELSE 0
  /\ Cur.res = 1 =>
       /\ Cur.x = 1
       /\ Cur.k = "char" => Cur.out = <<Cur.r>>
       /\ Cur.k # "char" => Cur.out = Cur.t
       /\ Cur.k = "detail" => Cur.out2 = Cur.u
       /\ fresh = 0 => Cur.creates = 0
       /\ Cur.quiet = 1
  /\ Within(Cur.n[1], {0, 1}, {})
  /\ Within(Cur.n[2], chars, left.chars)
  /\ Within(Cur.n[3], words, left.words)
  /\ Within(Cur.n[4], phrases, left.phrases)
  /\ Within(Cur.n[5], details, {})

Expected == FoldLeft(LAMBDA n, x : n + Len(x.ev) + 1, 0, Runs)
AllConsumed == TLCGet("stats").distinct = Expected
=============================================================================

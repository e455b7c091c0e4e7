------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Validates histories recorded from the real code against Semnet.tla.     *)
(* Each initial state is one recorded run; each step consumes one event:   *)
(* the abstract state moves by the specification's operation when the real *)
(* call reported success and stays put otherwise.  The properties are      *)
(* invariants relating the abstract state to what the real code answered   *)
(* in the event just consumed.                                             *)
(***************************************************************************)
EXTENDS Semnet, SequencesExt, Json, TLC, TLCExt, IOUtils

Data == JsonDeserialize(IOEnv.TRACE)
Texts == Data.texts
Rows == Data.rows
Runs == Data.runs
WFT == [t \in DOMAIN Texts |-> WellFormed(Texts[t])]

VARIABLES run, l, st, ids, seen, since
vars == <<run, l, st, ids, seen, since>>

\* run   which recorded history        l     events consumed
\* st    the abstract state            ids   raw identifiers handed out, per remark
\* seen  the last table of observations, and the tables in force before it
\* since operations that reported success since the table in `seen` was taken

Ev == Runs[run].ev
Cur == Ev[l]
None == [v |-> "", rows |-> <<>>]
\* after an interrupted operation the abstract state is open (see Crash.tla);
\* such runs are recorded for C11 only, which does not refer to it
Open == \E i \in 1..l : Ev[i].k = "hit"

Init == /\ run \in DOMAIN Runs
        /\ l = 0
        /\ st = Empty
        /\ ids = <<>>
        /\ seen = [old |-> None, new |-> None]
        /\ since = [old |-> <<>>, new |-> <<>>]

Step(e) ==
  CASE e.k = "op" ->
         /\ st' = IF e.r > 0 /\ ~Open THEN Apply(st, e.c, e.h, e.o, e.p) ELSE st
         /\ ids' = IF e.r > 0 THEN Append(ids, e.id) ELSE ids
         /\ seen' = seen
         /\ since' = IF e.r > 0
                     THEN [since EXCEPT !.new = Append(@, [c |-> e.c,
                             s |-> IF e.h = 0 \/ Open THEN 0 ELSE StoryOf(st, e.h)])]
                     ELSE since
    [] e.k = "ops" ->
         \* many operations in a row, reported together
         /\ LET done == SelectSeq(e.ops, LAMBDA x : x.r > 0)
            IN /\ st' = FoldLeft(LAMBDA g, x : Apply(g, x.c, x.h, x.o, x.p), st, done)
               /\ ids' = ids \o [i \in DOMAIN done |-> done[i].id]
         /\ seen' = [old |-> None, new |-> None]
         /\ since' = [old |-> <<>>, new |-> <<>>]
    [] e.k = "told" ->
         \* the run starts from a store written by Golden.tla
         /\ st' = FoldLeft(LAMBDA g, x : Apply(g, x.c, x.h, x.o, x.p), st, e.ops)
         /\ ids' = e.ids
         /\ UNCHANGED <<seen, since>>
    [] e.k = "obs" ->
         /\ seen' = [old |-> seen.new, new |-> [v |-> e.v, rows |-> e.rows]]
         /\ since' = [old |-> since.new, new |-> <<>>]
         /\ UNCHANGED <<st, ids>>
    [] e.k = "hit" ->
         \* an operation was interrupted: what is observed may change once
         /\ seen' = [old |-> None, new |-> None]
         /\ since' = [old |-> <<>>, new |-> <<>>]
         /\ UNCHANGED <<st, ids>>
    [] OTHER -> UNCHANGED <<st, ids, seen, since>>

Next == /\ l < Len(Ev)
        /\ l' = l + 1
        /\ run' = run
        /\ Step(Ev[l + 1])

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Reading an observed row                                                 *)

O(w) == w[1]    P(w) == w[2]
HNF(w) == w[3]  NF(w) == w[4]  FF(w) == w[5]
HNS(w) == w[6]  NS(w) == w[7]
HNR(w) == w[8]  NR(w) == w[9]
ST(w) == w[10]  ID(w) == w[11]

At(k) == l > 0 /\ Cur.k = k

\* every remark of the table together with what was observed of it
Each(Test(_, _)) ==
  At("obs") => \A r \in DOMAIN Cur.rows : Cur.rows[r] # 0 => Test(r, Rows[Cur.rows[r]])

\* an optional successor: the flag and the answer agree with the specification
Succ(flag, ans, want) ==
  IF want = 0 THEN flag = 0 /\ ans = 0 ELSE flag = 1 /\ ans = want

-----------------------------------------------------------------------------
(* The properties                                                          *)

\* an accepted statement of kind c that was answered with a remark handed out
\* before: what it told is nowhere
Lost(c) == \/ At("op") /\ Cur.r = -1 /\ Cur.c = c
           \/ At("ops") /\ \E i \in DOMAIN Cur.ops : Cur.ops[i].r = -1 /\ Cur.ops[i].c = c

\* C01: what was said is what is read back
Inv_C01 ==
  /\ At("op") /\ Cur.r = -1 =>
       \E r \in DOMAIN ids : /\ ids[r] = Cur.id
                             /\ Cur.c = "ar" \/ st.rem[r].o = Cur.o
                             /\ st.rem[r].p = Cur.p
  /\ Each(LAMBDA r, w : O(w) = st.rem[r].o /\ P(w) = st.rem[r].p)

\* C02: a well-formed statement is always accepted
Accepted(x) == (x.c = "ar" \/ WFT[x.o]) /\ WFT[x.p] => x.r # 0 /\ x.r > -2
Inv_C02 ==
  /\ At("op") => Accepted(Cur)
  /\ At("ops") => \A i \in DOMAIN Cur.ops : Accepted(Cur.ops[i])
  /\ ~At("nohandle")

\* C03: a malformed statement is an error and leaves everything as it was
Unchanged == \A r \in DOMAIN seen.old.rows :
               seen.old.rows[r] # 0 /\ seen.new.rows[r] # 0
                 => seen.old.rows[r] = seen.new.rows[r]
Inv_C03 ==
  /\ At("op") => (~((Cur.c = "ar" \/ WFT[Cur.o]) /\ WFT[Cur.p]) => Cur.r = 0)
  /\ At("obs") /\ seen.old.v # "" /\ since.old = <<>> => Unchanged
  /\ At("probe") => Cur.unk = 0 /\ Cur.bad = 0

\* C05: the facts of a story are one chain, in the order they were added
Inv_C05 == ~Lost("af") /\ Each(LAMBDA r, w : Succ(HNF(w), NF(w), NextFact(st, r)))

\* C06: from every remark one gets to the first remark of its story
Inv_C06 == ~Lost("cs") /\ Each(LAMBDA r, w : FF(w) = FirstFact(st, r))

\* C07: the children of a story are one chain, in the order they were created
Inv_C07 == ~Lost("cc") /\ Each(LAMBDA r, w : Succ(HNS(w), NS(w), NextStory(st, r)))

\* C16: the remarks of a fact are one chain.  The named deviation is the
\* recorded finding: AddRemarkToFact does not link the remark it adds.
\* (Remarks linked by Golden.tla in a store handed to the real code are not
\* covered by it.)
ToldTo == IF Len(Ev) > 0 /\ Ev[1].k = "told" THEN Len(Ev[1].ids) ELSE 0
Unlinked(w) == HNR(w) = 0 /\ NR(w) = 0
Deviation_C16(r, w) == NextRemark(st, r) > ToldTo /\ Unlinked(w)
Listed == "KNOWN_C16" \in DOMAIN IOEnv /\ IOEnv.KNOWN_C16 = "1"
\* the finding is that no added remark is linked: it excuses no partial linking
AllUnlinked == Each(LAMBDA r, w : NextRemark(st, r) > ToldTo => Unlinked(w))
Inv_C16 == LET excused == Listed /\ AllUnlinked IN
           /\ ~Lost("ar")
           /\ Each(LAMBDA r, w : \/ Succ(HNR(w), NR(w), NextRemark(st, r))
                                 \/ excused /\ Deviation_C16(r, w))
\* violated exactly when the finding still shows
Inv_NoDeviation == Each(LAMBDA r, w : ~Deviation_C16(r, w))

\* the rendering of a story, from its first fact's remarks, in order
RECURSIVE Spell(_)
Spell(rs) == IF rs = <<>> THEN <<>>
             ELSE Texts[st.rem[Head(rs)].o] \o <<Space>> \o
                  Texts[st.rem[Head(rs)].p] \o <<Space>> \o Spell(Tail(rs))

\* C08: a rendering is the statements that navigation visits, and the same
\* text from every remark of a story
RECURSIVE Walk(_, _)
Walk(r, fuel) ==
  LET w == Rows[Cur.rows[r]]
  IN IF HNR(w) = 1 /\ NR(w) > 0 /\ fuel > 0 THEN <<r>> \o Walk(NR(w), fuel - 1) ELSE <<r>>
RECURSIVE SpellSeen(_)
SpellSeen(rs) == IF rs = <<>> THEN <<>>
                 ELSE LET w == Rows[Cur.rows[Head(rs)]]
                      IN Texts[O(w)] \o <<Space>> \o Texts[P(w)] \o <<Space>> \o SpellSeen(Tail(rs))
Readable(rs) == \A i \in DOMAIN rs : LET w == Rows[Cur.rows[rs[i]]] IN O(w) > 0 /\ P(w) > 0
Whole == At("obs") /\ \A r \in DOMAIN Cur.rows : Cur.rows[r] # 0
\* of some remarks only: the text is compared with the one of the specification,
\* where that is certain (all remarks linked, because the specification did it)
Inv_C08 ==
  /\ At("obs") /\ ~Whole /\ ToldTo = NRem(st) =>
       \A r \in DOMAIN Cur.rows : Cur.rows[r] # 0 =>
         LET w == Rows[Cur.rows[r]] IN ST(w) > 0 /\ Texts[ST(w)] = Spell(st.fact[st.story[StoryOf(st, r)].facts[1]].rems)
  /\ Whole =>
    /\ \A f \in {FF(Rows[Cur.rows[r]]) : r \in DOMAIN Cur.rows} :
         f > 0 =>
           LET rs == Walk(f, Len(Cur.rows)) IN
           Readable(rs) =>
             LET text == SpellSeen(rs) IN
             \A r \in DOMAIN Cur.rows :
               LET w == Rows[Cur.rows[r]] IN
               FF(w) = f => ST(w) > 0 /\ Texts[ST(w)] = text
    /\ \A t \in DOMAIN st.story :
         Cardinality({ST(Rows[Cur.rows[r]]) : r \in {q \in DOMAIN Cur.rows : StoryOf(st, q) = t}}) = 1

\* C09: identifiers are unique and lasting, and identify remarks only
Inv_C09 ==
  /\ At("op") => Cur.r # -1
  /\ At("op") /\ Cur.r > 0 => \A i \in 1..(Len(ids) - 1) : ids[i] # ids[Len(ids)]
  /\ At("ops") => \A i \in DOMAIN Cur.ops : Cur.ops[i].r # -1
  /\ At("told") \/ At("ops") => Cardinality(Range(ids)) = Len(ids)
  /\ Each(LAMBDA r, w : ID(w) = r)
  /\ At("obs") /\ seen.old.v # "" /\ since.old = <<>> => Unchanged
  /\ At("probe") => /\ Range(Cur.acc) = DOMAIN ids
                    /\ Cur.unk = 0 /\ Cur.bad = 0

\* C11: reading changes nothing; before the first statement a reading call may
\* still prepare the storage
Inv_C11 == ids # <<>> =>
  /\ At("obs") \/ At("probe") => Cur.a = Cur.b
  /\ At("obs") /\ seen.old.v # "" /\ since.old = <<>> => Unchanged

\* C17: an operation on one story leaves what is observed of the others alone;
\* only the child stories of the extended story may get a successor
Touched == {since.old[i].s : i \in {j \in DOMAIN since.old : since.old[j].c \in {"af", "ar"}}}
Fostered == {since.old[i].s : i \in {j \in DOMAIN since.old : since.old[j].c = "cc"}}
SameBut(a, b, cols) == \A i \in (1..11) \ cols : a[i] = b[i]
Inv_C17 ==
  At("obs") /\ seen.old.v # "" =>
    \A r \in DOMAIN seen.old.rows :
      seen.old.rows[r] # 0 /\ seen.new.rows[r] # 0 =>
        LET a == Rows[seen.old.rows[r]]
            b == Rows[seen.new.rows[r]]
            s == StoryOf(st, r)
        IN IF s \in Touched THEN TRUE
           ELSE IF st.story[s].parent \in Fostered THEN SameBut(a, b, {6, 7})
           ELSE a = b

\* C21: a store in the documented layout means what the layout says.  Remarks
\* that were in it are linked; the recorded finding may show on later ones.
Inv_C21 ==
  /\ At("op") => Cur.r > 0
  /\ ~At("nohandle")
  /\ Inv_C01 /\ Inv_C05 /\ Inv_C06 /\ Inv_C07 /\ Inv_C08
  /\ LET excused == AllUnlinked IN
     Each(LAMBDA r, w : \/ Succ(HNR(w), NR(w), NextRemark(st, r))
                        \/ excused /\ Deviation_C16(r, w))
  /\ Each(LAMBDA r, w : ID(w) = r)
  /\ At("probe") => Range(Cur.acc) = DOMAIN ids /\ Cur.unk = 0 /\ Cur.bad = 0

-----------------------------------------------------------------------------
Expected == FoldLeft(LAMBDA n, x : n + Len(x.ev) + 1, 0, Runs)
AllConsumed == TLCGet("stats").distinct = Expected
=============================================================================

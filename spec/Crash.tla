------------------------------- MODULE Crash -------------------------------
(***************************************************************************)
(* C14: an operation interrupted at any storage call either did not happen *)
(* or happened, and can simply be repeated.                                *)
(*                                                                         *)
(* The state is the set of explanations still possible for what the real   *)
(* code shows: how often the operation has taken effect so far.  Every     *)
(* interruption may or may not have let it take effect, a repetition must  *)
(* take effect once more, and every answer removes the explanations it     *)
(* contradicts; the property is that one always remains.  What a number of *)
(* uninterrupted executions predicts was recorded from the same code       *)
(* (event "base"): the observations tt after none, one, two, ... of them,  *)
(* the results rr of each, the results ff and observations uu of the       *)
(* operations that follow, and ll and vv of repeating it after those.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, TLC, IOUtils

Data == JsonDeserialize(IOEnv.TRACE)
Runs == Data.runs

VARIABLES run, l, phase, poss
vars == <<run, l, phase, poss>>
Ev == Runs[run].ev
Cur == Ev[l]

Base == Ev[Cur.b]

Init == run \in DOMAIN Runs /\ l = 0 /\ phase = 0 /\ poss = {0}

Looks(e) == Len(e.ta)
Phases(e) == CASE e.k = "cr" -> Looks(e) + 3 [] e.k = "cn" -> 3 [] OTHER -> 0
Done == phase = (IF l = 0 THEN 0 ELSE Phases(Cur))

\* a new interrupted run, from where the operation has not taken effect
Take == /\ Done
        /\ l < Len(Ev)
        /\ l' = l + 1 /\ run' = run
        /\ phase' = 0
        /\ poss' = {0}

Counts == 0..(Len(Base.tt) - 1)
\* an interruption, and what is seen after it on a reopened or surviving graph
Interrupt(i) == poss' = {x \in Counts : (x \in poss \/ x - 1 \in poss) /\ Cur.ta[i] = Base.tt[x + 1]}
\* the operation is repeated and must succeed, with its usual result
Retry == poss' = {x \in Counts : x - 1 \in poss /\ Cur.ra = Base.rr[x]}
LookAgain == poss' = {x \in poss : Cur.tb = Base.tt[x + 1]}
\* life goes on
Follow == poss' = {x \in poss : Cur.fb = Base.ff[x + 1] /\ Cur.ub = Base.uu[x + 1]}

\* or the operation is not repeated at once: others come first
PassOver == poss' = {x \in {0, 1} : Cur.ta = Base.tt[x + 1]}
GoOn == poss' = {x \in poss : Cur.fa = Base.ff[x + 1] /\ Cur.ua = Base.uu[x + 1]}
Late == poss' = {x \in poss : Cur.la = Base.ll[x + 1] /\ Cur.va = Base.vv[x + 1]}

Judge == /\ l > 0 /\ ~Done
         /\ phase' = phase + 1
         /\ UNCHANGED <<run, l>>
         /\ IF Cur.k = "cn"
            THEN CASE phase = 0 -> PassOver
                   [] phase = 1 -> GoOn
                   [] phase = 2 -> Late
            ELSE CASE phase < Looks(Cur) -> Interrupt(phase + 1)
                   [] phase = Looks(Cur) -> Retry
                   [] phase = Looks(Cur) + 1 -> LookAgain
                   [] phase = Looks(Cur) + 2 -> Follow

Next == Take \/ Judge
Spec == Init /\ [][Next]_vars

\* a swallowed failure (res > 0) is another property's business (C13)
Swallowed == l > 0 /\ Cur.k \in {"cr", "cn"} /\ Cur.res > 0
Inv_C14 == poss # {} \/ Swallowed

Cost(ev) == FoldLeft(LAMBDA n, e : n + Phases(e) + 1, 0, ev)
Expected == FoldLeft(LAMBDA n, x : n + Cost(x.ev) + 1, 0, Runs)
AllConsumed == TLCGet("stats").distinct = Expected
=============================================================================

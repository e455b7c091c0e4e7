----------------------------- MODULE StoreTrace -----------------------------
(***************************************************************************)
(* C12: what is stored is only ever added to.  Every write the real code   *)
(* makes is replayed on the specification of the storage (Store.tla); the  *)
(* property is an action property of that replay: a node is created once,  *)
(* a reference is set once and for all, an edge joins two existing nodes,  *)
(* nothing is disconnected or deleted.                                     *)
(***************************************************************************)
EXTENDS Store, SequencesExt, Json, TLC, IOUtils

Data == JsonDeserialize(IOEnv.TRACE)
Rows == Data.rows
Runs == Data.runs
VARIABLES run, l, next, prev, good
vars == <<run, l, next, prev, good>>
Ev == Runs[run].ev
Cur == Ev[l]

\* one recorded write [code, a, b] on [n |-> next, p |-> prev, ok]
Write(x, w) ==
  LET N == Len(x.n) IN
  CASE w[1] = 1 -> [n |-> Append(x.n, 0), p |-> Append(x.p, 0), ok |-> x.ok /\ w[2] = N + 1]
    [] w[1] = 2 ->
         IF w[2] \in 1..N /\ w[3] \in 1..N
         THEN [n |-> IF x.n[w[2]] = w[3] THEN x.n ELSE [x.n EXCEPT ![w[2]] = w[3]],
               p |-> IF x.p[w[3]] = w[2] THEN x.p ELSE [x.p EXCEPT ![w[3]] = w[2]],
               ok |-> x.ok /\ x.n[w[2]] \in {0, w[3]} /\ x.p[w[3]] \in {0, w[2]}]
         ELSE [x EXCEPT !.ok = FALSE]
    [] w[1] = 3 -> [x EXCEPT !.ok = @ /\ w[2] \in 1..N /\ w[3] \in 1..N]
    [] OTHER -> [x EXCEPT !.ok = FALSE]

Init == run \in DOMAIN Runs /\ l = 0 /\ next = <<>> /\ prev = <<>> /\ good = TRUE
Step(e) ==
  IF e.k \in {"op", "obs", "hit"}
  THEN LET y == FoldLeft(Write, [n |-> next, p |-> prev, ok |-> TRUE], e.w)
       IN next' = y.n /\ prev' = y.p /\ good' = y.ok
  ELSE IF e.k = "told"   \* the storage was written by Golden.tla
  THEN next' = e.next /\ prev' = e.prev /\ good' = TRUE
  ELSE UNCHANGED <<next, prev>> /\ good' = TRUE
Next == l < Len(Ev) /\ l' = l + 1 /\ run' = run /\ Step(Ev[l + 1])
Spec == Init /\ [][Next]_vars

\* what was read once is read again: the texts of a remark never change, and
\* a successor, once there, stays the successor
Before == {i \in 1..(l - 1) : Ev[i].k = "obs"}
Lasting ==
  l > 0 /\ Cur.k = "obs" /\ Before # {} =>
    LET i == CHOOSE x \in Before : \A y \in Before : y <= x IN
    \A r \in DOMAIN Ev[i].rows :
      LET a == Rows[Ev[i].rows[r]]  b == Rows[Cur.rows[r]] IN
      /\ \A c \in {1, 2, 5, 11} : a[c] > 0 => b[c] = a[c]
      /\ \A c \in {3, 6, 8} : a[c] = 1 => b[c] = 1 /\ b[c + 1] = a[c + 1]
Inv_C12 == good /\ Lasting

Expected == FoldLeft(LAMBDA n, x : n + Len(x.ev) + 1, 0, Runs)
AllConsumed == TLCGet("stats").distinct = Expected
=============================================================================

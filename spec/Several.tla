------------------------------ MODULE Several ------------------------------
(***************************************************************************)
(* C24: graph objects share nothing but the storage they were opened over. *)
(* Several graphs live in one process.  The specification is the product   *)
(* of as many copies of Semnet: an event concerns one component and leaves *)
(* the others as they are.  The recorded events are in one order, whatever *)
(* the schedule was: in turn, changing at storage calls, or in parallel.   *)
(*                                                                         *)
(* `all` holds the components; st, ids, seen and since of Trace.tla show   *)
(* the one that the event just consumed concerns, so that it is held to    *)
(* the properties of Trace.tla.                                            *)
(***************************************************************************)
EXTENDS Trace

VARIABLE all
Fresh == [st |-> Empty, ids |-> <<>>, seen |-> [old |-> None, new |-> None], since |-> [old |-> <<>>, new |-> <<>>]]

SeveralInit ==
  /\ Init
  /\ all = [w \in {Runs[run].ev[i].in : i \in DOMAIN Runs[run].ev} |-> Fresh]

One(x, e) ==
  CASE e.k = "op" /\ e.r > 0 ->
         [x EXCEPT !.st = Apply(@, e.c, e.h, e.o, e.p), !.ids = Append(@, e.id),
                   !.since.new = Append(@, [c |-> e.c, s |-> IF e.h = 0 THEN 0 ELSE StoryOf(x.st, e.h)])]
    [] e.k = "obs" ->
         [x EXCEPT !.seen = [old |-> @.new, new |-> [v |-> e.v, rows |-> e.rows]],
                   !.since = [old |-> @.new, new |-> <<>>]]
    [] OTHER -> x
SeveralNext ==
  /\ l < Len(Ev)
  /\ l' = l + 1
  /\ run' = run
  /\ LET e == Ev[l + 1]
         x == One(all[e.in], e)
     IN /\ all' = [all EXCEPT ![e.in] = x]
        /\ st' = x.st /\ ids' = x.ids /\ seen' = x.seen /\ since' = x.since
SeveralSpec == SeveralInit /\ [][SeveralNext]_<<vars, all>>

Inv_C24 ==
  /\ Inv_C01 /\ Inv_C02 /\ Inv_C03 /\ Inv_C05 /\ Inv_C06 /\ Inv_C07 /\ Inv_C08 /\ Inv_C09 /\ Inv_C11
  /\ ~At("dead")
=============================================================================

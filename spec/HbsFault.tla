------------------------------ MODULE HbsFault ------------------------------
(***************************************************************************)
(* Allocations that fail.  An attempt runs a fixed program of steps; every *)
(* step that allocates may be refused, one in an attempt.  Attempts follow *)
(* each other on the same context and share what outlives them: a table of *)
(* finished things (cached modules, loaded partials, the tables of the     *)
(* machine).                                                               *)
(*                                                                         *)
(* Kinds of steps                                                          *)
(*   need   an allocation the result depends on: refused => NOMEM          *)
(*   spare  one that only saves space: refused => goes on without          *)
(*   keep   makes a thing and puts it into the shared table when it is     *)
(*          complete; nothing to do if the table has it                    *)
(*   pass   a step with a handler of its own (a nested rendering), which   *)
(*          passes the failure on and takes itself away                    *)
(* Wrong designs, to see that the laws notice them                         *)
(*   blind  the result of the allocation is not looked at                  *)
(*   early  put into the table before it is complete                       *)
(*   eat    the handler drops the failure                                  *)
(*   leave  the handler stays installed after its frame has gone           *)
(***************************************************************************)
EXTENDS Naturals, Sequences
FaultInit(prog) == [prog |-> prog, n |-> 1, pc |-> 0, plan |-> 0, hit |-> FALSE, good |-> TRUE,
                    table |-> [x \in 1..Len(prog) |-> "none"], own |-> TRUE, log |-> <<>>]
(* refused: what happens to a step whose allocation is refused *)
End(s, r) == [s EXCEPT !.log = Append(@, [hit |-> s.hit, res |-> r]), !.n = @ + 1, !.pc = 0, !.hit = FALSE, !.good = TRUE, !.own = TRUE]
Throw(s) == End(s, IF s.own THEN "nomem" ELSE "wild")
Advance(s) == [s EXCEPT !.pc = @ + 1]
Begin(s, plan) == [s EXCEPT !.pc = 1, !.plan = plan]
FaultStep(s) ==
  IF s.pc > Len(s.prog) THEN End(s, IF s.good THEN "right" ELSE "wrong")
  ELSE LET k == s.prog[s.pc]
           has == k \in {"keep", "early"} /\ s.table[s.pc] # "none"
           t == [s EXCEPT !.hit = TRUE]
       IN IF has THEN Advance([s EXCEPT !.good = @ /\ s.table[s.pc] = "whole"])
          ELSE IF s.plan # s.pc THEN Advance([s EXCEPT !.table[s.pc] = IF k \in {"keep", "early"} THEN "whole" ELSE @, !.own = @ /\ k # "leave"])
          ELSE CASE k \in {"need", "keep", "pass", "leave"} -> Throw(t)
                 [] k = "spare" -> Advance(t)
                 [] k = "early" -> Throw([t EXCEPT !.table[s.pc] = "half"])
                 [] k \in {"blind", "eat"} -> Advance([t EXCEPT !.good = FALSE])
(* the contract *)
AttemptLaw(a) == /\ a.res \in {"right", "nomem"}
                 /\ (a.res = "nomem" => a.hit)
FaultLaw(s) == \A i \in DOMAIN s.log : AttemptLaw(s.log[i])
=============================================================================

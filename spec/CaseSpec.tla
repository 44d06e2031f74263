------------------------------ MODULE CaseSpec ------------------------------
(***************************************************************************)
(* The trace specification of calls that do not depend on each other: each *)
(* recorded call is one initial state, and judging it is one step.  The    *)
(* judge of a property gives the names of the clauses that the call breaks *)
(* ("fail") and of the situations it shows ("hit", for coverage).          *)
(***************************************************************************)
EXTENDS Num
CONSTANT Judge(_)
VARIABLES case, done
CasesOf == Load("cases")
Init == case \in 1..Len(CasesOf) /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ UNCHANGED case
        /\ Emit("V", <<CasesOf[case].k, Judge(CasesOf[case])>>)
=============================================================================

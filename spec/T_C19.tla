------------------------------- MODULE T_C19 -------------------------------
(***************************************************************************)
(* C19: histories of calls of the numerical functions.  The functions are   *)
(* functions: the state (memo) holds the result of each set of arguments    *)
(* that was seen, and a call leaves it as it is, its arguments too.         *)
(*                                                                         *)
(* calls: [name, set, before, after, result], the last three are numbers of *)
(* value lists.                                                            *)
(***************************************************************************)
EXTENDS Num
VARIABLES case, i, memo, bad, hit
Cases == Load("cases")
C == Cases[case].out
Same(a, b) == a = b \/ CloseSeq(C.values[a], C.values[b], Dec("1e-12"), Dec("1e-14"))
Init == case \in 1..Len(Cases) /\ i = 0 /\ memo = <<>> /\ bad = {} /\ hit = {}
Stopped == "error" \in DOMAIN C
(* memo: sequence of [set, before, result] *)
Known(s) == {m \in 1..Len(memo) : memo[m].set = s}
Call == /\ ~Stopped /\ i \geq 0 /\ i < Len(C.calls)
        /\ LET x == C.calls[i + 1]
               old == Known(x.set)
           IN /\ bad' = bad \union (IF x.before = x.after \/ SameSeq(C.values[x.before], C.values[x.after]) THEN {} ELSE {"arguments of " \o x.name \o " changed"})
                           \union (IF \A m \in old : Same(memo[m].result, x.result) THEN {} ELSE {"result of " \o x.name \o " depends on the history"})
                           \union (IF \A m \in old : Same(memo[m].before, x.before) THEN {} ELSE {"arguments of " \o x.name \o " changed by another call"})
              /\ hit' = hit \union {x.name} \union (IF "error" \in DOMAIN x THEN {x.name \o " stops"} ELSE {})
              /\ memo' = IF old = {} THEN Append(memo, [set |-> x.set, before |-> x.before, result |-> x.result]) ELSE memo
        /\ i' = i + 1 /\ UNCHANGED case
End == /\ IF Stopped THEN i = 0 ELSE i = Len(C.calls)
       /\ Emit("V", <<Cases[case].k, [fail |-> IF Stopped THEN {"error"} ELSE bad \union (IF C.files THEN {} ELSE {"a function wrote a file"}), hit |-> hit]>>)
       /\ i' = -1 /\ UNCHANGED <<case, memo, bad, hit>>
Next == Call \/ End
=============================================================================

------------------------------- MODULE T_C10 -------------------------------
(* C10: recorded objective mappings. *)
EXTENDS ObjMap
VARIABLES case, done

Judge(c) ==
    LET q == c.in  o == c.out
        n == Len(q.sal)
        s == [first |-> q.long, second |-> q.lat, age |-> q.age, phi |-> q.phi, pv |-> q.pv]
        exp == Objective(q.sal, q.data, <<q.target>> \o q.data, s, q.signal, q.noise)
        scale == MaxSeq(Map(q.sal, LAMBDA x : NAbs(x -- q.sal[1]))) ++ Sqrt(q.signal)
        tol == Dec(q.tol)
        ok == "error" \notin DOMAIN o /\ IsNum(o.value) /\ IsNum(o.err) /\ IsArray(o.values) /\ IsArray(o.errors)
              /\ Len(o.values) = n /\ Len(o.errors) = n
        val(x, e) == Close(x, e.value, Dec("1e-13"), tol ** scale)
        floor == (tol ** Dec("10")) ** q.signal
        err(x, e) == \/ IsFin(x) /\ x \succeq 0 /\ Close(Sq(x), e.errsq, 0, floor)
                     \/ e.errsq \preceq floor /\ IsNaN(x)          \* the square root of a rounding error
    IN [fail |-> IF ~ok THEN {IF "error" \in DOMAIN o THEN "error" ELSE "shape"}
                 ELSE Failing(<<
                    <<"value at the target", val(o.value, exp[1])>>,
                    <<"error at the target", err(o.err, exp[1])>>,
                    <<"values at the data", \A i \in 1..n : val(o.values[i], exp[i + 1])>>,
                    <<"errors at the data", \A i \in 1..n : err(o.errors[i], exp[i + 1])>>,
                    <<"inputs unchanged", o.unchanged>> >>),
        hit |-> {IF q.pv = 1 THEN "with vorticity" ELSE "without vorticity", IF NEq(q.age, 0) THEN "without time" ELSE "with time"}
                \union (IF \E i, j \in 1..n : i < j /\ q.data[i] = q.data[j] THEN {"coinciding data"} ELSE {})
                \union (IF exp[1].errsq \succ (q.signal ** Dec("0.999")) THEN {"far target"} ELSE {})
                \union (IF n = 1 THEN {"one datum"} ELSE {})]
INSTANCE CaseSpec
=============================================================================

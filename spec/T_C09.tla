------------------------------- MODULE T_C09 -------------------------------
(* C09: recorded interpolations of climatology on float levels. *)
EXTENDS Interp
VARIABLES case, done
Rel == Dec("1e-9")

Judge(c) ==
    LET nc == Len(c.in.casts)
        nl == Len(c.in.float.sal)
        o == c.out
        shaped(m) == IsArray(m) /\ Len(m) = nl /\ \A i \in 1..nl : IsArray(m[i]) /\ Len(m[i]) = nc /\ \A j \in 1..nc : IsNum(m[i][j])
        ok == "error" \notin DOMAIN o /\ shaped(o.sal) /\ shaped(o.pres)
        v == TLCEval([j \in 1..nc |-> ValidLevels(c.in.casts[j])])
        exp == TLCEval([i \in 1..nl |-> TLCEval([j \in 1..nc |->
                   IF Whole(c.in.float, i) THEN Interpolated(v[j], c.in.float.ptmp[i], c.in.float.pres[i]) ELSE {}])])
        all == (1..nl) \X (1..nc)
        good(i, j) == IF exp[i][j] = {} THEN IsNaN(o.sal[i][j]) /\ IsNaN(o.pres[i][j])
                      ELSE \E e \in exp[i][j] : Close(o.pres[i][j], e[1], Rel, Dec("1e-6")) /\ Close(o.sal[i][j], e[2], Rel, Dec("1e-9"))
    IN [fail |-> IF ~ok THEN {IF "error" \in DOMAIN o THEN "error" ELSE "shape"}
                 ELSE Failing(<<
                    <<"missing without a bracket", \A x \in all : exp[x[1]][x[2]] = {} => good(x[1], x[2])>>,
                    <<"nearest bracket interpolated", \A x \in all : exp[x[1]][x[2]] # {} => good(x[1], x[2])>>,
                    <<"inputs unchanged", o.unchanged>> >>),
        hit |-> (IF \E x \in all : exp[x[1]][x[2]] = {} THEN {"no bracket"} ELSE {})
                \union (IF \E x \in all : exp[x[1]][x[2]] # {} THEN {"bracket"} ELSE {})
                \union (IF \E i \in 1..nl, j \in 1..nc : Whole(c.in.float, i) /\ Cardinality(Brackets(v[j], c.in.float.ptmp[i])) > 1
                        THEN {"several brackets"} ELSE {})
                \union (IF \E j \in 1..nc : Len(v[j].sal) < Len(c.in.casts[j].sal) /\ Len(v[j].sal) > 0 THEN {"gaps in a cast"} ELSE {})
                \union (IF \E j \in 1..nc : Len(v[j].sal) = 1 THEN {"one-level cast"} ELSE {})
                \union (IF \E j \in 1..nc : Len(v[j].sal) = 0 THEN {"cast without levels"} ELSE {})
                \union (IF \E j \in 1..nc : \E i \in 1..Len(v[j].sal) - 1 : NEq(v[j].ptmp[i], v[j].ptmp[i + 1]) THEN {"plateau"} ELSE {})
                \union (IF \E i \in 1..nl : ~Whole(c.in.float, i) THEN {"incomplete float level"} ELSE {})
                \union (IF \E i \in 1..nl, j \in 1..nc : \E l \in 1..Len(v[j].sal) : NEq(v[j].ptmp[l], c.in.float.ptmp[i]) THEN {"exact coincidence"} ELSE {})]
INSTANCE CaseSpec
=============================================================================

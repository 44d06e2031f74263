------------------------------- MODULE T_C08 -------------------------------
(* C08: recorded selections of historical casts. *)
EXTENDS Selection
VARIABLES case, done

One(c) ==
    LET q == c.in
        d == Derived(q)
        E == Inside(d)
        ix == c.out.index
        ok == IsArray(ix) /\ \A i \in 1..Len(ix) : IsNum(ix[i]) /\ ix[i] >= 0 /\ ix[i] < d.n
        sel == {ix[i] + 1 : i \in 1..Len(ix)}
        m == q.max
        few == Cardinality(E) <= m
    IN IF NearEdge(d) THEN [fail |-> {}, hit |-> {"cast on the edge of the ellipse"}]
       ELSE
       [fail |-> IF ~ok THEN {"positions of the list"}
                 ELSE Failing(<<
                    <<"distinct casts", Cardinality(sel) = Len(ix)>>,
                    <<"inside the ellipse", sel \subseteq E>>,
                    <<"number of casts", Cardinality(sel) = (IF few THEN Cardinality(E) ELSE m)>>,
                    <<"all casts when they are few", few => sel = E>>,
                    <<"drawn, large-scale and small-scale thirds",
                        ~few /\ sel \subseteq E /\ Cardinality(sel) = m => Explained(d, E, sel, m)>>,
                    <<"equal inputs give the equal selection", \A i \in 1..Len(c.out.again) : SameSeq(ix, c.out.again[i])>> >>),
        hit |-> {IF few THEN (IF E = {} THEN "no cast inside" ELSE "all casts inside taken") ELSE "chosen among many",
                 IF q.pv = 1 THEN "with vorticity" ELSE "without vorticity"}
                \union (IF Cardinality(E) < d.n THEN {"casts outside the ellipse"} ELSE {})
                \union (IF \E i \in 1..d.n : NEq(d.ell[i], 1) THEN {"cast exactly on the edge"} ELSE {})
                \union (IF Cardinality(E) = m THEN {"exactly as many as allowed"} ELSE {})
                \union (IF m <= 6 THEN {"small maximum"} ELSE {})]
(* many selections from one list: the drawn casts come from everywhere in the list *)
Spread(c) ==
    LET one(i) == LET q == [c.in.calls[i] EXCEPT !.max = c.in.calls[i].max]
                      d == Derived(q)
                      E == Inside(d)
                      sel == {c.out.index[i][j] + 1 : j \in 1..Len(c.out.index[i])}
                  IN TLCEval({(4 * (x - 1)) \div d.n : x \in SurelyDrawn(d, E, sel)})
    IN [fail |-> Failing(<<<<"a third is drawn at random", UNION {one(i) : i \in 1..Len(c.in.calls)} = 0..3>>>>),
        hit |-> {"spread of the drawn casts"}]
Judge(c) == IF "error" \in DOMAIN c.out THEN [fail |-> {"error"}, hit |-> {}]
            ELSE IF c.kind = "spread" THEN Spread(c) ELSE One(c)
INSTANCE CaseSpec
=============================================================================

------------------------------- MODULE T_C18 -------------------------------
(* C18: recorded choices of casts on the float's side of the front. *)
EXTENDS Front
VARIABLES case, done

Judge(c) ==
    LET q == c.in  o == c.out
        crash == "error" \in DOMAIN o
        n == Len(q.casts)
        full(i) == [q.casts[i] EXCEPT !.tmp = o.tmp[i]]
        near == q.lat \prec -30
        side == IF near THEN SidesOfFloat(q.saf, q.float) ELSE {0}
        sides == TLCEval([i \in 1..n |-> IF near THEN SidesOfCast(full(i)) ELSE {0}])
        m == Len(o.lat)
        (* the kept casts by their latitude, which is different for each cast *)
        which == TLCEval([j \in 1..m |-> {i \in 1..n : NEq(q.casts[i].lat, o.lat[j])}])
        known == \A j \in 1..m : Cardinality(which[j]) = 1
        from == TLCEval([j \in 1..m |-> CHOOSE i \in which[j] : TRUE])
        kept == {from[j] : j \in 1..m}
        agrees(d) == IF d = 0 THEN kept = 1..n
                     ELSE \A i \in 1..n : IF i \in kept THEN d \in sides[i] ELSE sides[i] # {d}
    IN [fail |-> IF crash THEN {"error"}
                 ELSE IF ~known THEN {"kept casts are casts of the input"}
                 ELSE Failing(<<
                    <<"casts of the float's side, or all", \E d \in side : agrees(d)>>,
                    <<"order kept", \A i, j \in 1..m : i < j => from[i] < from[j]>>,
                    <<"casts whole and aligned",
                        /\ Len(o.long) = m /\ Len(o.dates) = m /\ Len(o.z) = m /\ Len(o.sal) = m /\ Len(o.ptmp) = m /\ Len(o.pres) = m
                        /\ \A j \in 1..m : LET i == q.casts[from[j]]
                                           IN /\ NEq(o.long[j], i.long) /\ NEq(o.dates[j], i.dates) /\ NEq(o.z[j], i.z)
                                              /\ SameSeq(o.sal[j], i.sal) /\ SameSeq(o.ptmp[j], i.ptmp) /\ SameSeq(o.pres[j], i.pres)>>,
                    <<"arguments unchanged", o.unchanged>> >>),
        hit |-> IF crash \/ ~known THEN {} ELSE
                (IF ~near THEN {"north of 30S"} ELSE {})
                \union (IF Cardinality(side) > 1 THEN {"hangs on rounding or the envelope"} ELSE {})
                \union (IF side = {1} THEN {"float north"} ELSE IF side = {-1} THEN {"float south"} ELSE IF near THEN {"float unclassed"} ELSE {})
                \union (IF near /\ m = 0 THEN {"no cast left"} ELSE {})
                \union (IF near /\ m > 0 /\ m < n THEN {"some casts left"} ELSE {})
                \union UNION {IF near THEN {IF d = 1 THEN "cast north" ELSE IF d = -1 THEN "cast south" ELSE "cast unclassed"} ELSE {} : d \in UNION {sides[i] : i \in 1..n}}
                \union (IF near /\ side # {0} /\ LET k == Known2(q.float.pres, q.float.tmp)
                                                     p == Pick(q.float.pres, k)
                                                 IN ~Repeats(p) /\ Spans(p) /\ At300(p, Pick(q.float.tmp, k)) = {0}
                        THEN {"classed by the envelopes"} ELSE {})
                \union (IF near /\ \E i \in 1..n : Repeats(q.casts[i].pres) THEN {"repeated pressures"} ELSE {})
                \union (IF near /\ \E i \in 1..n : \E l \in 1..Len(q.casts[i].pres) : NEq(q.casts[i].pres[l], 300) THEN {"level at 300 dbar"} ELSE {})]
INSTANCE CaseSpec
=============================================================================

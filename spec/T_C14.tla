------------------------------- MODULE T_C14 -------------------------------
(* C14: recorded choices of theta levels. *)
EXTENDS Thetas
VARIABLES case, done

Judge(c) ==
    LET q == c.in  o == c.out
        u == Masked(q)
        np == Len(q.sal)
        temps == Known(Flatten(u.ptmp))
        eps == Dec("1e-9")
        lo10 == MinSeq(temps) ** 10  hi10 == MaxSeq(temps) ** 10
        none == Len(temps) = 0
        surely == ~none /\ Ceil(lo10 ++ eps) < NFloor(hi10 -- eps)
        maybe == ~none /\ Ceil(lo10 -- eps) < NFloor(hi10 ++ eps)
        press == IF maybe THEN CandidatePressures(u) ELSE <<>>
        nl == Len(o.theta)
        theta == TLCEval([k \in 1..Len(press) |-> CandidateThetas(u, press[k])])
        crash == "error" \in DOMAIN o
        vagueSteps == maybe /\ VagueSteps(u)
        shaped == ~crash /\ Len(o.t) = 10 /\ Len(o.p) = 10 /\ Len(o.index) = 10 /\ Len(o.var) = nl
                  /\ \A k \in 1..10 : Len(o.index[k]) = np
        candidates == IF vagueSteps THEN TRUE ELSE IF nl = 0 THEN ~surely
                      ELSE maybe /\ Len(press) = nl /\ \A k \in 1..nl : \E t \in theta[k] : Close(o.theta[k], t, Dec("1e-8"), Dec("1e-10"))
        (* from here on with the recorded candidate levels *)
        reach == TLCEval([k \in 1..nl |-> TLCEval([p \in 1..np |-> Reaches(u.ptmp[p], o.theta[k])])])
        edge(k, p) == LET t == Known(u.ptmp[p]) IN Len(t) > 0 /\ (NAbs(MinSeq(t) -- o.theta[k]) \preceq Tiny \/ NAbs(MaxSeq(t) -- o.theta[k]) \preceq Tiny)
        close == TLCEval([k \in 1..nl |-> TLCEval([p \in 1..np |-> IF reach[k][p] THEN ClosestLevels(u.ptmp[p], o.theta[k]) ELSE {}])])
        sals == TLCEval([k \in 1..nl |-> TLCEval([p \in 1..np |->
                    IF reach[k][p] THEN {SalinityAt(u.sal[p], u.ptmp[p], i, o.theta[k]) : i \in close[k][p]} ELSE {NaN}])])
        vague == TLCEval([k \in 1..nl |-> \E p \in 1..np : Cardinality(sals[k][p]) > 1 \/ edge(k, p)])
        sal1 == TLCEval([k \in 1..nl |-> Known(TLCEval([p \in 1..np |-> CHOOSE x \in sals[k][p] : TRUE]))])
        most == IF nl = 0 THEN 0 ELSE MaxSeq(TLCEval([k \in 1..nl |-> Len(sal1[k])]))
        share(k) == most > 0 /\ (Len(sal1[k]) // most) \succeq q.percent
        atEdge(k) == most > 0 /\ NAbs((Len(sal1[k]) // most) -- q.percent) \preceq Tiny
        (* quarters are free of rounding *)
        shareEdge(k) == atEdge(k) /\ ~NEq(NFloor(4 ** q.percent), 4 ** q.percent)
        anyVague == \E k \in 1..nl : vague[k]
        var == TLCEval([k \in 1..nl |-> IF share(k) THEN SampleVariance(sal1[k]) ELSE NaN])
        varOk == anyVague \/ \A k \in 1..nl :
                    Close(o.var[k], var[k], Dec("1e-7"), Dec("1e-13")) \/ (shareEdge(k) /\ (IsNaN(o.var[k]) \/ share(k)))
        good == {k \in 1..nl : ~IsNaN(o.var[k])}
        nchosen == IF Cardinality(good) < 10 THEN Cardinality(good) ELSE 10
        found == Cardinality({k \in 1..10 : ~IsNaN(o.t[k])})
        (* candidate of the chosen level j: by temperature and pressure *)
        cand(j) == {k \in good : NEq(o.theta[k], o.t[j])}
        vOf(j) == o.var[CHOOSE k \in cand(j) : TRUE]
        chosenOk == /\ found = nchosen
                    /\ \A j \in 1..10 : IsNaN(o.t[j]) = (j > nchosen) /\ IsNaN(o.p[j]) = (j > nchosen)
                    /\ \A j \in 1..nchosen : cand(j) # {}
                    /\ \A i, j \in 1..nchosen : i < j => vOf(i) \preceq vOf(j)
                    /\ \A i, j \in 1..nchosen : i # j => ~NEq(o.p[i], o.p[j])
                    /\ \A j \in 1..nchosen : \E k \in cand(j) : vagueSteps \/ Close(o.p[j], press[k], Dec("1e-9"), 0)
                    /\ \A k \in good : (~\E j \in 1..nchosen : k \in cand(j)) => \A j \in 1..nchosen : vOf(j) \preceq o.var[k]
        indexOk == \A j \in 1..10, p \in 1..np :
                      IF j > found \/ cand(j) = {} THEN IsNaN(o.index[j][p])
                      ELSE \E k \in cand(j) :
                            LET x == o.index[j][p]
                            IN \/ IsNaN(x) /\ (~reach[k][p] \/ edge(k, p))
                               \/ IsNum(x) /\ ~IsNaN(x) /\ ((reach[k][p] /\ \E i \in close[k][p] : NEq(x, i - 1)) \/ edge(k, p))
    IN [fail |-> IF ~shaped THEN {IF crash THEN "error" ELSE "shape"}
                 ELSE Failing(<<
                    <<"candidates from usable levels only", candidates>>,
                    <<"variances of well-covered levels", ~candidates \/ varOk>>,
                    <<"ten distinct levels of least variance", ~candidates \/ chosenOk>>,
                    <<"closest usable level of each profile", ~candidates \/ ~chosenOk \/ indexOk>>,
                    <<"arguments unchanged", o.unchanged>> >>),
        hit |-> IF ~shaped THEN {} ELSE
                {IF nl = 0 THEN "no level" ELSE IF found = 10 THEN "ten levels" ELSE "fewer levels"}
                \union (IF vagueSteps THEN {"number of steps hangs on rounding"} ELSE {})
                \union (IF ~anyVague /\ \E k \in 1..nl : atEdge(k) /\ ~shareEdge(k) /\ Len(sal1[k]) < most /\ Len(sal1[k]) > 1 THEN {"exactly the fraction"} ELSE {})
                \union (IF anyVague THEN {"equally close levels"} ELSE {})
                \union (IF \E k \in 1..nl : ~IsNaN(o.theta[k]) /\ IsNaN(o.var[k]) THEN {"badly covered level"} ELSE {})
                \union (IF \E j \in 1..found, p \in 1..np : IsNaN(o.index[j][p]) THEN {"profile does not reach a level"} ELSE {})
                \union (IF Len(q.theta_lt) = 1 /\ Len(q.theta_gt) = 1 THEN {IF q.theta_lt[1] \prec q.theta_gt[1] THEN "theta band excluded" ELSE "theta band"} ELSE {})
                \union (IF Len(q.pres_lt) = 1 /\ Len(q.pres_gt) = 1 THEN {IF q.pres_lt[1] \prec q.pres_gt[1] THEN "pressure band excluded" ELSE "pressure band"} ELSE {})
                \union (IF Len(q.theta_lt) + Len(q.theta_gt) = 1 \/ Len(q.pres_lt) + Len(q.pres_gt) = 1 THEN {"one bound"} ELSE {})
                \union (IF nl > 0 /\ ~NEq(Increment(MinSeq(Known(Flatten(u.pres))), MaxSeq(Known(Flatten(u.pres)))), 50) THEN {"finer steps"} ELSE {})]
INSTANCE CaseSpec
=============================================================================

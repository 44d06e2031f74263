------------------------------- MODULE Thetas -------------------------------
(***************************************************************************)
(* The choice of ten theta levels for the calibration fit.  A series q has *)
(* for each profile (column) the levels sal, ptmp, pres and the mapped      *)
(* potential temperature map; all are sequences of profiles.  Bounds are    *)
(* sequences of no or one number.                                           *)
(***************************************************************************)
EXTENDS Num, SequencesExt

(* lt and gt: empty or <<bound>> *)
Allowed(x, lt, gt) ==
    IF Len(lt) = 0 /\ Len(gt) = 0 THEN TRUE
    ELSE IF Len(gt) = 0 THEN ~(x \succ lt[1])
    ELSE IF Len(lt) = 0 THEN ~(x \prec gt[1])
    ELSE IF lt[1] \prec gt[1] THEN ~(x \prec gt[1] /\ x \succ lt[1])      \* the band between is excluded
    ELSE ~(x \succ lt[1]) /\ ~(x \prec gt[1])
UsableLevel(q, p, i) ==
    /\ ~IsNaN(q.map[p][i])
    /\ Allowed(q.ptmp[p][i], q.theta_lt, q.theta_gt)
    /\ Allowed(q.pres[p][i], q.pres_lt, q.pres_gt)
(* the usable part of the series *)
Masked(q) ==
    LET m(v) == TLCEval([p \in 1..Len(v) |-> TLCEval([i \in 1..Len(v[p]) |-> IF UsableLevel(q, p, i) THEN v[p][i] ELSE NaN])])
    IN [sal |-> m(q.sal), ptmp |-> m(q.ptmp), pres |-> m(q.pres)]
RECURSIVE Flatten(_)
Flatten(s) == IF Len(s) = 0 THEN <<>> ELSE Head(s) \o Flatten(Tail(s))
Known(s) == SelectSeq(s, LAMBDA x : ~IsNaN(x))
Ceil(x) == 0 - NFloor(0 -- x)

(* -- candidate levels ----------------------------------------------------- *)
Steps(lo, hi, inc) == Ceil((hi -- lo) // inc)
Increment(lo, hi) ==
    IF Steps(lo, hi, 50) >= 10 THEN 50
    ELSE LET i == NFloor((hi -- lo) // 10) IN IF i > 0 THEN i ELSE 50
CandidatePressures(u) ==
    LET p == Known(Flatten(u.pres))
        lo == MinSeq(p)  hi == MaxSeq(p)
        inc == Increment(lo, hi)
    IN TLCEval([k \in 1..Steps(lo, hi, inc) |-> lo ++ ((k - 1) ** inc)])
(* the numbers of steps hang on rounding *)
VagueSteps(u) ==
    LET p == Known(Flatten(u.pres))
        d == MaxSeq(p) -- MinSeq(p)
        whole(x) == NAbs(x -- NRound(x)) \preceq Dec("1e-9")
        inc == Increment(MinSeq(p), MaxSeq(p))
    IN d \succ 0 /\ (whole(d // 50) \/ whole(d // 10) \/ whole(d // inc))
(* temperature of a profile at pressure x strictly between its outermost known levels, else NaN *)
TempAt(pres, ptmp, x) ==
    LET g == Where(Len(pres), LAMBDA i : ~IsNaN(pres[i]) /\ ~IsNaN(ptmp[i]))
        above == {g[k] : k \in {j \in 1..Len(g) : pres[g[j]] \preceq x}}
        below == {g[k] : k \in {j \in 1..Len(g) : pres[g[j]] \succ x}}
        a == CHOOSE i \in above : \A j \in above : pres[j] \preceq pres[i]
        b == CHOOSE i \in below : \A j \in below : pres[i] \preceq pres[j]
    IN IF above = {} \/ below = {} \/ \A i \in above : NEq(pres[i], x) THEN NaN
       ELSE ptmp[a] ++ (((x -- pres[a]) // (pres[b] -- pres[a])) ** (ptmp[b] -- ptmp[a]))
(* profiles whose outermost known level lies at x but for rounding: they may count or not *)
AtEdge(pres, ptmp, x) ==
    LET g == {i \in 1..Len(pres) : ~IsNaN(pres[i]) /\ ~IsNaN(ptmp[i])}
        k == Known(Pick(pres, SetToSeq(g)))
    IN Cardinality(g) > 0 /\ \E e \in {MinSeq(k), MaxSeq(k)} : ~NEq(e, x) /\ NAbs(e -- x) \preceq Dec("1e-9")
(* at the edge the temperature is the one of the outermost level *)
TempNear(pres, ptmp, x) ==
    IF ~AtEdge(pres, ptmp, x) THEN {TempAt(pres, ptmp, x)}
    ELSE {NaN, ptmp[CHOOSE i \in 1..Len(pres) : ~IsNaN(pres[i]) /\ ~IsNaN(ptmp[i]) /\ NAbs(pres[i] -- x) \preceq Dec("1e-9")]}
RECURSIVE Combine(_)
Combine(ss) == IF Len(ss) = 0 THEN {<<>>} ELSE LET rest == Combine(Tail(ss)) IN {<<x>> \o r : x \in Head(ss), r \in rest}
CandidateThetas(u, x) ==
    LET c == Combine([p \in 1..Len(u.pres) |-> TempNear(u.pres[p], u.ptmp[p], x)])
    IN {LET k == Known(t) IN IF Len(k) = 0 THEN NaN ELSE Mean(k) : t \in c}

(* -- the level of a profile that stands for temperature t ------------------ *)
Reaches(ptmp, t) == LET k == Known(ptmp) IN Len(k) > 0 /\ ~IsNaN(t) /\ MinSeq(k) \prec t /\ MaxSeq(k) \succ t
Tiny == Dec("1e-11")
ClosestLevels(ptmp, t) ==
    LET ix == {i \in 1..Len(ptmp) : ~IsNaN(ptmp[i])}
        d == TLCEval([i \in ix |-> NAbs(ptmp[i] -- t)])
        best == CHOOSE i \in ix : \A j \in ix : d[i] \preceq d[j]
    IN {i \in ix : d[i] \preceq (d[best] ++ Tiny)}
(* salinity at t: between the closest level i and its neighbour on the other side of t *)
SalinityAt(sal, ptmp, i, t) ==
    LET around == {j \in {i - 1, i + 1} : j >= 1 /\ j <= Len(ptmp) /\ ~IsNaN(ptmp[j])}
        other == IF ptmp[i] \succ t THEN {j \in around : ptmp[j] \prec ptmp[i]}
                 ELSE IF ptmp[i] \prec t THEN {j \in around : ptmp[j] \succ ptmp[i]} ELSE {}
        k == CHOOSE j \in other : \A l \in other : /\ NAbs(ptmp[j] -- ptmp[i]) \preceq NAbs(ptmp[l] -- ptmp[i])
                                                   /\ (NEq(ptmp[j], ptmp[l]) => j <= l)
    IN IF other = {} \/ IsNaN(sal[i]) \/ IsNaN(sal[k]) THEN sal[i]
       ELSE sal[i] ++ (((t -- ptmp[i]) // (ptmp[k] -- ptmp[i])) ** (sal[k] -- sal[i]))
SampleVariance(s) ==
    LET n == Len(s)  m == Mean(s)
    IN IF n < 2 THEN NaN ELSE SumSeq(Map(s, LAMBDA x : Sq(x -- m))) // (n - 1)
=============================================================================

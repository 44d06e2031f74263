------------------------------ MODULE Figures ------------------------------
(***************************************************************************)
(* What the diagnostic figures of an analysed float show.  A float f holds  *)
(* the contents of its files: per profile its number, position and levels   *)
(* (sal, ptmp, pres), the mapped values (msal, merr, mptmp) and the         *)
(* calibrated ones (cal_SAL, ..., sta_mean); v holds the theta levels that  *)
(* were chosen for it.  A curve is a record of the sequences x and y, a bar  *)
(* the four coordinates of its ends.                                        *)
(***************************************************************************)
EXTENDS Thetas

Curve(x, y) == [x |-> x, y |-> y]
SameCurve(c, d) == CloseSeq(c.x, d.x, Dec("1e-9"), Dec("1e-9")) /\ CloseSeq(c.y, d.y, Dec("1e-9"), Dec("1e-10"))
SameBar(a, b) == CloseSeq(a, b, Dec("1e-9"), Dec("1e-9")) \/ CloseSeq(a, <<b[3], b[4], b[1], b[2]>>, Dec("1e-9"), Dec("1e-9"))
AllKnown(s) == \A i \in 1..Len(s) : IsFin(s[i])
NoKnown(s) == \A i \in 1..Len(s) : ~IsFin(s[i])

(* the map: east of 180 degrees is west of Greenwich *)
West(lo) == IF lo \succ 180 THEN lo -- 360 ELSE lo
Track(f) == Curve(Map(f.long, LAMBDA l : West(l)), f.lat)
CastMarks(f) == Curve(Map(f.hist, LAMBDA h : West(h[1])), Map(f.hist, LAMBDA h : h[2]))
(* every third profile, and the last one, is named *)
Named(f) == {i \in 1..Len(f.no) : (i - 1) % 3 = 0 \/ i = Len(f.no)}

(* error bars along x or y *)
BarX(x, y, e) == <<x -- e, y, x ++ e, y>>
BarY(x, y, e) == <<x, y -- e, x, y ++ e>>
BarsY(x, y, e) == {i \in 1..Len(x) : AllKnown(<<x[i], y[i], e[i]>>)}

(* mapped salinities on the chosen theta levels of profile p *)
ChosenLevels(f, v, p) == {l \in 1..Len(f.sal[p]) : \E j \in 1..10 : NEq(v.index[j][p], l - 1)}
MappedBars(f, v) ==
    UNION {LET at == {l \in ChosenLevels(f, v, p) : AllKnown(<<f.msal[p][l], f.mptmp[p][l], f.merr[p][l]>>)}
           IN {BarX(f.msal[p][l], f.mptmp[p][l], f.merr[p][l]) : l \in at} : p \in 1..Len(f.no)}

(* means over the levels of a profile *)
MeanKnown(s) == LET k == Known(s) IN IF Len(k) = 0 THEN NaN ELSE Mean(k)
Offsets(a, b) == TLCEval([p \in 1..Len(a) |-> MeanKnown(TLCEval([l \in 1..Len(a[p]) |-> a[p][l] -- b[p][l]]))])
Means(a) == Map(a, LAMBDA s : MeanKnown(s))
Part(s, ix) == Pick(s, ix)

(* -- values on a theta level ------------------------------------------------ *)
(* the set of admitted values of the quantity w on temperature t; err: the error that belongs to w *)
OnTheta(u, w, p, t) ==
    IF ~Reaches(u.ptmp[p], t) THEN {NaN}
    ELSE {SalinityAt(w[p], u.ptmp[p], i, t) : i \in ClosestLevels(u.ptmp[p], t)}
(* errors are interpolated where the quantity itself is *)
ErrorAt(sal, err, ptmp, i, t) ==
    LET around == {j \in {i - 1, i + 1} : j >= 1 /\ j <= Len(ptmp) /\ ~IsNaN(ptmp[j])}
        other == IF ptmp[i] \succ t THEN {j \in around : ptmp[j] \prec ptmp[i]}
                 ELSE IF ptmp[i] \prec t THEN {j \in around : ptmp[j] \succ ptmp[i]} ELSE {}
        k == CHOOSE j \in other : \A l \in other : /\ NAbs(ptmp[j] -- ptmp[i]) \preceq NAbs(ptmp[l] -- ptmp[i])
                                                   /\ (NEq(ptmp[j], ptmp[l]) => j <= l)
    IN IF other = {} \/ IsNaN(sal[i]) \/ IsNaN(sal[k]) THEN err[i]
       ELSE err[i] ++ (((t -- ptmp[i]) // (ptmp[k] -- ptmp[i])) ** (err[k] -- err[i]))
ErrorOnTheta(u, w, e, p, t) ==
    IF ~Reaches(u.ptmp[p], t) THEN {NaN}
    ELSE {ErrorAt(w[p], e[p], u.ptmp[p], i, t) : i \in ClosestLevels(u.ptmp[p], t)}
OnEdge(u, p, t) == LET k == Known(u.ptmp[p]) IN Len(k) > 0 /\ ~IsNaN(t) /\ (NAbs(MinSeq(k) -- t) \preceq Tiny \/ NAbs(MaxSeq(k) -- t) \preceq Tiny)
(* the part of a quantity that lies on usable levels *)
Usable(q, w) == TLCEval([p \in 1..Len(w) |-> TLCEval([i \in 1..Len(w[p]) |-> IF UsableLevel(q, p, i) THEN w[p][i] ELSE NaN])])

(* -- salinity anomalies on temperature ------------------------------------------ *)
(* known levels of a profile in order of temperature *)
Ladder(ptmp, sal) ==
    LET g == Where(Len(ptmp), LAMBDA i : ~IsNaN(ptmp[i]) /\ ~IsNaN(sal[i]))
        o == ArgSort(Pick(ptmp, g))
    IN [t |-> Pick(Pick(ptmp, g), o), s |-> Pick(Pick(sal, g), o)]
Doubled(ptmp) == LET k == Known(ptmp) o == Pick(k, ArgSort(k)) IN \E i \in 1..(Len(o) - 1) : NEq(o[i], o[i + 1])
Below(t, x) == Cardinality({j \in 1..Len(t) : t[j] \preceq x})
OnLadder(d, x) ==
    LET m == Len(d.t)  k == Below(d.t, x)
    IN IF m < 3 \/ k = 0 THEN NaN
       ELSE IF k = m THEN (IF NEq(d.t[m], x) THEN d.s[m] ELSE NaN)
       ELSE d.s[k] ++ (((x -- d.t[k]) // (d.t[k + 1] -- d.t[k])) ** (d.s[k + 1] -- d.s[k]))
AtLadderEnd(d, x) == Len(d.t) >= 3 /\ (NAbs(d.t[1] -- x) \preceq Dec("1e-9") \/ NAbs(d.t[Len(d.t)] -- x) \preceq Dec("1e-9"))
Median(s) ==
    LET o == Pick(s, ArgSort(s))  n == Len(s)
    IN IF n = 0 THEN NaN ELSE IF n % 2 = 1 THEN o[(n + 1) \div 2] ELSE (o[n \div 2] ++ o[n \div 2 + 1]) // 2
(* the rows z[k] (one value per profile) of anomalies on the temperatures y *)
AnomalyOk(f, sal, y, z) ==
    LET d == TLCEval([p \in 1..Len(f.no) |-> Ladder(f.ptmp[p], sal[p])])
    IN \A k \in 1..Len(y) :
         \/ \E p \in 1..Len(d) : AtLadderEnd(d[p], y[k])
         \/ LET s == TLCEval([p \in 1..Len(d) |-> OnLadder(d[p], y[k])])
                m == Median(Known(s))
            IN \A p \in 1..Len(d) : Close(z[k][p], s[p] -- m, Dec("1e-9"), Dec("1e-9"))
=============================================================================

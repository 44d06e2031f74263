------------------------------ MODULE Mapping ------------------------------
(***************************************************************************)
(* What one mapping run has to write for a profile.  A world q holds        *)
(*   name   the number of the float                                         *)
(*   boxes  boxes as in Climatology, each with its row in the box table     *)
(*   scales long_large ... age_small, pv, saf, delta, exclude, max          *)
(* and a profile lat, long, date and the levels pres, sal, ptmp, tmp.       *)
(* The composition: casts of the 25 boxes around the profile that are not   *)
(* the float's own -> the ellipse and the maximum number -> levels deep     *)
(* enough for the float -> the side of the front -> interpolation to the    *)
(* temperature of the level -> pressure window -> outliers -> two-stage     *)
(* objective mapping.                                                       *)
(***************************************************************************)
EXTENDS Climatology, Selection, ObjMap, Interp, Front, Bathy

Empty == [missing |-> TRUE, flags |-> <<0, 0, 0>>, files |-> <<>>]
Around(q, p) ==
    LET r0 == CHOOSE r \in RowsOfLat(p.lat) : TRUE
        c0 == CHOOSE c \in Columns(p.long) : TRUE
        b == Block(r0, c0)
    IN TLCEval([n \in 1..25 |-> LET m == {i \in 1..Len(q.boxes) : q.boxes[i].row = b[n]}
                                IN IF m = {} THEN Empty ELSE q.boxes[CHOOSE i \in m : TRUE]])
(* a position next to a box boundary may be taken to either side *)
Definite(p) == Cardinality(RowsOfLat(p.lat)) = 1 /\ Cardinality(Columns(p.long)) = 1
Placed(p) == ~IsNaN(p.lat) /\ ~IsNaN(p.long) /\ \E i \in 1..Len(p.pres) : ~IsNaN(p.pres[i])
(* the longitude of a cast on the side of the float, whatever multiple of 360 it is given with *)
BesideOf(x, ref) == ref ++ ((x -- ref) -- (360 ** NRound((x -- ref) // 360)))
Near(c, p) == [lat |-> c.lat, long |-> BesideOf(c.long, p.long), date |-> IF HopelessDate(c.date) THEN 0 ELSE DecimalDate(c.date),
               z |-> DepthAt(c.long, c.lat), pres |-> c.pres, sal |-> c.sal, ptmp |-> c.ptmp, id |-> c.id]
Candidates(q, p) == Map(Listing(Around(q, p), q.name), LAMBDA c : Near(c, p))
Query(q, p, cand) ==
    [lat |-> Map(cand, LAMBDA c : c.lat), long |-> Map(cand, LAMBDA c : c.long), date |-> Map(cand, LAMBDA c : c.date), z |-> Map(cand, LAMBDA c : c.z),
     plat |-> p.lat, plong |-> p.long, pdate |-> p.date, pz |-> DepthAt(p.long, p.lat),
     lat_large |-> q.scales.lat_large, lat_small |-> q.scales.lat_small, long_large |-> q.scales.long_large, long_small |-> q.scales.long_small,
     phi_large |-> q.scales.phi_large, phi_small |-> q.scales.phi_small, age_large |-> q.scales.age_large, age_small |-> q.scales.age_small,
     pv |-> q.scales.pv]
(* the casts that take part; drawn: the ids of the casts chosen when there are more than allowed *)
Selected(q, p, cand, drawn) ==
    LET d == Derived(Query(q, p, cand))
        E == Inside(d)
        taken == IF Cardinality(E) <= q.scales.max THEN E ELSE {i \in 1..Len(cand) : cand[i].id \in drawn}
        deepest == MaxSeq(SelectSeq(p.pres, LAMBDA x : ~IsNaN(x))) ++ q.scales.delta
        ix == Where(Len(cand), LAMBDA i : i \in taken /\ Len(LevelsOf(cand[i], deepest)) > 0)
    IN [edge |-> NearEdge(d), inside |-> Cardinality(E),
        casts |-> Map(ix, LAMBDA i : LET c == cand[i]  l == LevelsOf(c, deepest)
                                     IN [c EXCEPT !.pres = Pick(c.pres, l), !.sal = Pick(c.sal, l), !.ptmp = Pick(c.ptmp, l)])]
(* sides of the front: f of the profile, s of the casts *)
OnSide(casts, f, s) == IF f = 0 THEN casts
                       ELSE LET k == Where(Len(casts), LAMBDA i : s[i] = f)
                            IN IF Len(k) > 5 THEN Pick(casts, k) ELSE casts

(* one level: <<>> if nothing can be mapped *)
Usables(p, l, v, delta) ==
    LET e == TLCEval([j \in 1..Len(v) |-> IF Whole(p, l) THEN Interpolated(v[j], p.ptmp[l], p.pres[l]) ELSE {}])
        one(j) == CHOOSE x \in e[j] : TRUE
        use == Where(Len(v), LAMBDA j : e[j] # {} /\ NAbs(one(j)[1] -- p.pres[l]) \prec delta)
    IN [ix |-> use, sal |-> Map(use, LAMBDA j : one(j)[2]),
        (* hangs on rounding: two brackets equally near, or just at the edge of the window *)
        hazy |-> \E j \in 1..Len(v) : Cardinality(e[j]) > 1
                                      \/ (e[j] # {} /\ NAbs(NAbs(one(j)[1] -- p.pres[l]) -- delta) \prec Dec("1e-7"))]
Deviations(sal) == LET m == Mean(sal)  s == Sqrt(Variance(sal)) IN Map(sal, LAMBDA x : NAbs(x -- m) // s)
Wanted(q, p, l) == ~IsNaN(p.sal[l]) /\ p.pres[l] \succeq q.scales.exclude
MapLevel(q, p, casts, l, noise) ==
    LET u == TLCEval(Usables(p, l, Map(casts, LAMBDA c : ValidLevels(c)), q.scales.delta))
        enough == Wanted(q, p, l) /\ Len(u.ix) > 5
        dev == Deviations(u.sal)
        k == Where(Len(u.ix), LAMBDA i : dev[i] \preceq 3)
        sal == Pick(u.sal, k)
        from == Pick(u.ix, k)
        P == Map(from, LAMBDA j : <<casts[j].lat, casts[j].long, casts[j].date, casts[j].z>>)
        T == <<p.lat, p.long, p.date, DepthAt(p.long, p.lat)>>
        sc == q.scales
        signal == Variance(sal)
        large == Objective(sal, P, <<T>> \o P, [first |-> sc.lat_large, second |-> sc.long_large, age |-> sc.age_large, phi |-> sc.phi_large, pv |-> sc.pv],
                           signal, noise)
        res == TLCEval([i \in 1..Len(sal) |-> sal[i] -- large[i + 1].value])
        small == Objective(res, P, <<T>>, [first |-> sc.lat_small, second |-> sc.long_small, age |-> sc.age_small, phi |-> sc.phi_small, pv |-> sc.pv],
                           Variance(res), noise)
    IN IF ~enough THEN [mapped |-> FALSE, hazy |-> Wanted(q, p, l) /\ u.hazy]
       ELSE TLCEval([mapped |-> TRUE, hazy |-> u.hazy \/ \E i \in 1..Len(dev) : NAbs(dev[i] -- 3) \prec Dec("1e-6"),
             from |-> from, dropped |-> Len(u.ix) - Len(k), signal |-> signal, noise |-> NoiseRange(sal, P),
             value |-> large[1].value ++ small[1].value, errsq |-> large[1].errsq ++ small[1].errsq,
             far |-> Sqrt(signal) ++ NAbs(small[1].value)])
=============================================================================

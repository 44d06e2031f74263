------------------------------- MODULE T_C13 -------------------------------
(* C13: recorded calibration fits. *)
EXTENDS CalFit
VARIABLES case, done

Judge(c) ==
    LET q == c.in  o == c.out
        crash == "error" \in DOMAIN o
        s == Series(q)
        px == LET u == Pick(q.x, ArgSort(q.x)) IN Distinct(SelectSeq(u, LAMBDA v : IsFin(v)))
        np == Len(px)
        shaped == ~crash /\ Len(o.x) = np /\ Len(o.slopeerr) = np /\ Len(o.fit) = np /\ Len(o.err) = np /\ Len(o.slope) = np /\ Len(o.mean) = np /\ Len(o.rms) = np
        allNaN(v) == \A i \in 1..Len(v) : IsNaN(v[i])
        empty == s.n = 0
        ndf == Freedom(s)
        k == Len(o.coef) - 2
        nb == Len(o.breaks)
        u == Distinct(s.xs)
        hair == Dec("1e-7")
        cands == IF q.clear THEN Allowed(q, ndf) ELSE UNION {Allowed(q, ndf ++ d) : d \in {0, hair, 0 -- hair}}
        consistent == k >= -1 /\ nb = (IF k <= 0 THEN 0 ELSE k)
        f == FitOf(k, s, o.breaks)
        sdev == LET m == Mean(s.ys) IN Sqrt(Mean(Map(s.ys, LAMBDA v : Sq(v -- m))))
        scale == NMax(sdev, Dec("1e-12"))
        tol == Dec("1e-6") ** scale
        values == MatVec(BasisOf(k, s, o.breaks, px), f.coef)
        (* the segment of profile x: at a break either side *)
        segs(x) == {j \in 1..nb + 1 : (j = 1 \/ o.breaks[j - 1] \preceq (x ++ hair)) /\ (j = nb + 1 \/ x \preceq (o.breaks[j] ++ hair))}
        xspan == u[Len(u)] -- u[1]
        (* breaks that meet at the end of the range are set apart *)
        apart == hair ++ (IF nb > 1 THEN (nb - 1) ** (Dec("5.001e-6") ** xspan) ELSE 0)
        slopeTol == Dec("1e-5") ** (scale // NMax(Dec("1e-9"), xspan))
        ng == Len(q.given)
        even == \A i \in 1..s.n : NEq(s.es[i], s.es[1])
        mine == Criterion(k, s, ndf, f.rss)
        atMost(m, breaks) == LET g == FitOf(m, s, breaks)
                             IN g.singular \/ g.rss \preceq (Dec("1e-12") ** s.n) \/ mine \preceq (Criterion(m, s, ndf, g.rss) ++ Dec("1e-6"))
        searched(m) == m > ng /\ m >= 1
        fixedOnly == ng > 0 /\ q.max <= ng
        best == \A m \in Allowed(q, ndf) :
                    IF m <= 0 THEN atMost(m, <<>>)
                    ELSE IF m = ng THEN atMost(m, q.given)
                    ELSE ~even \/ Len(u) < 4 \/ atMost(m, Start(q, s, m))
        start == FitOf(k, s, Start(q, s, k))
        sp == Spread(k, s, o.breaks)
        exactErr(x) == ErrorAt(k, s, o.breaks, sp, x)
        (* breaks that were found and that noise moves by much less than the distance of profiles *)
        found == k >= 1 /\ ng = 0 /\ even /\ q.nloops = 300 /\ ~f.singular
        improvable == k > ng /\ k >= 1 /\ even /\ ~f.singular /\ Len(u) >= 4 /\ (Dec("1e-18") ** (Sq(scale) ** s.n)) \prec f.plain
        (* a segment too short for its slope to be worth anything *)
        crowded == \E j \in 1..nb : LET lo == IF j = 1 THEN s.xs[1] ELSE o.breaks[j - 1] IN (o.breaks[j] -- lo) \prec (Dec("1e-3") ** xspan) \/ (u[Len(u)] -- o.breaks[j]) \prec (Dec("1e-3") ** xspan)
        ss == SearchedSpread(s, f, o.breaks)
        spacing == MinSeq([i \in 1..Len(u) - 1 |-> u[i + 1] -- u[i]])
        wellDetermined == /\ found /\ ~IsNaN(ss[1][1])
                          /\ \A j \in 1..k : /\ Sqrt(ss[k + 2 + j][k + 2 + j]) \prec (spacing // 5)
                                              /\ \A i \in 1..Len(u) : NAbs(u[i] -- o.breaks[j]) \succ (Dec("3") ** Sqrt(ss[k + 2 + j][k + 2 + j]))
        (* weighted statistics of each profile; shifted: as the code does and a stored MATLAB result pins *)
        wp(p) == LET ix == Where(s.n, LAMBDA i : NEq(s.xs[i], p)) IN ix
        first(p) == CHOOSE i \in 1..s.n : NEq(s.xs[i], p) /\ \A j \in 1..i - 1 : ~NEq(s.xs[j], p)
        before(p) == LET b == SelectSeq(u, LAMBDA v : v \prec p) IN IF Len(b) = 0 THEN 0 ELSE first(b[Len(b)])
        shifted(p) == [i \in 1..first(p) - before(p) |-> before(p) + i]
        stat(ix, i) == LET w == Pick(s.w, ix)  y == Pick(s.ys, ix)
                       IN /\ Close(o.mean[i], WMean(w, y), Dec("1e-9"), tol)
                          /\ NAbs(o.rms[i] -- WRms(w, y)) \preceq tol
        has(i) == \E j \in 1..s.n : NEq(s.xs[j], px[i])
        statOk == \A i \in 1..np : IF has(i) THEN stat(wp(px[i]), i) ELSE IsNaN(o.mean[i]) /\ IsNaN(o.rms[i])
        statShifted == \A i \in 1..np : IF has(i) THEN stat(shifted(px[i]), i) ELSE IsNaN(o.mean[i]) /\ IsNaN(o.rms[i])
    IN IF ~shaped THEN [fail |-> {IF crash THEN "error" ELSE "shape"}, hit |-> {}]
       ELSE IF empty THEN
        [fail |-> Failing(<<<<"missing values without data", allNaN(o.fit) /\ allNaN(o.err) /\ allNaN(o.slope) /\ allNaN(o.slopeerr) /\ allNaN(o.mean) /\ allNaN(o.rms)
                                                             /\ o.coef = <<>> /\ o.breaks = <<>> /\ CloseSeq(o.x, px, 0, Dec("1e-9"))>>>>),
         hit |-> {"no data"}]
       ELSE IF ~consistent THEN [fail |-> {"coefficients and breaks of one model"}, hit |-> {}]
       ELSE [fail |-> Failing(<<
                <<"profiles in order", CloseSeq(o.x, px, Dec("1e-9"), Dec("1e-9"))>>,
                <<"degrees of freedom", Close(o.ndf, ndf, Dec("1e-8"), 0)>>,
                <<"admissible model", k \in cands>>,
                <<"prescribed breaks kept", k <= 0 \/ ng = 0 \/ \A i \in 1..ng : \E j \in 1..nb : Close(o.breaks[j], q.given[i], Dec("1e-9"), 0)>>,
                <<"breaks inside the series and ascending",
                    /\ \A j \in 1..nb - 1 : o.breaks[j] \prec o.breaks[j + 1]
                    /\ \A j \in 1..nb : (\E i \in 1..ng : Close(o.breaks[j], q.given[i], Dec("1e-9"), 0))
                                        \/ (Len(u) >= 4 /\ (u[2] -- hair) \preceq o.breaks[j] /\ o.breaks[j] \preceq (u[Len(u) - 1] ++ apart))>>,
                <<"fitted value of every profile", ~f.singular => \A i \in 1..np : NAbs(o.fit[i] -- values[i]) \preceq tol>>,
                <<"coefficients of that fit", ~f.singular => \A j \in 1..k + 2 : NAbs(o.coef[j] -- f.coef[j]) \preceq IF j = 1 THEN tol ELSE Dec("1e-2") ** slopeTol ++ (Dec("1e-4") ** NAbs(f.coef[j]))>>,
                <<"slope of every profile",
                    IF k = -1 THEN \A i \in 1..np : NEq(o.slope[i], 0)
                    ELSE \A i \in 1..np : \E j \in segs(px[i]) : Close(o.slope[i], o.coef[j + 1], Dec("1e-9"), Dec("1e-12") ** slopeTol)>>,
                <<"no model of lower criterion", fixedOnly \/ Cardinality(cands) = 1 \/ f.singular \/ f.rss \preceq (Dec("1e-12") ** s.n) \/ best>>,
                <<"breaks no worse than where the search starts",
                    ~searched(k) \/ Len(u) < 4 \/ start.singular \/ f.plain \preceq ((start.plain ** Dec("1.000001")) ++ (tol ** tol))>>,
                <<"error of the slope of every profile",
                    IF k = -1 THEN allNaN(o.slopeerr)
                    ELSE f.singular \/ crowded \/ \A i \in 1..np : \E j \in segs(px[i]) :
                        LET v == sp.p2[j + 1] // Sq(sp.fold)
                        IN IF v \prec 0 THEN IsNaN(o.slopeerr[i]) ELSE Close(Sq(o.slopeerr[i]), v, Dec("1e-4"), 0)>>,
                <<"error of an offset", k # -1 \/ sdev \preceq Dec("1e-12") \/ \A i \in 1..np : Close(Sq(o.err[i]), sp.p2[1], Dec("1e-6"), 0)>>,
                <<"no other place of a break is far better",
                    ~improvable \/ LET e == TLCEval(Elsewhere(q, s, o.breaks))
                                    IN \A i \in 1..Len(e) : LET g == FitOf(k, s, e[i]) IN g.singular \/ (f.plain // 20) \preceq g.plain>>,
                <<"error of a fit without search",
                    k = -1 \/ f.singular \/ (k > 0 /\ k # ng) \/ (k > 0 /\ q.max > ng) \/ q.nloops < 1000
                    \/ \A i \in 1..np : LET x == exactErr(px[i]) IN IF x \prec 0 THEN IsNaN(o.err[i]) ELSE Close(Sq(o.err[i]), x, Dec("0.3"), 0)>>,
                <<"error of a fit with searched breaks",
                    ~wellDetermined \/ \A i \in 1..np : \/ \E j \in 1..k : NAbs(px[i] -- o.breaks[j]) \prec (spacing // 2)
                                                        \/ LET x == SearchedErrorAt(s, f, o.breaks, ss, sp, px[i])
                                                           IN (x // Dec("2.5")) \preceq Sq(o.err[i]) /\ Sq(o.err[i]) \preceq (x ** Dec("2.5"))>>,
                <<"statistics of every profile", statOk \/ statShifted>>,
                <<"sta-mean-shifted", statOk \/ ~statShifted>>,
                <<"arguments unchanged", o.unchanged>> >>),
        hit |-> {IF k = -1 THEN "offset" ELSE IF k = 0 THEN "line" ELSE IF k = 1 THEN "one break" ELSE "several breaks"}
                \union (IF ng > 0 THEN {IF fixedOnly THEN "prescribed breaks" ELSE IF k > ng THEN "prescribed and found breaks" ELSE "prescribed breaks, more allowed"} ELSE {})
                \union (IF q.exactly THEN {"exact number of breaks"} ELSE {})
                \union (IF q.max > 0 /\ ~(q.max \in Allowed(q, ndf)) THEN {"limited by degrees of freedom"} ELSE {})
                \union (IF searched(k) /\ Len(q.first) >= k - ng THEN {"guessed breaks"} ELSE {})
                \union (IF improvable THEN {"break that could move"} ELSE {})
                \union (IF wellDetermined THEN {"error of searched breaks"} ELSE {})
                \union (IF \E i \in 1..np : ~has(i) THEN {"profile without data"} ELSE {})
                \union (IF ~has(1) THEN {"first profile without data"} ELSE {})
                \union (IF ~has(np) THEN {"last profile without data"} ELSE {})
                \union (IF ~even THEN {"uneven errors"} ELSE {"even errors"})
                \union (IF \E i \in 1..Len(q.x) - 1 : q.x[i] \succ q.x[i + 1] THEN {"profiles out of order"} ELSE {})]
INSTANCE CaseSpec
=============================================================================

------------------------------- MODULE CalFit -------------------------------
(***************************************************************************)
(* The calibration fit: which of the models -1 (offset), 0 (straight line), *)
(* k = 1, 2, ... (k breaks) is reported for a series of observations with   *)
(* errors and a covariance.  A series q has                                 *)
(*   x      one number per profile                                          *)
(*   y, e   per profile the observations and their errors, NaN if missing   *)
(*   cov    covariance of all observations, profile by profile              *)
(*   max    largest number of breaks, exactly: whether just that number     *)
(*   given  prescribed breaks                                               *)
(*   first  guesses of the breaks, ascending, inside the range of the search *)
(***************************************************************************)
EXTENDS Piecewise

RECURSIVE Join(_)
Join(s) == IF Len(s) = 0 THEN <<>> ELSE Head(s) \o Join(Tail(s))
(* the finite observations in order of x *)
Series(q) ==
    LET np == Len(q.x)
        all == TLCEval(Join([p \in 1..np |-> [l \in 1..Len(q.y[p]) |-> [x |-> q.x[p], y |-> q.y[p][l], e |-> q.e[p][l]]]]))
        fin == Where(Len(all), LAMBDA i : IsFin(all[i].x) /\ IsFin(all[i].y))
        order == ArgSort(Map(fin, LAMBDA i : all[i].x))
        ix == Pick(fin, order)
        o == Pick(all, ix)
    IN TLCEval([n |-> Len(o), xs |-> Map(o, LAMBDA r : r.x), ys |-> Map(o, LAMBDA r : r.y), es |-> Map(o, LAMBDA r : r.e),
                w |-> Map(o, LAMBDA r : 1 // Sq(r.e)),
                cov |-> Map(ix, LAMBDA i : Pick(q.cov[i], ix))])
Distinct(xs) == SelectSeq(TLCEval([i \in 1..Len(xs) |-> IF i > 1 /\ NEq(xs[i], xs[i - 1]) THEN NaN ELSE xs[i]]), LAMBDA v : ~IsNaN(v))
(* effective degrees of freedom *)
Freedom(s) == SumSeq(Map(s.cov, LAMBDA r : 1 // SumSeq(r)))

(* -- models ---------------------------------------------------------------- *)
(* weighted least squares, weights w of the single observations *)
Weighted(T, s, ys) ==
    LET Tt == Transpose(T)
        TtW == Map(Tt, LAMBDA r : TLCEval([i \in 1..s.n |-> r[i] ** s.w[i]]))
    IN Map(Solve(MatMul(TtW, T), Map(MatVec(TtW, ys), LAMBDA v : <<v>>)), LAMBDA r : r[1])
BasisOf(k, s, breaks, xs) ==
    IF k = -1 THEN Map(xs, LAMBDA x : <<1>>)
    ELSE LET knots == <<s.xs[1]>> \o breaks
         IN Map(xs, LAMBDA x : IF x \prec s.xs[1] THEN <<1, x -- s.xs[1]>> \o [j \in 1..Len(breaks) |-> 0] ELSE BasisRow(knots, x))
FitOf(k, s, breaks) ==
    LET T == TLCEval(BasisOf(k, s, breaks, s.xs))
        c == Weighted(T, s, s.ys)
        r == LET f == MatVec(T, c) IN TLCEval([i \in 1..s.n |-> s.ys[i] -- f[i]])
    IN TLCEval([coef |-> c, singular |-> IsNaN(c[1]), res |-> r,
                rss |-> SumSeq([i \in 1..s.n |-> Sq(r[i]) ** s.w[i]]), plain |-> Dot(r, r)])
(* small-sample information criterion *)
Criterion(k, s, ndf, rss) ==
    LET p == IF k <= 0 THEN k + 2 ELSE 2 * (k + 1)
    IN (ndf ** Ln(rss // s.n)) ++ ((ndf ** (ndf ++ p)) // (ndf -- (p + 2)))
(* numbers of breaks that can be tried, given the degrees of freedom *)
Allowed(q, ndf) ==
    LET ng == Len(q.given)
        fewest == IF ng > 0 THEN ng + 1 ELSE IF q.exactly THEN q.max ELSE -1
        enough(k) == ndf \succeq (2 * k + 5)
        most == NFloor((ndf -- 1) // 2) - 2
    IN IF ng > 0 /\ q.max <= ng THEN {ng}
       ELSE LET tried == IF enough(q.max) THEN fewest..q.max
                         ELSE IF ndf \succ (2 * fewest + 5) THEN fewest..(IF most < q.max THEN most ELSE q.max)
                         ELSE IF ng > 0 THEN {} ELSE {-1}
            IN IF ng > 0 THEN tried \union {ng} ELSE tried
(* where the search for k breaks starts: the guesses, if there are enough, or evenly spread between second and last but one profile *)
Start(q, s, k) ==
    LET u == Distinct(s.xs)
        lo == u[2]  hi == u[Len(u) - 1]
        n == k - Len(q.given)
        free == TLCEval([i \in 1..n |-> lo ++ ((hi -- lo) ** (i // (n + 1)))])
        b == q.given \o (IF Len(q.first) >= n THEN SubSeq(q.first, 1, n) ELSE free)
    IN Pick(b, ArgSort(b))

(* the breaks after one found break moved by d times the range of the search, no breaks if that leaves it *)
Moved(q, s, breaks, j, d) ==
    LET u == Distinct(s.xs)
        lo == u[2]  hi == u[Len(u) - 1]
        b == TLCEval([i \in 1..Len(breaks) |-> IF i = j THEN breaks[j] ++ (d ** (hi -- lo)) ELSE breaks[i]])
    IN IF \/ \E i \in 1..Len(q.given) : Close(breaks[j], q.given[i], Dec("1e-9"), 0)
          \/ b[j] \prec lo \/ hi \prec b[j]
          \/ \E i \in 1..Len(b) - 1 : ~(b[i] \prec b[i + 1])
       THEN <<>> ELSE b

(* other places for the breaks: of a single one every profile and middle between profiles, of several ones a little aside *)
Elsewhere(q, s, breaks) ==
    LET u == Distinct(s.xs)
        n == Len(u)
        steps == IF q.sharp THEN <<Dec("0.02"), 0 -- Dec("0.02"), Dec("0.1"), 0 -- Dec("0.1")>> ELSE <<Dec("0.02"), 0 -- Dec("0.02")>>
    IN IF Len(breaks) = 1 /\ Len(q.given) = 0 THEN [i \in 1..2 * (n - 3) |-> <<(u[2 + (i \div 2)] ++ u[2 + ((i - 1) \div 2)]) // 2>>]
       ELSE SelectSeq([i \in 1..Len(breaks) * Len(steps) |-> Moved(q, s, breaks, 1 + ((i - 1) \div Len(steps)), steps[1 + ((i - 1) % Len(steps))])],
                      LAMBDA b : Len(b) > 0)

(* -- errors ---------------------------------------------------------------- *)
Inverse(M) == Solve(M, TLCEval([i \in 1..Len(M) |-> [j \in 1..Len(M) |-> IF i = j THEN 1 ELSE 0]]))
(* error variance of the coefficients in scaled x: independent errors, and with the covariance *)
Spread(k, s, breaks) ==
    LET u == Distinct(s.xs)
        scale == IF Len(u) > 1 THEN (u[Len(u)] -- u[1]) // 2 ELSE 1
        fold(T) == Map(T, LAMBDA r : TLCEval([j \in 1..Len(r) |-> IF j = 1 THEN r[j] ELSE r[j] // scale]))
        T == fold(BasisOf(k, s, breaks, s.xs))
        Tt == Transpose(T)
        TtW == Map(Tt, LAMBDA r : TLCEval([i \in 1..s.n |-> r[i] ** s.w[i]]))
        B == Inverse(MatMul(TtW, T))
        G == TLCEval(MatMul(B, TtW))                            \* coefficients = G y
        V == Map(G, LAMBDA r : TLCEval([i \in 1..s.n |-> r[i] ** Sq(s.es[i])]))
        VC == MatMul(V, s.cov)
    IN TLCEval([fold |-> scale, p1 |-> TLCEval([j \in 1..Len(G) |-> Dot(V[j], G[j])]), p2 |-> TLCEval([j \in 1..Len(G) |-> Dot(VC[j], G[j])]),
                cov |-> MatMul(V, Transpose(G))])
(* mean square error of the fitted value at x *)
ErrorAt(k, s, breaks, sp, x) ==
    LET r == BasisOf(k, s, breaks, <<x>>)[1]
        b == TLCEval([j \in 1..Len(r) |-> IF j = 1 THEN r[j] ELSE r[j] // sp.fold])
        a == Map(b, LAMBDA v : NAbs(v))
    IN Dot(b, MatVec(sp.cov, b)) ** (Dot(a, sp.p2) // Dot(a, sp.p1))
(* the same when the k breaks are fitted too, to first order (equal errors): the curve also changes by what moving a break does *)
WithSteps(s, f, breaks, xs) ==
    LET T == BasisOf(Len(breaks), s, breaks, xs)
    IN [i \in 1..Len(xs) |-> T[i] \o [j \in 1..Len(breaks) |-> IF xs[i] \succ breaks[j] THEN f.coef[j + 1] -- f.coef[j + 2] ELSE 0]]
SearchedSpread(s, f, breaks) ==
    LET T == TLCEval(WithSteps(s, f, breaks, s.xs))
        Q == Inverse(MatMul(Transpose(T), T))
    IN TLCEval(Map(Q, LAMBDA r : Map(r, LAMBDA v : v ** Sq(s.es[1]))))
SearchedErrorAt(s, f, breaks, ss, sp, x) ==
    LET r == WithSteps(s, f, breaks, <<x>>)[1]
        b == BasisOf(Len(breaks), s, breaks, <<x>>)[1]
        a == TLCEval([j \in 1..Len(b) |-> NAbs(IF j = 1 THEN b[j] ELSE b[j] // sp.fold)])
    IN Dot(r, MatVec(ss, r)) ** (Dot(a, sp.p2) // Dot(a, sp.p1))

(* -- weighted mean and deviation of the profiles ------------------------------ *)
WMean(w, y) == Dot(w, y) // SumSeq(w)
WRms(w, y) == LET m == WMean(w, y) IN Sqrt(Dot(w, Map(y, LAMBDA v : Sq(v -- m))) // SumSeq(w))
=============================================================================

------------------------------- MODULE ObjMap -------------------------------
(***************************************************************************)
(* Covariance of positions and profiles, signal and noise of salinities,   *)
(* and objective mapping.  A position is <<x1, x2, date, depth>>; x1 is     *)
(* scaled by the scale called "long" and x2 by "lat" in the code.          *)
(***************************************************************************)
EXTENDS Geo

PVTerm2(p, q, phi) == Sq(((p -- q) // Sqrt(Sq(p) ++ Sq(q))) // phi)
(* s: [first, second: scales of x1 and x2; age (0: no time term), phi, pv] *)
CovFrom(a, b, pa, pb, s) ==
    Exp(0 -- (((Sq((a[1] -- b[1]) // s.first) ++ Sq((a[2] -- b[2]) // s.second))
              ++ (IF NEq(s.age, 0) THEN 0 ELSE Sq((a[3] -- b[3]) // s.age)))
              ++ (IF s.pv = 1 THEN PVTerm2(pa, pb, s.phi) ELSE 0)))
PVs(P, s) == Map(P, LAMBDA a : IF s.pv = 1 THEN PV(a[1], a[4]) ELSE 0)
Cov(P, Q, s) ==
    LET pp == PVs(P, s)  pq == PVs(Q, s)
    IN TLCEval([i \in 1..Len(P) |-> TLCEval([j \in 1..Len(Q) |-> CovFrom(P[i], Q[j], pp[i], pq[j], s)])])

(* -- signal and noise ----------------------------------------------------- *)
Valid(s) == SelectSeq(s, LAMBDA x : ~IsNaN(x))
Variance(s) == LET m == Mean(s) IN Mean(Map(s, LAMBDA x : Sq(x -- m)))
SignalVariance(s) == Variance(Valid(s))
DistSq(P, i, j) == Sq(P[i][1] -- P[j][1]) ++ Sq(P[i][2] -- P[j][2])
(* the nearest casts at another place than cast i: several if they are equally far *)
Nearest(P, i) ==
    LET n == Len(P)
        d == TLCEval([j \in 1..n |-> DistSq(P, i, j)])
        other == {j \in 1..n : ~NEq(d[j], 0)}
        best == MinSeq(Pick(d, Ascending(other)))
    IN IF other = {} THEN {} ELSE {j \in other : d[j] \preceq (best ** Dec("1.000000000001"))}
(* <<least, greatest>> noise variance for the possible choices among equally near casts *)
NoiseRange(sal, P) ==
    LET n == Len(P)
        near == TLCEval([i \in 1..n |-> Nearest(P, i)])
        sq(i) == Map(Ascending(near[i]), LAMBDA j : Sq(sal[i] -- sal[j]))
    IN IF \A i \in 1..n : near[i] = {} THEN <<0, 0>>
       ELSE <<Mean(TLCEval([i \in 1..n |-> MinSeq(sq(i))])) // 2, Mean(TLCEval([i \in 1..n |-> MaxSeq(sq(i))])) // 2>>

(* -- objective mapping ---------------------------------------------------- *)
Diag(n, x) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> IF i = j THEN x ELSE 0])])
AddMat(A, B) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(A[i]) |-> A[i][j] ++ B[i][j]])])
ScaleMat(A, x) == Map(A, LAMBDA r : Map(r, LAMBDA v : x ** v))
Column(v) == Map(v, LAMBDA x : <<x>>)
Flat(m) == Map(m, LAMBDA r : r[1])
(* The estimate at the target positions T from salinities sal at P:          *)
(* mean by generalised least squares plus covariance-weighted residuals; the *)
(* squared error includes the variance of the mean.                          *)
Objective(sal, P, T, s, sig, noise) ==
    LET n == Len(P)
        C == AddMat(ScaleMat(Cov(P, P, s), sig), Diag(n, noise))
        ones == TLCEval([i \in 1..n |-> 1])
        k == ScaleMat(Cov(T, P, s), sig)                    \* one row per target
        X == Solve(C, TLCEval([i \in 1..n |-> <<sal[i], 1>> \o TLCEval([t \in 1..Len(T) |-> k[t][i]])]))
        ci == Flat(X)                                       \* C^-1 sal
        c1 == Map(X, LAMBDA r : r[2])                       \* C^-1 1
        sum1 == SumSeq(c1)
        mean == SumSeq(ci) // sum1
        w == TLCEval([i \in 1..n |-> ci[i] -- (mean ** c1[i])])
        one(t) == LET kc == TLCEval([i \in 1..n |-> X[i][2 + t]])       \* C^-1 k
                  IN [value |-> mean ++ Dot(k[t], w),
                      errsq |-> (sig -- Dot(k[t], kc)) ++ (Sq(1 -- SumSeq(kc)) // sum1)]
    IN TLCEval([t \in 1..Len(T) |-> one(t)])

(* -- covariance of the calibration fit ------------------------------------ *)
Bounds == <<30, 24, 18, 12, 8, 4, Dec("2.5"), 1, -2>>
ScaleDown == <<6, 6, 6, 4, 4, Dec("1.5"), Dec("1.5"), 1, 1>>
ScaleUp == <<6, 6, 6, 6, 4, 4, Dec("1.5"), Dec("1.5"), 1>>
AtTheta(table, t) ==
    LET i == CHOOSE j \in 1..8 : t \preceq Bounds[j] /\ t \succeq Bounds[j + 1]
    IN table[i + 1] ++ (((t -- Bounds[i + 1]) // (Bounds[i] -- Bounds[i + 1])) ** (table[i] -- table[i + 1]))
InTheta(t) == t \preceq 30 /\ t \succeq -2
Vertical(ptmp, prof, i, j) ==
    LET ti == ptmp[i][prof]  tj == ptmp[j][prof]
    IN IF i = j \/ IsNaN(ti) \/ IsNaN(tj) THEN 1
       ELSE Exp(0 -- Sq((tj -- ti) // AtTheta(IF i < j THEN ScaleDown ELSE ScaleUp, ti)))
(* coord: one <<x1, x2, depth>> per profile; x1 is scaled by lat, x2 by long *)
Horizontal(coord, a, b, s) ==
    LET x == coord[a]  y == coord[b]
    IN CovFrom(<<x[1], x[2], 0, x[3]>>, <<y[1], y[2], 0, y[3]>>,
               IF s.pv = 1 THEN PV(x[1], x[3]) ELSE 0, IF s.pv = 1 THEN PV(y[1], y[3]) ELSE 0,
               [first |-> s.lat, second |-> s.long, age |-> 0, phi |-> s.phi, pv |-> s.pv])
(* rows and columns: all levels of the first profile, then of the second ... *)
FitCov(ptmp, coord, s) ==
    LET m == Len(ptmp)
        n == IF m = 0 THEN 0 ELSE Len(ptmp[1])
        h == TLCEval([a \in 1..n |-> TLCEval([b \in 1..n |-> Horizontal(coord, a, b, s)])])
        v == TLCEval([a \in 1..n |-> TLCEval([i \in 1..m |-> TLCEval([j \in 1..m |-> Vertical(ptmp, a, i, j)])])])
        prof(x) == ((x - 1) \div m) + 1
        lev(x) == ((x - 1) % m) + 1
    IN TLCEval([x \in 1..m * n |-> TLCEval([y \in 1..m * n |-> h[prof(x)][prof(y)] ** v[prof(x)][lev(x)][lev(y)]])])
=============================================================================

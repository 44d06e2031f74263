----------------------------- MODULE Piecewise -----------------------------
(***************************************************************************)
(* Continuous piecewise linear functions with given breaks and their       *)
(* weighted least-squares fit.  Coefficients are <<value at x0, slope of   *)
(* the first segment, slope of the second, ...>>.                          *)
(***************************************************************************)
EXTENDS Num

(* knots: x0 and the breaks, ascending.  The length of segment j left of x. *)
Run(knots, j, x) ==
    LET a == knots[j]
        b == IF j < Len(knots) THEN knots[j + 1] ELSE x
        r == NMin(x, b) -- a
    IN IF x \preceq a THEN 0 ELSE r
BasisRow(knots, x) == <<1>> \o TLCEval([j \in 1..Len(knots) |-> Run(knots, j, x)])
Basis(knots, xs) == Map(xs, LAMBDA x : BasisRow(knots, x))
(* A straight line before x0 would need the first slope; observations start at x0. *)
Evaluate(knots, coef, x) == Dot(BasisRow(knots, x), coef)
(* W: matrix of weights, or the empty sequence for equal weights.  NaN coefficients if singular. *)
LeastSquares(knots, xs, ys, W) ==
    LET T == Basis(knots, xs)
        Tt == Transpose(T)
        TtW == IF Len(W) = 0 THEN Tt ELSE MatMul(Tt, W)
    IN Map(Solve(MatMul(TtW, T), Map(MatVec(TtW, ys), LAMBDA v : <<v>>)), LAMBDA r : r[1])
=============================================================================

------------------------------- MODULE T_C12 -------------------------------
(* C12: recorded piecewise linear fits and interval searches. *)
EXTENDS Piecewise
VARIABLES case, done

Fit(c) ==
    LET q == c.in  o == c.out
        n == Len(q.x)  nb == Len(q.breaks)
        knots == <<q.x[1]>> \o q.breaks
        sol == LeastSquares(knots, q.x, q.y, q.w)
        singular == IsNaN(sol[1])
        zero == /\ \A i \in 1..Len(o.coef) : NEq(o.coef[i], 0)
                /\ SameSeq(o.res, q.y)
        mismatch == Len(q.x) # Len(q.y)
        scale == MaxSeq(Map(q.y, LAMBDA v : NAbs(v)))
        abs == Dec("1e-8") ** scale
        fit == Map(q.x, LAMBDA x : Evaluate(knots, o.coef, x))
        best == Map(q.x, LAMBDA x : Evaluate(knots, sol, x))
        obj(f) == LET r == TLCEval([i \in 1..n |-> q.y[i] -- f[i]]) IN IF Len(q.w) = 0 THEN Dot(r, r) ELSE Dot(r, MatVec(q.w, r))
        ok == IsArray(o.coef) /\ Len(o.coef) = nb + 2 /\ IsArray(o.res) /\ Len(o.res) = Len(q.y)
    IN [fail |-> IF ~ok THEN {"shape"}
                 ELSE IF mismatch THEN Failing(<<<<"inconsistent inputs give zero coefficients and the observations", zero>>>>)
                 ELSE IF singular THEN
                    (IF q.exact THEN Failing(<<<<"singular system gives zero coefficients and the observations", zero>>>>) ELSE {})
                 ELSE Failing(<<
                    <<"weighted least squares", CloseSeq(fit, best, Dec("1e-8"), abs)>>,
                    <<"coefficients", \A i \in 1..nb + 2 : Close(o.coef[i], sol[i], Dec("1e-6"), abs ** Dec(q.slack))>>,
                    <<"residuals of that function", \A i \in 1..n : Close(o.res[i], q.y[i] -- fit[i], Dec("1e-8"), abs)>>,
                    <<"inputs unchanged", o.unchanged>> >>),
        hit |-> IF mismatch THEN {"inconsistent inputs"} ELSE
                {IF singular THEN "singular" ELSE "regular", IF Len(q.w) = 0 THEN "equal weights" ELSE "weighted"}
                \union (IF nb > 0 THEN {"breaks"} ELSE {"no breaks"})
                \union (IF \E i \in 1..n, j \in 1..nb : NEq(q.x[i], q.breaks[j]) THEN {"break at an observation"} ELSE {})
                \union (IF \E i \in 1..n - 1 : NEq(q.x[i], q.x[i + 1]) THEN {"repeated x"} ELSE {})]
Sort(c) ==
    LET q == c.in  p == c.out.p
        at(i) == p[i] + 1                   \* 1-based interval: between breaks at and at + 1
        in(i) == /\ (at(i) = 0 \/ (at(i) \in 1..Len(q.m) /\ q.m[at(i)] \preceq q.s[i]))
                 /\ (at(i) = Len(q.m) \/ q.m[at(i) + 1] \succeq q.s[i])
    IN [fail |-> Failing(<<<<"interval of each point", IsArray(p) /\ Len(p) = Len(q.s) /\ \A i \in 1..Len(p) : IsNum(p[i]) /\ p[i] \in -1..Len(q.m) - 1 /\ in(i)>>>>),
        hit |-> {"intervals"}]
Judge(c) == IF "error" \in DOMAIN c.out THEN [fail |-> {"error"}, hit |-> {}]
            ELSE IF c.kind = "sorter" THEN Sort(c) ELSE Fit(c)
INSTANCE CaseSpec
=============================================================================

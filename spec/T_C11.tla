------------------------------- MODULE T_C11 -------------------------------
(* C11: recorded covariances, signal and noise variances. *)
EXTENDS ObjMap
VARIABLES case, done
Tight == Dec("1e-9")

Square(m, a, b) == IsArray(m) /\ Len(m) = a /\ \A i \in 1..a : IsArray(m[i]) /\ Len(m[i]) = b /\ \A j \in 1..b : IsNum(m[i][j])
Covs(c) ==
    LET q == c.in
        s == [first |-> q.long, second |-> q.lat, age |-> q.age, phi |-> q.phi, pv |-> q.pv]
        m == c.out.cov  a == Len(q.p)  b == Len(q.q)
        same(i, j) == \A x \in 1..4 : NEq(q.p[i][x], q.q[j][x])
    IN [fail |-> IF ~Square(m, a, b) THEN {"shape"}
                 ELSE Failing(<<
                    <<"covariance of positions", CloseMat(m, Cov(q.p, q.q, s), Tight, Dec("1e-15"))>>,
                    <<"between 0 and 1", \A i \in 1..a, j \in 1..b : m[i][j] \succeq 0 /\ m[i][j] \preceq 1>>,
                    <<"one at equal positions", \A i \in 1..a, j \in 1..b : same(i, j) => NEq(m[i][j], 1)>>,
                    <<"symmetric", SameMat(c.out.back, Transpose(m)) \/ CloseMat(c.out.back, Transpose(m), Dec("1e-13"), 0)>>,
                    <<"inputs unchanged", c.out.unchanged>> >>),
        hit |-> {"positions", IF q.pv = 1 THEN "with vorticity" ELSE "without vorticity", IF NEq(q.age, 0) THEN "without time" ELSE "with time"}
                \union (IF q.pv = 1 /\ \E i \in 1..a : NEq(q.p[i][1], 0) THEN {"zero vorticity"} ELSE {})]
Signal(c) ==
    LET v == Valid(c.in.sal)
    IN [fail |-> Failing(<<<<"signal variance", IsNum(c.out.v) /\ Close(c.out.v, Variance(v), Tight, Dec("1e-18"))>>,
                           <<"inputs unchanged", c.out.unchanged>>>>),
        hit |-> {IF Len(v) < Len(c.in.sal) THEN "signal with gaps" ELSE "signal"}]
Noise(c) ==
    LET r == NoiseRange(c.in.sal, c.in.p)
    IN [fail |-> Failing(<<<<"noise variance", /\ IsNum(c.out.v) /\ IsFin(c.out.v)
                                               /\ c.out.v \succeq ((r[1] ** Dec("0.999999999")) -- Dec("1e-20"))
                                               /\ c.out.v \preceq ((r[2] ** Dec("1.000000001")) ++ Dec("1e-20"))>>,
                           <<"inputs unchanged", c.out.unchanged>>>>),
        hit |-> {IF NEq(r[2], 0) THEN "no noise" ELSE IF Close(r[1], r[2], Dec("1e-12"), 0) THEN "noise" ELSE "noise with equally near casts"}]
Fitcov(c) ==
    LET q == c.in  m == c.out.cov
        n == Len(q.ptmp) * Len(q.ptmp[1])
    IN [fail |-> IF ~Square(m, n, n) THEN {"shape"}
                 ELSE Failing(<<<<"fit covariance", CloseMat(m, FitCov(q.ptmp, q.coord, q.s), Tight, Dec("1e-15"))>>,
                                <<"inputs unchanged", c.out.unchanged>>>>),
        hit |-> {IF \E i \in 1..Len(q.ptmp) : \E j \in 1..Len(q.ptmp[1]) : IsNaN(q.ptmp[i][j]) THEN "fit covariance with gaps" ELSE "fit covariance"}
                \union (IF q.s.pv = 1 THEN {"fit covariance with vorticity"} ELSE {})]
Horiz(c) ==
    LET q == c.in
    IN [fail |-> Failing(<<<<"horizontal covariance", IsArray(c.out.v) /\ Len(c.out.v) = Len(q.coord)
                                /\ \A b \in 1..Len(q.coord) : Close(c.out.v[b], Horizontal(q.coord, q.a + 1, b, q.s), Tight, Dec("1e-15"))>>>>),
        hit |-> {"horizontal covariance"}]
Judge(c) ==
    IF "error" \in DOMAIN c.out THEN [fail |-> {"error"}, hit |-> {}]
    ELSE CASE c.kind = "cov" -> Covs(c) [] c.kind = "signal" -> Signal(c) [] c.kind = "noise" -> Noise(c)
           [] c.kind = "fitcov" -> Fitcov(c) [] c.kind = "horiz" -> Horiz(c)
INSTANCE CaseSpec
=============================================================================

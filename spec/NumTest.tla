------------------------------ MODULE NumTest ------------------------------
(* Sanity of the number primitives; every check runs it before judging. *)
EXTENDS Num
E == Dec("1e-30")
ASSUME Close(Exp(1), Dec("2.71828182845904523536028747135266249776"), E, 0)
ASSUME Close(Exp(Dec("-7.25")), Dec("0.00071017438884254912"), Dec("1e-15"), 0)
ASSUME Close(Ln(Exp(Dec("3.7"))), Dec("3.7"), E, 0)
ASSUME Close(Sin(Pi // 6), Dec("0.5"), E, 0) /\ Close(Cos(Pi // 3), Dec("0.5"), E, 0)
ASSUME Close(Sq(Sqrt(2)), 2, E, 0)
ASSUME IsNaN(NaN) /\ ~(NaN \prec 1) /\ ~(NaN \succeq 1) /\ IsNaN(NaN ++ 1) /\ ~NEq(NaN, NaN)
ASSUME NFloor(Dec("-1.5")) = -2 /\ NRound(Dec("2.5")) = 2 /\ NRound(Dec("-1.6")) = -2
ASSUME LET A == <<<<2, 1, 0>>, <<0, 3, 1>>, <<1, 0, 4>>>>
           X == Solve(A, <<<<1>>, <<2>>, <<3>>>>)
       IN CloseMat(MatMul(A, X), <<<<1>>, <<2>>, <<3>>>>, E, 0)
ASSUME IsNaN(Solve(<<<<1, 1>>, <<1, 1>>>>, <<<<1>>, <<2>>>>)[1][1])
ASSUME ArgSort(<<3, NaN, 1, 3, Dec("0.5")>>) = <<5, 3, 1, 4, 2>>
ASSUME Ascending({3, 1, 2}) = <<1, 2, 3>> /\ Where(4, LAMBDA i : i % 2 = 0) = <<2, 4>>
ASSUME SumSeq(<<>>) = 0 /\ Mean(<<1, 2>>) = Dec("1.5") /\ Dot(<<1, 2>>, <<3, 4>>) = 11
ASSUME Close(1, Dec("1.0000001"), Dec("1e-6"), 0) /\ ~Close(1, Dec("1.0001"), Dec("1e-6"), 0) /\ ~Close(NaN, 1, 1, 1)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================

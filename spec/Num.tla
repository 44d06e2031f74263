-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Decimal numbers of 40 digits with the IEEE specials NaN, +inf and -inf, *)
(* which TLC does not have.  The operators marked "java" are evaluated by  *)
(* /verif/java/NumOps.java; the definitions here only give their arity.    *)
(* Integers of TLA+ are accepted wherever a number is.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* java: arithmetic and order; comparisons with NaN are FALSE *)
NPlus(x, y) == CHOOSE z : TRUE
NMinus(x, y) == CHOOSE z : TRUE
NTimes(x, y) == CHOOSE z : TRUE
NOver(x, y) == CHOOSE z : TRUE
NLt(x, y) == CHOOSE z \in BOOLEAN : TRUE
NLe(x, y) == CHOOSE z \in BOOLEAN : TRUE
NEq(x, y) == CHOOSE z \in BOOLEAN : TRUE
NAbs(x) == CHOOSE z : TRUE
IsNaN(x) == CHOOSE z \in BOOLEAN : TRUE
IsFin(x) == CHOOSE z \in BOOLEAN : TRUE
IsNum(x) == CHOOSE z \in BOOLEAN : TRUE
IsText(x) == CHOOSE z \in BOOLEAN : TRUE
IsArray(x) == CHOOSE z \in BOOLEAN : TRUE
Dec(s) == CHOOSE z : TRUE          \* the decimal written in the string s
NFloor(x) == CHOOSE z : TRUE       \* integer, towards minus infinity
NRound(x) == CHOOSE z : TRUE       \* nearest integer, halves to even
Sqrt(x) == CHOOSE z : TRUE
Exp(x) == CHOOSE z : TRUE
Ln(x) == CHOOSE z : TRUE
Sin(x) == CHOOSE z : TRUE
Cos(x) == CHOOSE z : TRUE
Pi == CHOOSE z : TRUE
SumSeq(s) == CHOOSE z : TRUE       \* sum of a sequence, 0 if empty
Dot(a, b) == CHOOSE z : TRUE       \* sum of the products
Solve(A, B) == CHOOSE z : TRUE     \* X with A X = B (sequences of rows); NaN if A is singular
ArgSort(s) == CHOOSE z : TRUE      \* positions in ascending order, ties in order, NaN last

(* java: the recorded trace named by -Dverif.<name>, an integer parameter, and a line of output *)
Load(name) == CHOOSE z : TRUE
Param(name) == CHOOSE z : TRUE
Emit(tag, v) == CHOOSE z \in BOOLEAN : TRUE

a ++ b == NPlus(a, b)
a -- b == NMinus(a, b)
a ** b == NTimes(a, b)
a // b == NOver(a, b)
a \prec b == NLt(a, b)
a \preceq b == NLe(a, b)
a \succ b == NLt(b, a)
a \succeq b == NLe(b, a)

NaN == Dec("nan")
Sq(x) == x ** x
NMin(x, y) == IF x \preceq y THEN x ELSE y
NMax(x, y) == IF x \succeq y THEN x ELSE y

Range(s) == {s[i] : i \in 1..Len(s)}
Mk(n, F(_)) == TLCEval([i \in 1..n |-> F(i)])
Map(s, F(_)) == TLCEval([i \in 1..Len(s) |-> F(s[i])])
Pick(s, ix) == TLCEval([i \in 1..Len(ix) |-> s[ix[i]]])
Mean(s) == SumSeq(s) // Len(s)
RECURSIVE Ascending(_)
(* The elements of a finite set of integers in ascending order. *)
Ascending(S) == IF S = {} THEN <<>>
                ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Ascending(S \ {m})
(* Positions 1..n satisfying P, in order. *)
Where(n, P(_)) == SelectSeq(TLCEval([i \in 1..n |-> i]), P)
MinSeq(s) == IF Len(s) = 0 THEN NaN ELSE s[ArgSort(s)[1]]
MaxSeq(s) == IF Len(s) = 0 THEN NaN ELSE s[ArgSort(s)[Len(s)]]

(* Same value up to a relative and an absolute tolerance; NaN only matches NaN. *)
Close(x, y, rel, abs) ==
    \/ IsNaN(x) /\ IsNaN(y)
    \/ NEq(x, y)
    \/ IsFin(x) /\ IsFin(y) /\ NAbs(x -- y) \preceq (abs ++ (rel ** NMax(NAbs(x), NAbs(y))))
CloseSeq(s, t, rel, abs) ==
    /\ Len(s) = Len(t)
    /\ \A i \in 1..Len(s) : Close(s[i], t[i], rel, abs)
CloseMat(s, t, rel, abs) ==
    /\ Len(s) = Len(t)
    /\ \A i \in 1..Len(s) : CloseSeq(s[i], t[i], rel, abs)
SameSeq(s, t) == CloseSeq(s, t, 0, 0)
SameMat(s, t) == CloseMat(s, t, 0, 0)
Transpose(m) == IF Len(m) = 0 THEN <<>> ELSE TLCEval([j \in 1..Len(m[1]) |-> TLCEval([i \in 1..Len(m) |-> m[i][j]])])
MatVec(m, v) == Map(m, LAMBDA r : Dot(r, v))
MatMul(a, b) == LET bt == Transpose(b) IN Map(a, LAMBDA r : Map(bt, LAMBDA c : Dot(r, c)))
(* The names whose condition fails: clauses is a sequence of <<name, BOOLEAN>>. *)
Failing(clauses) == {clauses[i][1] : i \in {j \in 1..Len(clauses) : ~clauses[j][2]}}
=============================================================================

------------------------------- MODULE Front -------------------------------
(***************************************************************************)
(* The side of the Subantarctic Front: 1 north, -1 south, 0 unclassed.  The *)
(* operators give the set of sides that are right: more than one only when  *)
(* the answer hangs on rounding or on an envelope that is no function.      *)
(***************************************************************************)
EXTENDS Num

Hair == Dec("1e-9")
Sides == {-1, 0, 1}
(* pieces of the table on which x lies; xp as given (not necessarily ascending) *)
Pieces(xp, x) == {i \in 1..Len(xp) - 1 : (xp[i] \preceq x /\ x \prec xp[i + 1]) \/ (xp[i + 1] \prec x /\ x \preceq xp[i])}
(* a finite table of an ascending variable *)
Rising(xp) == \A i \in 1..Len(xp) - 1 : xp[i] \prec xp[i + 1]
ValueIn(xp, fp, x) ==
    IF IsNaN(x) \/ x \prec xp[1] \/ x \succ xp[Len(xp)] THEN NaN
    ELSE IF \E i \in 1..Len(xp) : NEq(xp[i], x) THEN fp[CHOOSE i \in 1..Len(xp) : NEq(xp[i], x)]
    ELSE LET i == CHOOSE j \in Pieces(xp, x) : TRUE
         IN fp[i] ++ (((x -- xp[i]) // (xp[i + 1] -- xp[i])) ** (fp[i + 1] -- fp[i]))
Unclear(xp, x) == ~IsNaN(x) /\ ~Rising(xp)
                  /\ (Cardinality(Pieces(xp, x)) > 1 \/ ((x \prec xp[1] \/ x \succ xp[Len(xp)]) /\ Pieces(xp, x) # {}))

(* the levels at which pressure and temperature are known *)
Known2(p, t) == Where(Len(p), LAMBDA i : ~IsNaN(p[i]) /\ ~IsNaN(t[i]))
Spans(p) == Len(p) > 2 /\ MinSeq(p) \prec 300 /\ MaxSeq(p) \succ 300
Repeats(p) == \E i \in 1..Len(p) - 1 : NEq(p[i], p[i + 1])
ByTemperature(t) ==
    LET exactly == IF t \succ 5 THEN 1 ELSE IF t \prec 3 THEN -1 ELSE 0
    IN IF NAbs(t -- 5) \prec Hair THEN {0, 1} ELSE IF NAbs(t -- 3) \prec Hair THEN {0, -1} ELSE {exactly}
At300(p, t) == IF \E i \in 1..Len(p) : NEq(p[i], 300)            \* no rounding
               THEN LET x == ValueIn(p, t, 300) IN {IF x \succ 5 THEN 1 ELSE IF x \prec 3 THEN -1 ELSE 0}
               ELSE ByTemperature(ValueIn(p, t, 300))

(* -- the envelopes: saf has depth and north/south bounds as temperature and salinity tables ------- *)
Minus(a, b) == Mk(Len(a), LAMBDA i : a[i] -- b[i])
Plus(a, b) == Mk(Len(a), LAMBDA i : a[i] ++ b[i])
Backwards(s) == Mk(Len(s), LAMBDA i : s[Len(s) + 1 - i])
Below(saf) == LET f(s) == SubSeq(s, 3, Len(s))
              IN [deph |-> f(saf.deph), sn |-> f(saf.sn), tn |-> f(saf.tn), ss |-> f(saf.ss), ts |-> f(saf.ts),
                  dsn |-> f(saf.dsn), dtn |-> f(saf.dtn), dss |-> f(saf.dss), dts |-> f(saf.dts)]
ByEnvelope(saf, p, t, s) ==
    LET e == Below(saf)
        n == Len(e.deph)
        sal == TLCEval(Mk(n, LAMBDA i : ValueIn(p, s, e.deph[i])))
        temp == TLCEval(Mk(n, LAMBDA i : ValueIn(p, t, e.deph[i])))
        lowN == [x |-> Backwards(Minus(e.tn, e.dtn)), y |-> Backwards(Minus(e.sn, e.dsn))]
        topN == [x |-> Backwards(Plus(e.tn, e.dtn)), y |-> Backwards(Plus(e.sn, e.dsn))]
        lowS == [x |-> Minus(e.ss, e.dss), y |-> Minus(e.ts, e.dts)]
        topS == [x |-> Plus(e.ss, e.dss), y |-> Plus(e.ts, e.dts)]
        a == TLCEval(Mk(n, LAMBDA i : ValueIn(lowN.x, lowN.y, temp[i])))
        b == TLCEval(Mk(n, LAMBDA i : ValueIn(topN.x, topN.y, temp[i])))
        g == TLCEval(Mk(n, LAMBDA i : ValueIn(lowS.x, lowS.y, sal[i])))
        h == TLCEval(Mk(n, LAMBDA i : ValueIn(topS.x, topS.y, sal[i])))
        ix == {i \in 1..n : e.deph[i] \succ 150 /\ e.deph[i] \prec 1700 /\ ~IsNaN(sal[i])
                            /\ ~IsNaN(a[i]) /\ ~IsNaN(b[i]) /\ ~IsNaN(g[i]) /\ ~IsNaN(h[i])}
        hazy == \E i \in 1..n : \/ Unclear(lowN.x, temp[i]) \/ Unclear(topN.x, temp[i])
                                \/ Unclear(lowS.x, sal[i]) \/ Unclear(topS.x, sal[i])
                                \/ (i \in ix /\ \E v \in {temp[i] -- g[i], temp[i] -- h[i], sal[i] -- a[i], sal[i] -- b[i]} : NAbs(v) \prec Dec("1e-10"))
        south == \A i \in ix : g[i] \prec temp[i] /\ temp[i] \prec h[i]
        north == \A i \in ix : a[i] \prec sal[i] /\ sal[i] \prec b[i]
    IN IF hazy THEN Sides
       ELSE IF ix = {} THEN {0}
       ELSE IF south = north THEN {0} ELSE IF south THEN {-1} ELSE {1}

SidesOfFloat(saf, f) ==
    LET k == Known2(f.pres, f.tmp)
        p == Pick(f.pres, k)  t == Pick(f.tmp, k)  s == Pick(f.sal, k)
    IN IF Repeats(p) \/ ~Spans(p) THEN {0}
       ELSE UNION {IF d = 0 THEN ByEnvelope(saf, p, t, s) ELSE {d} : d \in At300(p, t)}
(* of repeated pressures the last counts *)
SidesOfCast(c) ==
    LET n == Len(c.pres)
        k == Where(n, LAMBDA i : ~IsNaN(c.pres[i]) /\ ~IsNaN(c.sal[i]) /\ ~IsNaN(c.ptmp[i])
                                 /\ (i = n \/ ~NEq(c.pres[i], c.pres[i + 1])))
        p == Pick(c.pres, k)
    IN IF Repeats(p) \/ ~Spans(p) THEN {0} ELSE At300(p, Pick(c.tmp, k))
=============================================================================

------------------------------- MODULE Interp -------------------------------
(***************************************************************************)
(* Interpolation of historical casts on the potential temperatures of a    *)
(* float profile.  Casts and the profile are records of sequences sal,     *)
(* ptmp, pres, one entry per level, NaN where a value is missing.          *)
(***************************************************************************)
EXTENDS Num

Whole(p, i) == IsFin(p.sal[i]) /\ IsFin(p.ptmp[i]) /\ IsFin(p.pres[i])
(* the cast without its incomplete levels *)
ValidLevels(cast) == LET ix == Where(Len(cast.ptmp), LAMBDA i : Whole(cast, i))
                     IN [sal |-> Pick(cast.sal, ix), ptmp |-> Pick(cast.ptmp, ix), pres |-> Pick(cast.pres, ix)]
Between(x, a, b) == (a \preceq x /\ x \preceq b) \/ (b \preceq x /\ x \preceq a)
(* the pairs of consecutive valid levels around temperature t; v has valid levels only *)
Brackets(v, t) == {i \in 1..Len(v.ptmp) - 1 : ~NEq(v.ptmp[i], v.ptmp[i + 1]) /\ Between(t, v.ptmp[i], v.ptmp[i + 1])}
Line(x, x1, x2, y1, y2) == y1 ++ (((x -- x1) // (x2 -- x1)) ** (y2 -- y1))
PresAt(v, i, t) == Line(t, v.ptmp[i], v.ptmp[i + 1], v.pres[i], v.pres[i + 1])
SalAt(v, i, t) == Line(t, v.ptmp[i], v.ptmp[i + 1], v.sal[i], v.sal[i + 1])
(* <<pressure, salinity>> pairs that may be returned for the float level: more than one only *)
(* when two brackets are equally near in pressure                                            *)
Interpolated(v, t, p) ==
    LET B == Brackets(v, t)
        pr == TLCEval([i \in B |-> PresAt(v, i, t)])
        dist == TLCEval([i \in B |-> NAbs(pr[i] -- p)])
        best == {i \in B : \A j \in B : dist[i] \preceq (dist[j] ++ Dec("1e-7"))}
    IN {<<pr[i], SalAt(v, i, t)>> : i \in best}
=============================================================================

----------------------------- MODULE Selection -----------------------------
(***************************************************************************)
(* The choice of the historical casts of one profile (find_besthist).      *)
(* A query q holds the casts (lat, long, date, z), the profile and the     *)
(* scales; positions in the list of casts are counted from 1.              *)
(***************************************************************************)
EXTENDS Geo

PVOf(q, lat, z) == IF q.pv = 1 THEN PV(lat, z) ELSE 0
(* everything derived from the query once *)
Derived(q) ==
    LET n == Len(q.lat)
        pf == PVOf(q, q.plat, q.pz)
        ph == TLCEval([i \in 1..n |-> PVOf(q, q.lat[i], q.z[i])])
    IN [n |-> n,
        ell |-> TLCEval([i \in 1..n |-> EllipseSq(q.long[i] -- q.plong, q.long_large, q.lat[i] -- q.plat, q.lat_large,
                                                  ph[i], pf, q.phi_large)]),
        large |-> TLCEval([i \in 1..n |-> Correlation(q.long[i] -- q.plong, q.long_large, q.lat[i] -- q.plat, q.lat_large,
                                                      q.date[i] -- q.pdate, q.age_large, ph[i], pf, q.phi_large)]),
        small |-> TLCEval([i \in 1..n |-> Correlation(q.long[i] -- q.plong, q.long_small, q.lat[i] -- q.plat, q.lat_small,
                                                      q.date[i] -- q.pdate, q.age_small, ph[i], pf, q.phi_small)])]
Inside(d) == {i \in 1..d.n : d.ell[i] \prec 1}
NearEdge(d) == \E i \in 1..d.n : NAbs(d.ell[i] -- 1) \prec Dec("1e-9") /\ ~NEq(d.ell[i], 1)
Third(m) == (m + 2) \div 3
Least(S, v) == CHOOSE i \in S : \A j \in S : v[i] \preceq v[j]
Slack(x) == x ++ (Dec("1e-9") ** NAbs(x))

(* Is sel what the rule yields for some draw of k distinct casts?           *)
(* P: selected casts that are closer by the large scales than every cast    *)
(* left over; the large-scale part can only consist of those.               *)
(* B: selected casts that are farther by the small scales than some cast    *)
(* left over; they must have been drawn or belong to the large-scale part.  *)
(* r of the drawn casts lie in P, t of these behind the large-scale part.   *)
Explained(d, E, sel, m) ==
    LET U == E \ sel
        c == Third(m)
        two == IF 2 * c < m THEN 2 * c ELSE m
        lu == d.large[Least(U, d.large)]
        su == d.small[Least(U, d.small)]
        P == {i \in sel : d.large[i] \preceq Slack(lu)}
        B == {i \in sel : d.small[i] \succ Slack(su)}
        ps == LET s == Ascending(P) IN Pick(s, ArgSort(Pick(d.large, s)))
        pos == TLCEval({i \in 1..Len(ps) : ps[i] \in B})
        out == Cardinality(B \ P)
        free == Cardinality(sel \ (P \union B))
        low == IF Cardinality(E) >= 4 * c THEN (c + 1) \div 2 ELSE 1
    IN \E k \in low..c : \E r \in 0..(k - out) : \E t \in 0..r :
          /\ Len(ps) - r >= two - k
          /\ k - out - r <= free
          /\ Cardinality({b \in pos : b > (two - k) + r - t}) <= t
(* drawn casts: neither among the closest by the large nor by the small scales *)
SurelyDrawn(d, E, sel) ==
    LET U == E \ sel
        lu == d.large[Least(U, d.large)]
        su == d.small[Least(U, d.small)]
    IN {i \in sel : d.large[i] \succ Slack(lu) /\ d.small[i] \succ Slack(su)}
=============================================================================

------------------------------- MODULE T_C03 -------------------------------
(* C03: recorded mapping runs of new floats. *)
EXTENDS Mapping
VARIABLES case, done

SideOf(saf, q, p) == IF q.scales.saf = 1 /\ p.lat \prec -30 THEN SidesOfFloat(saf, [pres |-> p.pres, tmp |-> p.tmp, sal |-> p.sal]) ELSE {0}
SideOfCast(saf, q, p, c, tmp) == IF q.scales.saf = 1 /\ p.lat \prec -30 THEN SidesOfCast([pres |-> c.pres, sal |-> c.sal, ptmp |-> c.ptmp, tmp |-> tmp]) ELSE {0}
(* everything about profile number i of the source; out: its column in the file *)
Profile(q, o, i) ==
    LET p == q.profiles[i]
        f == o.columns[i]
        nl == Len(p.pres)
        cand == IF Placed(p) THEN Candidates(q, p) ELSE <<>>
        s == Selected(q, p, cand, Range(o.drawn[i]))
        levels(c) == LET k ==                                               \* in-situ temperatures of the levels kept
                             CHOOSE j \in 1..Len(o.tmp) : o.tmp[j].id = c.id
                         r == o.tmp[k]
                         ix == Where(Len(r.pres), LAMBDA l : \E m \in 1..Len(c.pres) : NEq(c.pres[m], r.pres[l]) /\ NEq(c.ptmp[m], r.ptmp[l]) /\ NEq(c.sal[m], r.sal[l]))
                     IN Pick(r.tmp, ix)
        saf == q.scales.saf = 1 /\ p.lat \prec -30 /\ cand # <<>>
        fs == IF saf THEN SideOf(o.saf, q, p) ELSE {0}
        cs == IF saf THEN TLCEval([j \in 1..Len(s.casts) |-> SideOfCast(o.saf, q, p, s.casts[j], levels(s.casts[j]))]) ELSE <<>>
        vague == Cardinality(fs) > 1 \/ \E j \in 1..Len(cs) : Cardinality(cs[j]) > 1
        side == CHOOSE d \in fs : TRUE
        casts == IF cand = <<>> THEN <<>>
                 ELSE IF ~saf THEN s.casts
                 ELSE OnSide(s.casts, side, Map(cs, LAMBDA d : CHOOSE x \in d : TRUE))
        lev == TLCEval([l \in 1..nl |-> MapLevel(q, p, casts, l, f.noise[l])])
        skip == Placed(p) /\ (~Definite(p) \/ (cand # <<>> /\ s.edge) \/ vague)
        outside(x) == x \prec 30 \/ x \succ 40
        at(l) == LET m == lev[l]
                 IN IF m.hazy THEN TRUE
                    ELSE IF ~m.mapped THEN IsNaN(f.sal[l]) /\ IsNaN(f.err[l]) /\ IsNaN(f.noise[l]) /\ IsNaN(f.signal[l]) /\ IsNaN(f.ptmp[l])
                    ELSE /\ NEq(f.ptmp[l], p.ptmp[l])
                         /\ Close(f.signal[l], m.signal, Dec("1e-9"), 0)
                         /\ (m.noise[1] ** Dec("0.999999999")) \preceq f.noise[l] /\ f.noise[l] \preceq (m.noise[2] ** Dec("1.000000001"))
                         /\ IF outside(m.value) THEN IsNaN(f.sal[l])
                            ELSE Close(f.sal[l], m.value, Dec("1e-13"), Dec("1e-7") ** m.far)
                         /\ f.err[l] \succeq 0 /\ Close(Sq(f.err[l]), m.errsq, Dec("1e-6"), Dec("1e-6") ** m.signal)
        sure == \A l \in 1..nl : ~lev[l].hazy
        any == \E l \in 1..nl : lev[l].mapped
        want == q.recorded
        set == IF any THEN \A k \in 1..Len(want) : NEq(f.settings[k], want[k])
               ELSE \A k \in 1..Len(want) : IsNaN(f.settings[k])
        used == UNION {IF lev[l].mapped THEN {casts[j].id : j \in Range(lev[l].from)} ELSE {} : l \in 1..nl}
    IN TLCEval([skip |-> skip, sure |-> sure /\ ~skip, any |-> any, used |-> IF skip THEN {} ELSE used, p |-> p,
        fail |-> IF skip THEN {}
                 ELSE Failing(<<
                    <<"exactly the levels with enough casts have results", \A l \in 1..nl : lev[l].hazy \/ lev[l].mapped = ~IsNaN(f.signal[l])>>,
                    <<"results of the two-stage mapping", \A l \in 1..nl : at(l)>>,
                    <<"settings recorded for mapped profiles", ~sure \/ set>> >>),
        hit |-> IF skip THEN {"hangs on rounding"}
                ELSE {IF ~Placed(p) THEN "no position or pressure" ELSE IF cand = <<>> THEN "no casts around" ELSE IF Len(casts) = 0 THEN "no cast close enough" ELSE "casts"}
                     \union (IF cand # <<>> /\ s.inside > q.scales.max THEN {"more casts than allowed"} ELSE {})
                     \union (IF saf THEN {IF side = 0 THEN "front: unclassed" ELSE IF Len(casts) < Len(s.casts) THEN "front: side" ELSE "front: too few on the side"} ELSE {})
                     \union (IF \E l \in 1..nl : lev[l].mapped /\ outside(lev[l].value) THEN {"salinity out of range"} ELSE {})
                     \union (IF \E l \in 1..nl : lev[l].mapped /\ lev[l].dropped > 0 THEN {"outlier"} ELSE {})
                     \union (IF \E l \in 1..nl : Wanted(q, p, l) /\ ~lev[l].mapped /\ Len(casts) > 5 THEN {"level with too few casts"} ELSE {})
                     \union (IF \E l \in 1..nl : ~Wanted(q, p, l) THEN {"level not wanted"} ELSE {})
                     \union (IF any /\ q.scales.pv = 1 THEN {"with vorticity"} ELSE {})
                     \union (IF any /\ \E j \in 1..Len(casts) : NAbs(casts[j].long -- p.long) \prec 30 /\ (casts[j].long \prec 0 \/ casts[j].long \succ 360) THEN {"across Greenwich"} ELSE {})])

Judge(c) ==
    LET q == c.in  o == c.out
        crash == "error" \in DOMAIN o
        np == Len(q.profiles)
        nothing == \E i \in 1..np : Placed(q.profiles[i]) /\ Candidates(q, q.profiles[i]) = <<>>
        one == TLCEval([i \in 1..np |-> Profile(q, o, i)])
        h == o.selected
        place(id) == o.places[CHOOSE j \in 1..Len(o.places) : o.places[j].id = id]
        (* turns of 360 degrees do not matter *)
        turn(x) == NAbs(x -- (360 ** NRound(x // 360)))
        at(r, id) == turn(r[1] -- place(id).long) \prec Dec("1e-7") /\ NAbs(r[2] -- place(id).lat) \prec Dec("1e-7")
        close(r, id) == turn(r[1] -- place(id).long) \preceq (1 // 60) /\ NAbs(r[2] -- place(id).lat) \preceq (1 // 60)
        sure == \A i \in 1..np : one[i].sure
    IN IF crash THEN [fail |-> {"error"}, hit |-> {}]
       ELSE IF "nodata" \in DOMAIN o THEN [fail |-> IF nothing THEN {} ELSE {"stopped though there are casts around"}, hit |-> {"no casts around"}]
       ELSE [fail |-> UNION {one[i].fail : i \in 1..np} \union
                      (IF ~sure THEN {} ELSE Failing(<<
                        <<"listed casts were used for their profile",
                            \A r \in 1..Len(h) : \E i \in 1..np : NEq(h[r][3], one[i].p.no) /\ \E id \in one[i].used : at(h[r], id)>>,
                        <<"no place listed twice", \A r \in 1..Len(h) : \A v \in 1..r - 1 : NAbs(h[r][1] -- h[v][1]) \succeq (1 // 60) \/ NAbs(h[r][2] -- h[v][2]) \succeq (1 // 60)>>,
                        <<"every used cast is near a listed one",
                            \A i \in 1..np : \A id \in one[i].used : \E r \in 1..Len(h) : close(h[r], id)>>,
                        <<"casts listed in the order of the profiles", \A r \in 1..Len(h) - 1 : h[r][3] \preceq h[r + 1][3]>> >>)),
             hit |-> UNION {one[i].hit : i \in 1..np} \union (IF Len(h) > 0 THEN {"casts listed"} ELSE {})]
INSTANCE CaseSpec
=============================================================================

------------------------------- MODULE T_C21 -------------------------------
(* C21: recorded runs of plot_diagnostics. *)
EXTENDS Figures
VARIABLES case, done

Has(cs, c) == \E i \in 1..Len(cs) : SameCurve(cs[i], c)
HasBar(bs, b) == \E i \in 1..Len(bs) : SameBar(bs[i], b)
RefLine(c) == Len(c.x) = 2 /\ Len(c.y) = 2 /\ (NEq(c.y[1], c.y[2]) \/ (IsNaN(c.y[1]) /\ IsNaN(c.y[2])))
(* every curve of the figure is one of these, a horizontal reference line or empty *)
OnlyCurves(g, want) == \A p \in 1..Len(g.panels) : \A i \in 1..Len(g.panels[p].curves) :
                          LET c == g.panels[p].curves[i] IN RefLine(c) \/ NoKnown(c.y) \/ \E w \in want : SameCurve(c, w)
Covers(lim, s) == LET k == SelectSeq(s, LAMBDA x : IsFin(x)) IN
                  Len(k) = 0 \/ (NMin(lim[1], lim[2]) \preceq MinSeq(k) /\ NMax(lim[1], lim[2]) \succeq MaxSeq(k))
Levels(g, p) == {g.panels[p].curves[i].y[1] : i \in {j \in 1..Len(g.panels[p].curves) : RefLine(g.panels[p].curves[j]) /\ IsFin(g.panels[p].curves[j].y[1])}}

TrajectoryOk(f, g) ==
    LET t == Track(f)  m == CastMarks(f)  n == Named(f)
    IN /\ \E p \in 1..Len(g.panels) :
            LET a == g.panels[p]
            IN /\ Has(a.curves, t)
               /\ Has(a.marks, m)
               /\ Len(a.notes) = Cardinality(n)
               /\ \A i \in n : \E j \in 1..Len(a.notes) : /\ NEq(a.notes[j].number, f.no[i])
                                                           /\ CloseSeq(<<a.notes[j].x, a.notes[j].y>>, <<t.x[i], t.y[i]>>, Dec("1e-9"), Dec("1e-9"))
               /\ Covers(a.xlim, m.x) /\ Covers(a.ylim, m.y)
       /\ OnlyCurves(g, {t})
       /\ \A p \in 1..Len(g.panels) : \A i \in 1..Len(g.panels[p].marks) : SameCurve(g.panels[p].marks[i], m)
ThetaSalOk(f, v, sal, g) ==
    LET want == {Curve(sal[p], f.ptmp[p]) : p \in 1..Len(f.no)}
        bars == MappedBars(f, v)
    IN /\ \E a \in 1..Len(g.panels) :
            LET cs == g.panels[a].curves
            IN /\ \A p \in 1..Len(f.no) : \E i \in 1..Len(cs) :
                      SameCurve(cs[i], Curve(sal[p], f.ptmp[p])) /\ (IsNaN(cs[i].number) \/ NEq(cs[i].number, f.no[p]))
               /\ \A b \in bars : HasBar(g.panels[a].bars, b)
               /\ \A i \in 1..Len(g.panels[a].bars) : \E b \in bars : SameBar(g.panels[a].bars[i], b)
       /\ OnlyCurves(g, want)
       /\ \A p \in 1..Len(g.panels) : \A i \in 1..Len(g.panels[p].curves) : LET c == g.panels[p].curves[i] IN NoKnown(c.x) \/ NoKnown(c.y) \/ \E w \in want : SameCurve(c, w)
CurvePanel(no, val, err, sta, staIx, a) ==
    LET ok == BarsY(no, val, err)
        bars == {BarY(no[i], val[i], err[i]) : i \in ok} \union {BarY(no[i], val[i], 2 ** err[i]) : i \in ok}
    IN /\ Has(a.curves, Curve(no, val))
       /\ Len(staIx) > 0 => Has(a.curves \o a.marks, Curve(Pick(no, staIx), Pick(sta, staIx)))
       /\ \A b \in bars : HasBar(a.bars, b)
       /\ \A i \in 1..Len(a.bars) : \E b \in bars : SameBar(a.bars[i], b)
       /\ Covers(a.xlim, no)
       /\ \A i \in 1..Len(a.curves) : LET c == a.curves[i] IN
             RefLine(c) \/ NoKnown(c.y) \/ SameCurve(c, Curve(no, val)) \/ SameCurve(c, Curve(Pick(no, staIx), Pick(sta, staIx)))
       \* what the legend calls by a name is that
       /\ \A i \in 1..Len(a.curves) : LET c == a.curves[i] IN
             /\ c.says = "single" => SameCurve(c, Curve(Pick(no, staIx), Pick(sta, staIx)))
             /\ c.says = "calibrated" => SameCurve(c, Curve(no, val))
       /\ \A i \in 1..Len(a.named) : LET w == a.named[i]  k == IF w.says = "twice" THEN 2 ELSE 1 IN
             w.says \in {"once", "twice"} => \A j \in ok : HasBar(w.bars, BarY(no[j], val[j], k ** err[j]))
CurveOk(f, g) ==
    LET off == Offsets(f.cal_SAL, f.sal)  offErr == Means(f.cal_SAL_err)
        sta == Offsets(f.sta_SAL, f.sal)
        known(s) == Where(Len(s), LAMBDA i : IsFin(s[i]))
        A(a) == CurvePanel(f.no, f.pcond_factor, f.pcond_factor_err, f.sta_mean, known(f.sta_mean), a)
        B(a) == CurvePanel(f.no, off, offErr, sta, known(sta), a)
    IN /\ \E p \in 1..Len(g.panels) : A(g.panels[p])
       /\ \E p \in 1..Len(g.panels) : B(g.panels[p])
       /\ \A p \in 1..Len(g.panels) : A(g.panels[p]) \/ B(g.panels[p])
VarianceOk(f, v, l, q, g) ==
    LET u == Masked(q)  t == v.t[l]  np == Len(f.no)
        cal == Usable(q, f.cal_SAL)  calE == Usable(q, f.cal_SAL_err)
        map == Usable(q, f.msal)  mapE == Usable(q, f.merr)
        sure == {p \in 1..np : ~OnEdge(u, p, t)}
        vals(w) == TLCEval([p \in 1..np |-> IF p \in sure THEN OnTheta(u, w, p, t) ELSE {}])
        errs(w, e) == TLCEval([p \in 1..np |-> IF p \in sure THEN ErrorOnTheta(u, w, e, p, t) ELSE {}])
        sS == vals(u.sal)  sM == vals(map)  sC == vals(cal)  eM == errs(map, mapE)  eC == errs(cal, calE)
        isCurve(c, s) == SameSeq(c.x, f.no) /\ Len(c.y) = np /\ \A p \in sure : \E x \in s[p] : Close(c.y[p], x, Dec("1e-9"), Dec("1e-9"))
        one(s) == Cardinality(s) = 1
        the(s) == CHOOSE x \in s : TRUE
        plain(s, e) == {p \in sure : one(s[p]) /\ one(e[p]) /\ AllKnown(<<the(s[p]), the(e[p])>>)}
        unsure(s, e) == {p \in 1..np : p \notin sure \/ ~one(s[p]) \/ ~one(e[p])}
        bar(p) == BarY(f.no[p], the(sM[p]), the(eM[p]))
        edge(p, up) == <<f.no[p], IF up THEN the(sC[p]) ++ the(eC[p]) ELSE the(sC[p]) -- the(eC[p])>>
        near(x, y) == CloseSeq(x, y, Dec("1e-9"), Dec("1e-9"))
        A(a) == /\ \E i \in 1..Len(a.curves) : isCurve(a.curves[i], sS)
                /\ \E i \in 1..Len(a.curves) : isCurve(a.curves[i], sM)
                /\ \E i \in 1..Len(a.curves) : isCurve(a.curves[i], sC)
                /\ \A i \in 1..Len(a.curves) : isCurve(a.curves[i], sS) \/ isCurve(a.curves[i], sM) \/ isCurve(a.curves[i], sC)
                /\ \A i \in 1..Len(a.curves) : LET c == a.curves[i] IN
                      /\ c.says = "uncalibrated" => isCurve(c, sS)
                      /\ c.says = "mapped" => isCurve(c, sM)
                      /\ c.says = "calibrated" => isCurve(c, sC)
                /\ \A p \in plain(sM, eM) : HasBar(a.bars, bar(p))
                /\ \A i \in 1..Len(a.bars) : \/ \E p \in plain(sM, eM) : SameBar(a.bars[i], bar(p))
                                             \/ \E p \in unsure(sM, eM) : NEq(a.bars[i][1], f.no[p])
                /\ \A p \in plain(sC, eC) : \A up \in BOOLEAN : \E i \in 1..Len(a.band) : near(a.band[i], edge(p, up))
                /\ \A i \in 1..Len(a.band) : \/ \E p \in plain(sC, eC) : \E up \in BOOLEAN : near(a.band[i], edge(p, up))
                                             \/ \E p \in unsure(sC, eC) : NEq(a.band[i][1], f.no[p])
    IN /\ \E p \in 1..Len(g.panels) : A(g.panels[p])
       /\ \A p \in 1..Len(g.panels) : A(g.panels[p])
       /\ \E i \in 1..Len(g.numbers) : NAbs(g.numbers[i] -- t) \preceq Dec("1e-4")
ProfileOk(f, v, g) ==
    LET minus(s) == Map(s, LAMBDA x : 0 -- x)
        P == 1..Len(f.no)
        st == {Curve(f.sal[p], f.ptmp[p]) : p \in P}
        tp == {Curve(f.ptmp[p], minus(f.pres[p])) : p \in P}
        sp == {Curve(f.sal[p], minus(f.pres[p])) : p \in P}
        vt == {Curve(v.var, v.theta)}
        T == {v.t[j] : j \in {k \in 1..10 : IsFin(v.t[k])}}
        Pr == {0 -- v.p[j] : j \in {k \in 1..10 : IsFin(v.p[k])}}
        same(a, b) == (\A x \in a : \E y \in b : Close(x, y, Dec("1e-9"), 0)) /\ (\A x \in b : \E y \in a : Close(x, y, Dec("1e-9"), 0))
        A(p, want, lines) == /\ \A w \in want : Has(g.panels[p].curves \o g.panels[p].marks, w)
                             /\ \A i \in 1..Len(g.panels[p].curves) : LET c == g.panels[p].curves[i] IN RefLine(c) \/ \E w \in want : SameCurve(c, w)
                             /\ \A y \in lines : \E x \in Levels(g, p) : Close(x, y, Dec("1e-9"), 0)
        ok(p) == A(p, st, T) \/ A(p, vt, T) \/ A(p, tp, Pr) \/ A(p, sp, Pr)
    IN /\ \A p \in 1..Len(g.panels) : ok(p)
       /\ \E p \in 1..Len(g.panels) : A(p, st, T)
       /\ \E p \in 1..Len(g.panels) : A(p, vt, T)
       /\ \E p \in 1..Len(g.panels) : A(p, tp, Pr)
       /\ \E p \in 1..Len(g.panels) : A(p, sp, Pr)
(* fields: the different contoured data of the run; fine: those that hold the anomalies of sal *)
FieldOk(f, sal, z) ==
    /\ SameSeq(z.x, f.no)
    /\ Len(z.y) \in 299..302 /\ Len(z.z) = Len(z.y)
    /\ \A k \in 1..Len(z.y) : Close(z.y[k], k // 10, Dec("1e-9"), 0)
    /\ (\E p \in 1..Len(f.no) : Doubled(f.ptmp[p])) \/ AnomalyOk(f, sal, z.y, z.z)
AnomalyFigureOk(fine, b, g) ==
    \E p \in 1..Len(g.panels) : LET a == g.panels[p] IN
        /\ Len(a.fields) > 0
        /\ \A i \in 1..Len(a.fields) : a.fields[i] \in fine
        /\ NEq(NMin(a.ylim[1], a.ylim[2]), b[1]) /\ NEq(NMax(a.ylim[1], a.ylim[2]), b[2])

JudgeRun(op, o) ==
    LET f == IF "float" \in DOMAIN o THEN o.float ELSE op.float
        v == o.chosen
        q == [sal |-> f.sal, ptmp |-> f.ptmp, pres |-> f.pres, map |-> f.mptmp, theta_lt |-> f.bounds.theta_lt, theta_gt |-> f.bounds.theta_gt,
              pres_lt |-> f.bounds.pres_lt, pres_gt |-> f.bounds.pres_gt]
        found == Cardinality({j \in 1..10 : IsFin(v.t[j])})
        calibrated == \E p \in 1..Len(f.no) : ~NoKnown(f.cal_SAL[p])
        levels == op.nlevels
        usual == found >= levels /\ calibrated
        file(kind) == f.name \o "_" \o kind \o "." \o op.format
        vfile(l) == file("salinity_variance_" \o ToString(l))
        afile(how, b) == file(how \o "_salinity_anomaly_" \o op.bound_text[b])
        nb == Len(op.theta_bounds)
        must == {file("trajectory"), file("uncalibrated_theta_sal"), file("calibrated_theta_sal"), file("salinity_curve"), file("salinity_profile")}
                \union {vfile(l) : l \in 1..levels} \union {afile(how, b) : how \in {"uncalibrated", "calibrated"}, b \in 1..nb}
        at(n) == {i \in 1..Len(o.figs) : o.figs[i].file = n}
        g(n) == o.figs[CHOOSE i \in at(n) : TRUE]
        fine(sal) == {i \in 1..Len(o.fields) : FieldOk(f, sal, o.fields[i])}
    IN [fail |->
          IF ~usual THEN Failing(<< <<"only files of the plots directory change", o.others>> >>)
          ELSE IF "error" \in DOMAIN o THEN {"error"}
          ELSE IF \E n \in must : Cardinality(at(n)) # 1 \/ {o.figs[i].file : i \in 1..Len(o.figs)} # must THEN {"one figure of each kind"}
          ELSE Failing(<<
            <<"only files of the plots directory change", o.others>>,
            <<"the figures are written", Range(o.new) \subseteq must /\ must \subseteq Range(o.there) /\ Len(o.empty) = 0>>,
            <<"trajectory", TrajectoryOk(f, g(file("trajectory")))>>,
            <<"uncalibrated theta-salinity", ThetaSalOk(f, v, f.sal, g(file("uncalibrated_theta_sal")))>>,
            <<"calibrated theta-salinity", ThetaSalOk(f, v, f.cal_SAL, g(file("calibrated_theta_sal")))>>,
            <<"calibration curve", CurveOk(f, g(file("salinity_curve")))>>,
            <<"salinity on theta levels", \A l \in 1..levels : VarianceOk(f, v, l, q, g(vfile(l)))>>,
            <<"chosen levels", ProfileOk(f, v, g(file("salinity_profile")))>>,
            <<"uncalibrated anomaly", LET ok == fine(f.sal) IN \A b \in 1..nb : AnomalyFigureOk(ok, op.theta_bounds[b], g(afile("uncalibrated", b)))>>,
            <<"calibrated anomaly", LET ok == fine(f.cal_SAL) IN \A b \in 1..nb : AnomalyFigureOk(ok, op.theta_bounds[b], g(afile("calibrated", b)))>> >>),
        hit |-> IF ~usual THEN {"fewer levels than figures"}
                ELSE {"all figures"} \union (IF "float" \in DOMAIN o THEN {"analysed by the program"} ELSE {})
                     \union (IF \E i \in 1..Len(f.long) : f.long[i] \succ 180 THEN {"east of 180"} ELSE {})
                     \union (IF \E p \in 1..Len(g(vfile(1)).panels) : Cardinality({g(vfile(1)).panels[p].curves[i].says : i \in 1..Len(g(vfile(1)).panels[p].curves)}) >= 3
                              THEN {"named in the legend"} ELSE {})
                     \union (IF f.stored THEN {"whole numbers"} ELSE {})
                     \union (IF \E p \in 1..Len(f.no) : NoKnown(f.cal_SAL[p]) THEN {"profile without calibration"} ELSE {})
                     \union (IF Len(f.bounds.theta_lt) + Len(f.bounds.theta_gt) > 0 THEN {"theta range"} ELSE {})
                     \union (IF Len(f.bounds.pres_lt) + Len(f.bounds.pres_gt) > 0 THEN {"pressure range"} ELSE {})
                     \union (IF ~\E p \in 1..Len(f.no) : Doubled(f.ptmp[p]) THEN {"anomalies recomputed"} ELSE {})]
Judge(c) ==
    LET plots == SelectSeq(c.in.ops, LAMBDA op : op.op = "plot")
        o == c.out
    IN IF "error" \in DOMAIN o THEN [fail |-> {"error"}, hit |-> {}]
       ELSE LET j == TLCEval([i \in 1..Len(plots) |-> IF "unanalysed" \in DOMAIN o.runs[i] THEN [fail |-> {}, hit |-> {"not analysed"}] ELSE JudgeRun(plots[i], o.runs[i])])
            IN [fail |-> UNION {j[i].fail : i \in 1..Len(plots)},
                hit |-> UNION {j[i].hit : i \in 1..Len(plots)}
                        \union (IF Len(plots) > 1 THEN {"several runs in one process"} ELSE {})
                        \union (IF \E i \in 1..Len(c.in.ops) : c.in.ops[i].op = "own" THEN {"figure of the user"} ELSE {})]
INSTANCE CaseSpec
=============================================================================

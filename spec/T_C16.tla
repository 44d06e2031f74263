------------------------------- MODULE T_C16 -------------------------------
(* C16: recorded calibrations of whole floats.  The parts of a calibration  *)
(* that have their own specification (theta levels, covariance, fit) and    *)
(* the seawater toolbox are taken as recorded; how they are put together is *)
(* decided here.                                                            *)
EXTENDS Bathy
VARIABLES case, done

SeriesNo(q, p) == LET m == Where(Len(q.calseries), LAMBDA i : q.calseries[i].no = q.profiles[p].no)
                  IN IF Len(m) = 0 THEN 0 ELSE q.calseries[m[1]].s
Ids(q) == Ascending({SeriesNo(q, p) : p \in 1..Len(q.profiles)} \ {0})
(* positions of the profiles of a series in the order of their numbers *)
Members(q, s) ==
    LET m == Where(Len(q.profiles), LAMBDA p : SeriesNo(q, p) = s)
    IN Pick(m, ArgSort(Map(m, LAMBDA p : q.profiles[p].no)))
Given(row) == SelectSeq(row, LAMBDA b : IsFin(b))
MaxOf(q, i, n) == IF Len(q.max) = 1 \/ n = 1 THEN q.max[1] ELSE q.max[i]
Valid(q, n) ==
    /\ n <= 1 \/ Len(q.max) \in {1, n}
    /\ Len(q.breaks) = 0 \/ (Len(q.breaks) = n /\ \A i \in 1..n : Len(Given(q.breaks[i])) \preceq MaxOf(q, i, n))

RECURSIVE Glue(_)
Glue(s) == IF Len(s) = 0 THEN <<>> ELSE Head(s) \o Glue(Tail(s))
Judge(c) ==
    LET q == c.in  o == c.out
        np == Len(q.profiles)
        crash == "error" \in DOMAIN o
        f == o.file
        ids == Ids(q)  n == Len(ids)
        valid == Valid(q, n)
        nl == Len(q.profiles[1].sal)
        per == <<f.pcond_factor, f.pcond_factor_err, f.time_deriv, f.time_deriv_err, f.sta_mean, f.sta_rms>>
        levels == <<f.cal_SAL, f.cal_SAL_err, f.cal_COND, f.cal_COND_err, f.sta_SAL, f.sta_SAL_err>>
        shaped == ~crash /\ (\A i \in 1..6 : Len(per[i]) = np) /\ (\A i \in 1..6 : Len(levels[i]) = np /\ \A p \in 1..np : Len(levels[i][p]) = nl)
        blank(p) == (\A i \in 1..6 : IsNaN(per[i][p])) /\ (\A i \in 1..6, l \in 1..nl : IsNaN(levels[i][p][l]))
        (* -- what the recorded parts were computed from ----------------------- *)
        partOk(i) ==
            LET r == o.parts[i]
                m == Members(q, ids[i])
            IN /\ Len(r.members) = Len(m) /\ \A j \in 1..Len(m) : NEq(r.members[j], m[j] - 1)
               /\ \A j \in 1..Len(m) :
                    LET p == m[j]
                        ix == Map(SelectSeq(Map(r.index, LAMBDA w : w[j]), LAMBDA v : ~IsNaN(v)), LAMBDA v : NFloor(v) + 1)
                    IN /\ \A t \in 1..10 : IF t > Len(ix) THEN IsNaN(r.y[t][j])
                                           ELSE Close(r.y[t][j], o.mapped[p][ix[t]] // o.cond[p][ix[t]], Dec("1e-12"), 0)
                                                /\ Close(r.e[t][j], (100 ** NAbs(o.mapped[p][ix[t]] -- o.mapped1[p][ix[t]])) // o.cond[p][ix[t]], Dec("1e-9"), 0)
                       /\ IF \A k \in 1..Len(q.mapped) : Len(q.mapped[k].sal) = 0 THEN TRUE
                          ELSE Close(r.coords[j][1], q.profiles[p].long, 0, 0) /\ Close(r.coords[j][2], q.profiles[p].lat, 0, 0)
                               /\ Close(r.coords[j][3], DepthAt(q.profiles[p].long, q.profiles[p].lat), 0, Dec("1e-6"))
        machinery == valid => (Len(o.parts) = n /\ \A i \in 1..n : partOk(i))
        (* -- the result ---------------------------------------------------------- *)
        same(x, y) == Close(x, y, Dec("1e-9"), Dec("1e-12"))
        (* Monte Carlo estimates: the same seed usually gives the same value *)
        likely(x, y) == Close(x, y, Dec("0.6"), Dec("1e-9"))
        fitOk(i) == LET r == o.parts[i]  m == Members(q, ids[i])
                    IN \A j \in 1..Len(m) :
                        /\ same(f.pcond_factor[m[j]], r.fit[j]) /\ likely(f.pcond_factor_err[m[j]], r.fiterr[j])
                        /\ same(f.time_deriv[m[j]], r.slope[j]) /\ same(f.time_deriv_err[m[j]], r.slopeerr[j])
                        /\ same(f.sta_mean[m[j]], r.mean[j]) /\ same(f.sta_rms[m[j]], r.rms[j])
        salt == Dec("1e-9")
        calOk(p) == \A l \in 1..nl :
            /\ same(f.cal_COND[p][l], f.pcond_factor[p] ** o.cond[p][l])
            /\ same(f.cal_COND_err[p][l], f.pcond_factor_err[p] ** o.cond[p][l])
            /\ Close(f.cal_SAL[p][l], o.salt[p][l], 0, salt)
            /\ Close(f.cal_SAL_err[p][l], NAbs(o.salt[p][l] -- o.salt1[p][l]), 0, salt)
            /\ Close(f.sta_SAL[p][l], o.sta[p][l], 0, salt)
            /\ Close(f.sta_SAL_err[p][l], NAbs(o.sta[p][l] -- o.sta1[p][l]), 0, salt)
        member == TLCEval({p \in 1..np : SeriesNo(q, p) # 0})
        tight(s) == SelectSeq(s, LAMBDA v : ~IsNaN(v))
        coefOk == LET want == Glue([i \in 1..n |-> o.parts[i].coef])
                  IN CloseSeq(f.fcoef, want, Dec("1e-9"), Dec("1e-12"))
        breaksOk == LET want == Glue([i \in 1..n |-> o.parts[i].breaks])
                    IN CloseSeq(f.fbreaks, want, Dec("1e-9"), Dec("1e-12"))
    IN [fail |-> IF crash THEN {"error"}
                 ELSE IF ~shaped THEN {"shape"}
                 ELSE IF ~machinery THEN {"recorded parts belong to the series"}
                 ELSE Failing(<<
                    <<"profile numbers of the source", Len(f.PROFILE_NO) = np /\ \A p \in 1..np : NEq(f.PROFILE_NO[p], q.profiles[p].no)>>,
                    <<"inconsistent settings give missing values", valid \/ \A p \in 1..np : blank(p)>>,
                    <<"excluded profiles stay missing", \A p \in 1..np : p \in member \/ blank(p)>>,
                    <<"each profile has the fit of its series", valid => \A i \in 1..n : fitOk(i)>>,
                    <<"calibrated values follow from the fit", valid => \A p \in member : calOk(p)>>,
                    <<"coefficients and breaks of the series in order", valid => (coefOk /\ breaksOk)>>,
                    <<"inputs unchanged", o.unchanged>> >>),
        hit |-> IF ~shaped \/ ~machinery THEN {} ELSE
                (IF ~valid THEN {IF Len(q.breaks) > 0 /\ (n <= 1 \/ Len(q.max) \in {1, n}) THEN "inconsistent breaks" ELSE "inconsistent numbers of breaks"} ELSE {})
                \union (IF n = 0 THEN {"no series"} ELSE IF n = 1 THEN {"one series"} ELSE {"several series"})
                \union (IF n > 0 /\ ids[1] # 1 THEN {"series do not start with one"} ELSE {})
                \union (IF Cardinality(member) < np THEN {"excluded profile"} ELSE {})
                \union (IF \E p \in 1..np : ~\E i \in 1..Len(q.calseries) : q.calseries[i].no = q.profiles[p].no THEN {"profile without series number"} ELSE {})
                \union (IF \E p \in 1..np : ~\E i \in 1..Len(q.mapped) : q.mapped[i].no = q.profiles[p].no THEN {"profile not mapped"} ELSE {})
                \union (IF \E p \in 1..np - 1 : q.profiles[p].no > q.profiles[p + 1].no THEN {"source out of order"} ELSE {})
                \union (IF valid /\ \E p \in member : IsNaN(f.pcond_factor[p]) THEN {"series without fit"} ELSE {})
                \union (IF valid /\ \E i \in 1..n : Len(o.parts[i].breaks) > 0 THEN {"breaks"} ELSE {})
                \union (IF valid /\ \E i \in 1..n : Len(o.parts[i].coef) = 2 THEN {"line"} ELSE {})
                \union (IF valid /\ Len(q.breaks) > 0 THEN {"prescribed breaks"} ELSE {})
                \union (IF \E p, r \in 1..np : q.profiles[p].long \succ 350 /\ q.profiles[r].long \prec 10 THEN {"both sides of Greenwich"} ELSE {})
                \union (IF \E p, r \in 1..np : q.profiles[p].long \prec 180 /\ q.profiles[r].long \succ 180 THEN {"both sides of the date line"} ELSE {})]
INSTANCE CaseSpec
=============================================================================

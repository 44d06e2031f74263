-------------------------------- MODULE T_H --------------------------------
(***************************************************************************)
(* Recorded histories of the analysis, followed step by step in Workflow.  *)
(*                                                                         *)
(* A history has steps [act, obs].  act is an action of Workflow, obs what  *)
(* was found afterwards: for each float the numbers (into files) of its     *)
(* mapped, series and calibration file (0: absent), the files that changed, *)
(* and the error the program stopped with.                                 *)
(*                                                                         *)
(* refs are profiles mapped alone in a new process, fitrefs are fits in a   *)
(* new process from copies of the files.                                   *)
(***************************************************************************)
EXTENDS Workflow, Num
VARIABLES case, i, st, prev, failed, bad, hit
Cases == Load("cases")
C == Cases[case].out
Files == C.files
Arrays == {"sal", "err", "noise", "signal", "ptmp"}
Exact == Dec("1e-9")

(* -- columns ------------------------------------------------------------------ *)
(* the levels of one are those of the other, followed by missing ones *)
SameLevels(a, b) ==
    /\ \A l \in 1..Len(a) : IF l <= Len(b) THEN Close(a[l], b[l], Exact, Exact) ELSE IsNaN(a[l])
    /\ \A l \in Len(a) + 1 .. Len(b) : IsNaN(b[l])
SameColumn(a, b) == /\ \A k \in Arrays : SameLevels(a[k], b[k])
                    /\ SameSeq(a.settings, b.settings)
(* the settings are long_large ... use_pv, use_saf, p_delta, p_exclude; files of older versions have no use_saf *)
SAF == 10
SameButSaf(a, b) == /\ \A k \in Arrays : SameLevels(a[k], b[k])
                    /\ \A k \in 1..Len(a.settings) : k = SAF \/ Close(a.settings[k], b.settings[k], 0, 0)
Mappedness(c) == \E l \in 1..Len(c.noise) : ~IsNaN(c.noise[l])
Empty(c) == \A k \in Arrays : \A l \in 1..Len(c[k]) : IsNaN(c[k][l])

RefsOf(f, no) == {r \in 1..Len(C.refs) : C.refs[r].f = f /\ NEq(C.refs[r].no, no)}
RefOf(f, no, key) == {r \in RefsOf(f, no) : C.refs[r].ver = key.ver /\ C.refs[r].clim = key.clim /\ C.refs[r].cfg = key.cfg}
GoodOf(f, e) == C.good[CHOOSE g \in 1..Len(C.good) : C.good[g].f = f /\ C.good[g].no = e.no /\ C.good[g].ver = e.ver].ok
(* where the column of a profile is in a mapped file *)
At(m, no) == {j \in 1..Len(m.nos) : NEq(m.nos[j], no)}
File(n) == Files[n]

(* -- after a mapping run of float f ---------------------------------------------- *)
SameAs(plain, a, b) == IF plain THEN SameButSaf(a, b) ELSE SameColumn(a, b)
Useful(R) == {r \in R : "error" \notin DOMAIN C.refs[r]}
MapClauses(f, obs, t) ==
    LET cols == t.map[f].cols
        n == Len(cols)
        old == prev[f].map
        new == {j \in 1..n : cols[j].no \notin Numbers(st.map[f].cols)}
    IN IF obs.state[f].map = 0 \/ ~File(obs.state[f].map).readable THEN {"no mapped file"}
       ELSE LET m == File(obs.state[f].map)
                Plain(no) == \E j \in 1..n : NEq(cols[j].no, no) /\ cols[j].plain
            IN Failing(<<
                 <<"numbers of the mapped file", Len(m.nos) = n /\ \A j \in 1..n : NEq(m.nos[j], cols[j].no)>>,
                 <<"one column per profile", \A w \in 1..Len(m.widths) : m.widths[w] = n>>,
                 <<"casts listed in the order of the profiles", \A r \in 1..Len(m.selected) - 1 : m.selected[r][3] \preceq m.selected[r + 1][3]>>,
                 <<"casts listed for profiles of the file", \A r \in 1..Len(m.selected) : At(m, m.selected[r][3]) # {}>>,
                 <<"listed casts kept", old = 0 \/ (File(old).readable =>
                      \A r \in 1..Len(File(old).selected) : \E w \in 1..Len(m.selected) : SameSeq(m.selected[w], File(old).selected[r]))>>,
                 <<"a column of the profile", \A j \in 1..n : \A k \in At(m, cols[j].no) :
                      LET R == Useful(RefsOf(f, cols[j].no)) IN R = {} \/ \E r \in R : SameAs(cols[j].plain, m.cols[k], C.refs[r].col)>>,
                 <<"column as of the profile alone", \A j \in new : \A k \in At(m, cols[j].no) : \A r \in Useful(RefOf(f, cols[j].no, cols[j].key)) :
                      SameColumn(m.cols[k], C.refs[r].col)>>,
                 <<"settings in force", \A j \in new : \A k \in At(m, cols[j].no) :
                      IF Mappedness(m.cols[k]) THEN SameSeq(m.cols[k].settings, C.settings[t.cfg])
                      ELSE \A l \in 1..Len(m.cols[k].settings) : IsNaN(m.cols[k].settings[l])>>,
                 <<"mapped column kept", old = 0 \/ (File(old).readable =>
                      \A b \in 1..Len(File(old).nos) : /\ At(m, File(old).nos[b]) # {}
                                                        /\ \A k \in At(m, File(old).nos[b]) : SameAs(Plain(m.nos[k]), m.cols[k], File(old).cols[b]))>> >>)
MapHits(f, t) ==
    LET old == st.map[f].cols  new == Missing(st, f)
    IN {IF Len(old) = 0 THEN "first mapping" ELSE IF Len(new) = 0 THEN "nothing new" ELSE "new profiles"}
       \union (IF \E a \in 1..Len(new), b \in 1..Len(old) : new[a].no < old[b].no THEN {"new profile before an old one"} ELSE {})
       \union (IF \E a, b \in 1..Len(new) : a < b /\ new[a].no > new[b].no THEN {"source out of order"} ELSE {})
       \union (IF \E a \in 1..Len(st.src[f]), b \in 1..Len(old) : st.src[f][a].no = old[b].no /\ st.src[f][a].ver # old[b].key.ver THEN {"data of a mapped profile changed"} ELSE {})
       \union (IF \E b \in 1..Len(old) : old[b].no \notin Numbers(st.src[f]) THEN {"mapped profile not in the source"} ELSE {})
       \union (IF \E b \in 1..Len(old) : old[b].key.cfg # st.cfg THEN {"configuration changed"} ELSE {})
       \union (IF \E b \in 1..Len(old) : old[b].key.clim # st.clim THEN {"climatology changed"} ELSE {})
       \union (IF \E b \in 1..Len(old) : old[b].plain THEN {"file of an older version"} ELSE {})
       \union (IF f \in failed THEN {"after a failed run"} ELSE {})

(* -- after the series were set --------------------------------------------------------- *)
SeriesClauses(f, obs, t) ==
    IF obs.state[f].ser = 0 \/ ~File(obs.state[f].ser).readable THEN {"no series file"}
    ELSE LET s == File(obs.state[f].ser)  x == t.ser[f]
         IN Failing(<<
              <<"profiles of the series", Len(s.nos) = Len(x.list) /\ \A j \in 1..Len(x.list) : NEq(s.nos[j], x.list[j].no)>>,
              <<"series numbers", Len(s.series) = Len(x.list) /\ \A j \in 1..Len(x.list) : NEq(s.series[j], x.list[j].s)>>,
              <<"allowed numbers of breaks", SameSeq(s.max, x.set.max)>>,
              <<"breaks", SameMat(s.breaks, x.set.breaks)>>,
              <<"ranges", /\ SameSeq(s.theta_lt, x.set.theta_lt) /\ SameSeq(s.theta_gt, x.set.theta_gt)
                          /\ SameSeq(s.pres_lt, x.set.pres_lt) /\ SameSeq(s.pres_gt, x.set.pres_gt)>>,
              <<"fraction", Len(s.percent) = 1 /\ Close(s.percent[1], Dec(x.set.percent), Exact, 0)>> >>)
SeriesHits(f, t) ==
    LET old == st.ser[f]  x == t.ser[f].list
    IN {IF ~old.there THEN "first series" ELSE IF Len(x) = Len(old.list) THEN "no new profile in the series" ELSE "series extended"}
       \union (IF \E j \in 1..Len(x) : x[j].s = 0 THEN {"profile without data"} ELSE {})
       \union (IF \E a, b \in 1..Len(x) : x[a].s # 0 /\ x[b].s # 0 /\ x[a].s # x[b].s THEN {"two series"} ELSE {})
       \union (IF old.there /\ old.set # t.ser[f].set /\ old.set.percent # "none" THEN {"range removed"} ELSE {})
       \union (IF old.there /\ old.set.percent = "none" THEN {"series of an older version"} ELSE {})
       \union (IF old.there /\ old.set.percent \notin {"none", "0.5"} THEN {"another fraction"} ELSE {})
       \union (IF old.there /\ \E j \in 1..Len(x) : x[j].no \notin Numbers(old.list) /\ \E b \in 1..Len(old.list) : x[j].no < old.list[b].no
               THEN {"new profile between known ones"} ELSE {})

(* -- after a fit ------------------------------------------------------------------------ *)
SameValues(x, y) == /\ DOMAIN x = DOMAIN y
                    /\ \A k \in DOMAIN x : CloseSeq(x[k], y[k], Exact, Exact)
FitClauses(f, obs) ==
    IF obs.state[f].fit = 0 \/ ~File(obs.state[f].fit).readable THEN {"no calibration"}
    ELSE LET r == C.fitrefs[obs.ref[f]]
         IN IF "error" \in DOMAIN r \/ SameValues(File(obs.state[f].fit).values, r.values) THEN {} ELSE {"fit as in a new process"}

(* -- the same history without the runs that failed ------------------------------------------------ *)
SameFile(a, b, what) ==
    \/ a = b
    \/ /\ a # 0 /\ b # 0
       /\ LET x == File(a)  y == File(b)
          IN /\ x.readable /\ y.readable
             /\ CASE what = "map" -> /\ SameSeq(x.nos, y.nos)
                                      /\ \A j \in 1..Len(x.nos) : SameColumn(x.cols[j], y.cols[j])
                                      /\ SameMat(x.selected, y.selected)
                  [] what = "fit" -> SameValues(x.values, y.values)
                  [] what = "ser" -> x = y
AsTwin(obs) == "twin" \notin DOMAIN obs \/ \A f \in DOMAIN obs.state : \A what \in {"map", "ser", "fit"} : SameFile(obs.state[f][what], obs.twin[f][what], what)

(* -- what belongs to which property ---------------------------------------------------------- *)
Clauses == [C01 |-> {"completes", "no mapped file", "numbers of the mapped file", "one column per profile", "a column of the profile",
                      "casts listed in the order of the profiles", "casts listed for profiles of the file"},
            C02 |-> {"mapped column kept", "listed casts kept", "settings in force"},
            C04 |-> {"completes, as it does alone", "column as of the profile alone", "the fit completes, as it does alone", "no calibration", "fit as in a new process"},
            C15 |-> {"setting the series completes", "no series file", "profiles of the series", "series numbers", "allowed numbers of breaks", "breaks", "ranges", "fraction"},
            C19 |-> {"wrote elsewhere", "input changed", "settings object changed"},
            C20 |-> {"result changed by a failed run", "replaced a result that it could not read", "input changed by a failed run", "completes after a failed run", "as without the failed runs"}]
OutOf(act) == {<<r[1], IF r[2] = "series" THEN "ser" ELSE r[2]>> : r \in Runs(act)}
(* changed is a sequence of [f, what]; what is map, ser, fit, input or other *)
Writes(act, obs) ==
    LET ch == {obs.changed[k] : k \in 1..Len(obs.changed)}
    IN Failing(<<<<"input changed", \A k \in ch : k.what # "input">>,
                 <<"wrote elsewhere", \A k \in ch : k.what = "input" \/ <<k.f, k.what>> \in OutOf(act)>>,
                 <<"settings object changed", obs.config>> >>)
ErrorClause(what, f, obs) ==
    CASE what = "map" -> {"completes"} \union (IF \A r \in 1..Len(C.refs) : "error" \notin DOMAIN C.refs[r] THEN {"completes, as it does alone"} ELSE {})
      [] what = "series" -> {"setting the series completes"}
      [] what = "fit" -> IF "error" \in DOMAIN C.fitrefs[obs.ref[f]] THEN {"the fit completes"} ELSE {"the fit completes", "the fit completes, as it does alone"}

Erred(list) == {list[k] : k \in 1..Len(list)}           \* the floats whose run stopped with an error
(* the clauses that a step breaks; t: the state of the model after it *)
Broken(act, obs, t) ==
    CASE act.do = "fail" ->
            IF obs.replaced THEN {"replaced a result that it could not read"}
            ELSE IF obs.swallowed THEN {}
            ELSE (IF obs.state = prev THEN {} ELSE {"result changed by a failed run"})
                 \union (IF \E k \in 1..Len(obs.changed) : obs.changed[k].what = "input" THEN {"input changed by a failed run"} ELSE {})
      [] Runs(act) # {} ->
            Writes(act, obs) \union
            (IF Erred(obs.twin_erred) # {} THEN {} ELSE IF Erred(obs.erred) # {} THEN (IF failed # {} THEN {"completes after a failed run"} ELSE {})
             ELSE IF AsTwin(obs) THEN {} ELSE {"as without the failed runs"}) \union
            UNION {LET f == r[1]  what == r[2]
                   IN IF f \in Erred(obs.erred) THEN ErrorClause(what, f, obs)
                      ELSE CASE what = "map" -> MapClauses(f, obs, t)
                             [] what = "series" -> SeriesClauses(f, obs, t)
                             [] what = "fit" -> FitClauses(f, obs) : r \in Runs(act)}
      [] OTHER -> {}
Shown(act, obs, t) ==
    {act.do}
    \union UNION {CASE r[2] = "map" -> MapHits(r[1], t)
                    [] r[2] = "series" -> SeriesHits(r[1], t)
                    [] r[2] = "fit" -> (IF r[1] \in failed THEN {"fit after a failed run"} ELSE {}) : r \in Runs(act)}
    \union (CASE act.do = "both" -> {act.a \o " and " \o act.b, obs.schedule}
              [] act.do = "fail" -> {IF obs.swallowed THEN "run went on" ELSE "failed " \o act.what, "by " \o obs.how}
              [] OTHER -> {})

Init == /\ case \in 1..Len(Cases)
        /\ i = 0 /\ st = Start({"a", "b"}) /\ failed = {} /\ bad = {} /\ hit = {}
        /\ prev = [f \in {"a", "b"} |-> [map |-> 0, ser |-> 0, fit |-> 0]]
Stopped == "error" \in DOMAIN C                        \* not a history at all
Finish == /\ IF Stopped THEN i = 0 ELSE i = Len(C.steps)
          /\ Emit("V", <<Cases[case].k, [fail |-> IF Stopped THEN {"error"} ELSE {b[2] : b \in {x \in bad : x[2] \in Clauses[Cases[case].prop]}}, hit |-> hit, at |-> bad]>>)
          /\ i' = -1 /\ UNCHANGED <<case, st, prev, failed, bad, hit>>
Follow == /\ ~Stopped /\ i \geq 0 /\ i < Len(C.steps)
          /\ LET s == C.steps[i + 1]
                 t == TLCEval(Step(st, s.act, GoodOf))
             IN /\ st' = t
                /\ bad' = TLCEval(bad \union {<<i + 1, b>> : b \in Broken(s.act, s.obs, t)})
                /\ hit' = TLCEval(hit \union Shown(s.act, s.obs, t))
                /\ prev' = s.obs.state
                /\ failed' = IF s.act.do = "fail" THEN failed \union {s.act.f}
                             ELSE failed \ {r[1] : r \in {x \in Runs(s.act) : x[2] # "series"}}
          /\ i' = i + 1 /\ UNCHANGED case
Next == Follow \/ Finish
=============================================================================

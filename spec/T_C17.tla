------------------------------- MODULE T_C17 -------------------------------
(* C17: recorded calls of the conversions. *)
EXTENDS Geo
VARIABLES case, done
Tight == Dec("1e-12")

Dates(c) ==
    LET out == c.out.v  in == c.in.parts
        n == Len(in)
    IN [fail |-> IF ~(IsArray(out) /\ Len(out) = n) THEN {"one value per date"}
                 ELSE Failing(<<
                    <<"valid dates", \A i \in 1..n : in[i].ok /\ ValidDate(in[i].d) => Close(out[i], DecimalDate(in[i].d), Dec("1e-13"), 0)>>,
                    <<"invalid dates are zero", \A i \in 1..n : (~in[i].ok \/ HopelessDate(in[i].d)) => NEq(out[i], 0)>> >>),
        hit |-> {IF ~in[i].ok THEN "not a date" ELSE IF HopelessDate(in[i].d) THEN "month or day out of range"
                 ELSE IF ValidDate(in[i].d) THEN "valid date" ELSE "unspecified date" : i \in 1..n}]
Longs(c) ==
    LET w == WrapLongitudes(c.in.v)
        far == \E i \in 1..Len(w) : w[i] \succ 360
    IN [fail |-> Failing(<<<<"wrapped longitudes", IsArray(c.out.v) /\ CloseSeq(c.out.v, w, 0, Dec("1e-9"))>>>>),
        hit |-> {IF far THEN "shifted by 360" ELSE "not shifted"}
                \union (IF \E i \in 1..Len(w) : c.in.v[i] \prec 0 THEN {"negative longitude"} ELSE {})]
Vort(c) == [fail |-> Failing(<<<<"potential vorticity", IsNum(c.out.v) /\ Close(c.out.v, PV(c.in.lat, c.in.z), Dec("1e-11"), 0)>>>>),
            hit |-> {IF NEq(c.in.lat, 0) THEN "zero vorticity" ELSE "vorticity"}]
Corr(c) ==
    LET a == c.in
        x == Correlation(a.long1 -- a.long2, a.llong, a.lat1 -- a.lat2, a.llat, a.date1 -- a.date2, a.age, a.pv1, a.pv2, a.phi)
    IN [fail |-> Failing(<<<<"spatial correlation", IsNum(c.out.v) /\ Close(c.out.v, x, Tight, Tight)>>>>),
        hit |-> {IF NEq(a.pv1, 0) \/ NEq(a.pv2, 0) THEN "correlation without vorticity" ELSE "correlation with vorticity"}]
Elli(c) ==
    LET a == c.in
        x == Sqrt(EllipseSq(a.long1 -- a.long2, a.llong, a.lat1 -- a.lat2, a.llat, a.pv1, a.pv2, a.phi))
    IN [fail |-> Failing(<<<<"ellipse distance", IsNum(c.out.v) /\ Close(c.out.v, x, Tight, Tight)>>>>),
        hit |-> {IF NEq(a.pv1, 0) \/ NEq(a.pv2, 0) THEN "ellipse without vorticity" ELSE "ellipse with vorticity"}]
Judge(c) ==
    IF "error" \in DOMAIN c.out THEN [fail |-> {"error"}, hit |-> {}]
    ELSE CASE c.kind = "dates" -> Dates(c)
           [] c.kind = "longs" -> Longs(c)
           [] c.kind = "pv" -> Vort(c)
           [] c.kind = "corr" -> Corr(c)
           [] c.kind = "ellipse" -> Elli(c)
INSTANCE CaseSpec
=============================================================================

-------------------------------- MODULE Geo --------------------------------
(***************************************************************************)
(* Positions, dates, depths: the conversions every part of the analysis    *)
(* uses, the WMO box search and the bathymetry file.                       *)
(***************************************************************************)
EXTENDS Num

(* -- dates (C17): <<year, month, day, hour, minute>> of a calendar date -- *)
DaysBefore == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
DaysIn == <<31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>
ValidDate(d) == /\ d[2] \in 1..12 /\ d[3] >= 1 /\ d[3] <= DaysIn[d[2]]
                /\ d[4] \in 0..23 /\ d[5] \in 0..59
(* month or day out of every range: the date is invalid whatever the rest *)
HopelessDate(d) == d[2] < 1 \/ d[2] > 12 \/ d[3] < 1 \/ d[3] > 31
DecimalDate(d) == d[1] ++ ((((DaysBefore[d[2]] + d[3] - 1) ++ (d[4] // 24)) ++ (d[5] // 1440)) // 365)

(* -- longitudes (C17) ---------------------------------------------------- *)
Positive(x) == IF x \prec 0 THEN x ++ 360 ELSE x
WrapLongitudes(s) ==
    LET p == Map(s, Positive)
    IN IF \E i \in 1..Len(p) : p[i] \succeq 320
       THEN Map(p, LAMBDA x : IF x \preceq 40 THEN x ++ 360 ELSE x)
       ELSE p

(* -- vorticity, correlation, ellipse (C17, C08) -------------------------- *)
Omega2 == Dec("14.584e-5")                     \* 2 * 7.292e-5
PV(lat, z) == LET v == (Omega2 ** Sin((lat ** Pi) // 180)) // z
              IN IF NEq(v, 0) THEN Dec("1e-5") ELSE v
PVTerm(p, q, phi) == IF NEq(p, 0) \/ NEq(q, 0) THEN 0
                     ELSE Sq(((q -- p) // Sqrt(Sq(p) ++ Sq(q))) // phi)
Correlation(dlong, llong, dlat, llat, ddate, lage, p, q, phi) ==
    ((Sq(dlong // llong) ++ Sq(dlat // llat)) ++ Sq(ddate // lage)) ++ PVTerm(p, q, phi)
EllipseSq(dlong, llong, dlat, llat, p, q, phi) ==
    (Sq(dlong // (3 ** llong)) ++ Sq(dlat // (3 ** llat))) ++ PVTerm(p, q, phi)

(* -- WMO boxes (C06) ----------------------------------------------------- *)
(* Box tables have 36 columns of longitude, each of 18 boxes from north to  *)
(* south.  Positions less than 0.01 degrees before a box boundary may be    *)
(* taken to belong to the next box.                                         *)
Columns(long) == {NFloor(long // 10) % 36, NFloor((long ++ Dec("0.0100000001")) // 10) % 36}
Clip(r) == IF r < 0 THEN 0 ELSE IF r > 17 THEN 17 ELSE r
(* rows counted from the south pole *)
RowsOfLat(lat) == {Clip(NFloor((lat ++ 90) // 10)), Clip(NFloor(((lat ++ 90) ++ Dec("0.0100000001")) // 10))}
(* 0-based table index of the box in row r (from the south) and column c, or -1 beyond the poles *)
BoxAt(r, c) == IF r < 0 \/ r > 17 THEN -1 ELSE 18 * (c % 36) + (17 - r)
Block(r0, c0) == TLCEval([n \in 1..25 |-> BoxAt(r0 + ((n - 1) \div 5) - 2, c0 + ((n - 1) % 5) - 2 + 36)])
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s, t) == /\ Len(s) = Len(t)
                 /\ \A x \in Range(s) : Count(s, x) = Count(t, x)

(* -- bathymetry (C07) ---------------------------------------------------- *)
(* The file holds one value per 1/12 degree, from 90N to 89 11/12 S and     *)
(* from longitude 0 eastwards.  Nodes are counted in twelfths of a degree.  *)
West(long) == NFloor(long ** 12)
East(long) == -NFloor((0 -- long) ** 12)
South(lat) == LET s == NFloor(lat ** 12) IN IF s < -1079 THEN -1079 ELSE s
North(lat) == LET m == -NFloor((0 -- lat) ** 12) IN IF m > 1080 THEN 1080 ELSE m
FileRow(twelfths) == 1080 - twelfths
FileCol(twelfths) == ((twelfths % 4320) + 4320) % 4320
=============================================================================

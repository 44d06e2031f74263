------------------------------- MODULE T_C05 -------------------------------
(* C05: recorded listings and data of historical casts. *)
EXTENDS Climatology
VARIABLES case, done

Near(s, t) == CloseSeq(s, t, Dec("1e-14"), Dec("1e-9"))
(* column j of the recorded matrix without its empty rows *)
ColumnOf(m, j) == SelectSeq(Map(m, LAMBDA r : r[j]), LAMBDA x : ~IsNaN(x))
AlignedColumn(o, j) == \A i \in 1..Len(o.pres) : IsNaN(o.pres[i][j]) = IsNaN(o.sal[i][j]) /\ IsNaN(o.pres[i][j]) = IsNaN(o.ptmp[i][j])

Judge(c) ==
    LET q == c.in  o == c.out
        list == Listing(q.boxes, q.name)
        loc == Locations(list)
        deepest == MaxSeq(SelectSeq(q.pres, LAMBDA x : ~IsNaN(x))) ++ q.delta
        want == Chosen(list, {i + 1 : i \in Range(q.index)}, deepest)
        wloc == Locations(want)
        (* longitudes are wrapped for all wanted casts together, dropped ones included or not *)
        picked == Where(Len(list), LAMBDA i : (i - 1) \in Range(q.index))
        kept == Where(Len(picked), LAMBDA i : Len(LevelsOf(list[picked[i]], deepest)) > 0)
        wlong == Pick(WrapLongitudes(Map(picked, LAMBDA i : list[i].long)), kept)
        l == o.locations  d == o.data
        crash == "error" \in DOMAIN o
        locok == ~IsText(l.lat) /\ Near(l.lat, loc.lat) /\ Near(l.long, loc.long) /\ Near(l.date, loc.date)
        n == Len(want)
    IN [fail |-> IF crash THEN {"error"}
                 ELSE Failing(<<
                    <<"every cast of enabled and readable files is listed in order",
                        IF Len(list) = 0 THEN IsText(l.lat) \/ l.lat = <<>> ELSE locok>>,
                    <<"data of exactly the wanted casts",
                        IF n = 0 THEN IsText(d.lat) \/ d.lat = <<>>
                        ELSE ~IsText(d.lat) /\ Len(d.lat) = n /\ Near(d.lat, wloc.lat)>>,
                    <<"longitude and date of each column",
                        n = 0 \/ (~IsText(d.lat) /\ (Near(d.long, wloc.long) \/ Near(d.long, wlong)) /\ Near(d.date, wloc.date))>>,
                    <<"levels of each column",
                        n = 0 \/ (~IsText(d.lat) /\ Len(d.lat) = n /\ \A i \in 1..Len(d.pres) : Len(d.pres[i]) = n) =>
                        \A j \in 1..n :
                            /\ AlignedColumn(d, j)
                            /\ SameSeq(ColumnOf(d.pres, j), want[j].pres)
                            /\ SameSeq(ColumnOf(d.sal, j), want[j].sal)
                            /\ SameSeq(ColumnOf(d.ptmp, j), want[j].ptmp)>>,
                    <<"arguments unchanged", o.unchanged>> >>),
        hit |-> (IF Len(list) = 0 THEN {"no cast at all"} ELSE {})
                \union (IF n = 0 THEN {"no cast wanted or left"} ELSE {})
                \union (IF n < Cardinality(Range(q.index)) THEN {"casts without levels dropped"} ELSE {})
                \union (IF \E b \in 1..Len(q.boxes) : q.boxes[b].missing THEN {"empty box row"} ELSE {})
                \union UNION {{q.boxes[b].files[t].state} : b \in 1..Len(q.boxes), t \in 1..3}
                \union (IF \E b \in 1..Len(q.boxes), t \in 1..3 : q.boxes[b].flags[t] # 1 THEN {"disabled type"} ELSE {})
                \union (IF \E b \in 1..Len(q.boxes), t \in 1..3 : Len(q.boxes[b].files[t].casts) = 1 THEN {"single cast in a file"} ELSE {})
                \union (IF \E b \in 1..Len(q.boxes) : q.boxes[b].files[2].transposed THEN {"transposed bottle file"} ELSE {})
                \union (IF \E b \in 1..Len(q.boxes), i \in 1..20 : i <= Len(q.boxes[b].files[3].casts) /\ q.boxes[b].files[3].casts[i].owner = q.name
                        THEN {"casts of the float itself"} ELSE {})
                \union (IF \E i \in 1..n : \E j \in 1..n : Len(want[i].pres) < Len(want[j].pres) THEN {"uneven casts"} ELSE {})
                \union (IF n > 0 /\ ~SameSeq(Map(Where(Len(list), LAMBDA i : i \in {x + 1 : x \in Range(q.index)}), LAMBDA i : i), Map(q.index, LAMBDA i : i + 1))
                        THEN {"positions out of order"} ELSE {})]
INSTANCE CaseSpec
=============================================================================

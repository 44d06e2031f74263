------------------------------- MODULE T_C06 -------------------------------
(* C06: every recorded box search returns the block around the position. *)
EXTENDS Geo
VARIABLES case, done

IsRow(r) == IsArray(r) /\ Len(r) = 4 /\ \A j \in 1..4 : IsNum(r[j])
Empty(r) == \A j \in 1..4 : IsNaN(r[j])
(* index of the row's box in the table, -1 for an empty row, -2 for a row that is no entry of the table *)
BoxOf(table, r) ==
    IF Empty(r) THEN -1
    ELSE LET S == {b \in 0..647 : SameSeq(table[b + 1], r)} IN IF S = {} THEN -2 ELSE CHOOSE b \in S : TRUE

Judge(c) ==
    LET table == Load("table" \o ToString(c.in.table))
        rows == c.out.rows
        ok == "error" \notin DOMAIN c.out /\ IsArray(rows) /\ Len(rows) = 25 /\ \A i \in 1..25 : IsRow(rows[i])
        boxes == Map(rows, LAMBDA r : BoxOf(table, r))
        missing == IsNaN(c.in.lat) \/ IsNaN(c.in.long)
        block == \E cc \in Columns(c.in.long), rr \in RowsOfLat(c.in.lat) : SameBag(Block(rr, cc), boxes)
        r0 == CHOOSE r \in RowsOfLat(c.in.lat) : TRUE
        c0 == CHOOSE x \in Columns(c.in.long) : TRUE
    IN [fail |-> IF ~ok THEN {"twenty-five rows of four numbers"}
                 ELSE Failing(<<
                    <<"rows are entries of the table", \A i \in 1..25 : boxes[i] # -2>>,
                    <<"missing position gives empty rows", missing => \A i \in 1..25 : boxes[i] = -1>>,
                    <<"no box twice", ~missing => \A i, j \in 1..25 : i < j /\ boxes[i] >= 0 => boxes[i] # boxes[j]>>,
                    <<"the block around the position", ~missing => block>> >>),
        hit |-> IF missing THEN {"missing position"}
                ELSE {IF r0 < 2 THEN "south pole" ELSE IF r0 > 15 THEN "north pole" ELSE "middle"}
                     \union {IF c0 < 2 \/ c0 > 33 THEN "wraps in longitude" ELSE "no wrap"}
                     \union (IF Cardinality(Columns(c.in.long)) + Cardinality(RowsOfLat(c.in.lat)) > 2 THEN {"at a boundary"} ELSE {})]
INSTANCE CaseSpec
=============================================================================

------------------------------- MODULE T_C07 -------------------------------
(* C07: every recorded topography read gives the nodes of the file. *)
EXTENDS Geo
VARIABLES case, done

(* the elevation the harness wrote at a cell; s: which file *)
Elevation(row, col, s) == ((row * 7919 + col * 104729 + s * 1299709) % 60013) - 30006

Judge(c) ==
    LET o == c.out
        w == West(c.in.minlong)  e == East(c.in.maxlong)
        s == South(c.in.minlat)  n == North(c.in.maxlat)
        nr == n - s + 1
        nc == e - w + 1
        ok == "error" \notin DOMAIN o /\ \A f \in {"topo", "longs", "lats"} : f \in DOMAIN o.shape /\ SameSeq(o.shape[f], <<nr, nc>>)
        node(x) == [i |-> x[1], j |-> x[2], z |-> x[3], long |-> x[4], lat |-> x[5]]
        nodes == Map(o.nodes, node)
        latAt(x) == n - x.i
        longAt(x) == w + x.j
    IN [fail |-> IF ~ok THEN {"shape"}
                 ELSE Failing(<<
                    <<"latitudes of the nodes", \A i \in 1..Len(nodes) : Close(nodes[i].lat, latAt(nodes[i]) // 12, 0, Dec("1e-9"))>>,
                    <<"longitudes of the nodes", \A i \in 1..Len(nodes) : Close(nodes[i].long, longAt(nodes[i]) // 12, 0, Dec("1e-9"))>>,
                    <<"elevations of the nodes", \A i \in 1..Len(nodes) :
                        NEq(nodes[i].z, Elevation(FileRow(latAt(nodes[i])), FileCol(longAt(nodes[i])), c.in.file))>> >>),
        hit |-> (IF w < 0 /\ e >= 0 THEN {"across Greenwich from the west"} ELSE {})
                \union (IF w < 4320 /\ e >= 4320 THEN {"across Greenwich from the east"} ELSE {})
                \union (IF (w < 2160 /\ e > 2160) \/ w < -2160 THEN {"across the dateline"} ELSE {})
                \union (IF e - w >= 4320 THEN {"full turn"} ELSE {})
                \union (IF e < 0 THEN {"western longitudes"} ELSE {})
                \union (IF w >= 4320 THEN {"beyond 360"} ELSE {})
                \union (IF n = 1080 THEN {"north pole"} ELSE {}) \union (IF s = -1079 THEN {"south pole"} ELSE {})
                \union (IF nr = 1 \/ nc = 1 THEN {"single row or column"} ELSE {})]
INSTANCE CaseSpec
=============================================================================

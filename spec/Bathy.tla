------------------------------- MODULE Bathy -------------------------------
(* The made-up ocean of the worlds (lib/world.py, default_bathy) and the ocean depth at a position. *)
EXTENDS Geo

Cell(r, c) == -NRound((3500 ++ (600 ** (Sin(r // 37) ** Cos(c // 53)))) ++ (150 ** Sin((r + 2 * c) // 11)))
NodeElevation(i, j) == Cell(FileRow(i), FileCol(j))        \* i, j: twelfths of a degree of latitude and longitude
(* bilinear between the four nodes around the position *)
DepthAt(long, lat) ==
    LET x == long ** 12  y == lat ** 12
        j == NFloor(x)  i == NFloor(y)
        u == x -- j  v == y -- i
        low == (NodeElevation(i, j) ** (1 -- u)) ++ (NodeElevation(i, j + 1) ** u)
        top == (NodeElevation(i + 1, j) ** (1 -- u)) ++ (NodeElevation(i + 1, j + 1) ** u)
    IN 0 -- ((low ** (1 -- v)) ++ (top ** v))
=============================================================================

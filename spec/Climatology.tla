---------------------------- MODULE Climatology ----------------------------
(***************************************************************************)
(* The historical casts of a region: a sequence of boxes, each with a CTD, *)
(* a bottle and an Argo file.  A file is a record [state, casts]; only      *)
(* files in state "ok" can be read.  A cast has lat, long, date (the        *)
(* calendar date as five numbers), owner (the number of the Argo float it   *)
(* comes from) and the levels pres, sal, ptmp.                              *)
(***************************************************************************)
EXTENDS Geo

Usable(box, t, name) ==
    LET f == box.files[t]
    IN IF box.missing \/ box.flags[t] # 1 \/ f.state # "ok" THEN <<>>
       ELSE IF t = 3 THEN SelectSeq(f.casts, LAMBDA c : c.owner # name)
       ELSE f.casts
RECURSIVE Concat(_)
Concat(s) == IF Len(s) = 0 THEN <<>> ELSE Head(s) \o Concat(Tail(s))
(* every cast of the region, in the order of boxes and types *)
Listing(boxes, name) ==
    Concat(TLCEval([b \in 1..Len(boxes) |-> Usable(boxes[b], 1, name) \o Usable(boxes[b], 2, name) \o Usable(boxes[b], 3, name)]))
Locations(list) == [lat |-> Map(list, LAMBDA c : c.lat),
                    long |-> WrapLongitudes(Map(list, LAMBDA c : c.long)),
                    date |-> Map(list, LAMBDA c : IF HopelessDate(c.date) THEN 0 ELSE DecimalDate(c.date))]
(* the levels of a cast that may be used down to pressure deepest *)
LevelsOf(c, deepest) ==
    Where(Len(c.pres), LAMBDA i : ~IsNaN(c.pres[i]) /\ ~IsNaN(c.sal[i]) /\ ~IsNaN(c.ptmp[i]) /\ c.pres[i] \preceq deepest)
(* the casts at the given positions (a set) that have such levels, in order of the listing *)
Chosen(list, positions, deepest) ==
    LET ix == Where(Len(list), LAMBDA i : i \in positions /\ Len(LevelsOf(list[i], deepest)) > 0)
    IN Map(ix, LAMBDA i : LET c == list[i]  l == LevelsOf(c, deepest)
                          IN [c EXCEPT !.pres = Pick(c.pres, l), !.sal = Pick(c.sal, l), !.ptmp = Pick(c.ptmp, l)])
=============================================================================

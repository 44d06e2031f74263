------------------------------ MODULE Workflow ------------------------------
(***************************************************************************)
(* The analysis of several floats as a state machine over the files that    *)
(* its steps read and write.  The operator replaces sources, climatology    *)
(* and configuration and edits series; the program maps, sets series and    *)
(* fits.  Step(st, a) is the state after action a: a record with a field    *)
(* "do" and the parameters of the action.                                   *)
(*                                                                          *)
(*  st.src[f]  source: sequence of [no, ver] in file order                  *)
(*  st.clim, st.cfg  versions of climatology and configuration              *)
(*  st.map[f]  mapped file: [there, cols], cols a sequence of               *)
(*             [no, key, plain]; key = [ver, clim, cfg] says from what it    *)
(*             was computed, plain that an older version wrote it           *)
(*  st.upto[f] whether the mapping has seen the present source              *)
(*  st.ser[f]  series file: [there, list, set]: list of [no, s] and the      *)
(*             other settings                                               *)
(*  st.fit[f]  calibration: [there, src, map, ser], what it was made from   *)
(*                                                                          *)
(* Good(f, no, ver): the profile has salinity, temperature and pressure.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Numbers(list) == {list[i].no : i \in 1..Len(list)}
Entry(list, n) == list[CHOOSE i \in 1..Len(list) : list[i].no = n]
RECURSIVE ByNumber(_)
ByNumber(list) ==
    IF Len(list) = 0 THEN <<>>
    ELSE LET m == CHOOSE i \in 1..Len(list) : \A j \in 1..Len(list) : list[i].no <= list[j].no
         IN <<list[m]>> \o ByNumber(SubSeq(list, 1, m - 1) \o SubSeq(list, m + 1, Len(list)))

(* -- mapping ----------------------------------------------------------------- *)
Key(st, ver) == [ver |-> ver, clim |-> st.clim, cfg |-> st.cfg]
Missing(st, f) == SelectSeq(st.src[f], LAMBDA e : e.no \notin Numbers(st.map[f].cols))
Mapped(st, f) ==
    LET new == Missing(st, f)
        cols == ByNumber(st.map[f].cols \o [i \in 1..Len(new) |-> [no |-> new[i].no, key |-> Key(st, new[i].ver), plain |-> FALSE]])
    IN [st EXCEPT !.map[f] = [there |-> TRUE, cols |-> cols], !.upto[f] = TRUE]

(* -- series -------------------------------------------------------------------- *)
DefaultSet == [max |-> <<4>>, breaks |-> <<>>, theta_lt |-> <<>>, theta_gt |-> <<>>, pres_lt |-> <<>>, pres_gt |-> <<>>, percent |-> "0.5"]
OneBound(b) == IF Len(b) > 1 THEN <<>> ELSE b
(* ranges with more than one number are dropped; a file without the fraction, as older versions wrote it, gets the default *)
Tidy(s) == [s EXCEPT !.percent = IF @ = "none" THEN DefaultSet.percent ELSE @, !.theta_lt = OneBound(@), !.theta_gt = OneBound(@), !.pres_lt = OneBound(@), !.pres_gt = OneBound(@)]
(* the series number that a new profile takes over: of the preceding profile, else of the first one *)
Inherited(list, n) ==
    LET before == {i \in 1..Len(list) : list[i].no < n}
    IN IF before # {} THEN list[CHOOSE i \in before : \A j \in before : list[j].no <= list[i].no].s
       ELSE list[CHOOSE i \in 1..Len(list) : \A j \in 1..Len(list) : list[i].no <= list[j].no].s
RECURSIVE Extend(_, _)
Extend(list, new) == IF Len(new) = 0 THEN list
                     ELSE Extend(Append(list, [no |-> Head(new), s |-> Inherited(list, Head(new))]), Tail(new))
SeriesList(list, src, good(_)) ==
    LET new == SelectSeq([i \in 1..Len(src) |-> src[i].no], LAMBDA n : n \notin Numbers(list))
        all == ByNumber(Extend(list, new))
        bad == {src[i].no : i \in {j \in 1..Len(src) : ~good(src[j])}}
    IN [i \in 1..Len(all) |-> IF all[i].no \in bad THEN [all[i] EXCEPT !.s = 0] ELSE all[i]]
SeriesSet(st, f, good(_)) ==
    LET old == st.ser[f]
        src == st.src[f]
        first == [i \in 1..Len(src) |-> [no |-> src[i].no, s |-> 1]]
    IN [st EXCEPT !.ser[f] = [there |-> TRUE,
                              list |-> SeriesList(IF old.there THEN old.list ELSE first, src, good),
                              set |-> IF old.there THEN Tidy(old.set) ELSE DefaultSet]]

(* -- all actions ------------------------------------------------------------------ *)
NoMap == [there |-> FALSE, cols |-> <<>>]
NoSeries == [there |-> FALSE, list |-> <<>>, set |-> DefaultSet]
NoFit == [there |-> FALSE, src |-> <<>>, map |-> NoMap, ser |-> NoSeries]
Fitted(st, f) == [st EXCEPT !.fit[f] = [there |-> TRUE, src |-> st.src[f], map |-> st.map[f], ser |-> st.ser[f]]]
Start(floats) == [src |-> [f \in floats |-> <<>>], clim |-> 1, cfg |-> 1, upto |-> [f \in floats |-> FALSE], map |-> [f \in floats |-> NoMap],
                  ser |-> [f \in floats |-> NoSeries], fit |-> [f \in floats |-> NoFit]]

(* an analysis in order: mapping and series cover the source *)
Program(st, w, f, good(_, _)) ==
    CASE w = "map" -> Mapped(st, f)
      [] w = "series" -> SeriesSet(st, f, LAMBDA e : good(f, e))
      [] w = "fit" -> Fitted(st, f)
(* the runs of the program in an action: <<float, step>> *)
Runs(a) == CASE a.do \in {"map", "series", "fit"} -> {<<a.f, a.do>>}
             [] a.do = "both" -> {<<"a", a.a>>, <<"b", a.b>>}
             [] OTHER -> {}
Fittable(st, f) == /\ Len(st.src[f]) > 0 /\ st.upto[f] /\ st.map[f].there /\ st.ser[f].there
                   /\ Numbers(st.src[f]) \subseteq Numbers(st.ser[f].list)
                   /\ st.ser[f].set = Tidy(st.ser[f].set)
Runnable(st, w, f) == Len(st.src[f]) > 0 /\ (w = "fit" => Fittable(st, f))
Enabled(st, a) ==
    CASE a.do \in {"map", "series", "fit", "both"} -> \A r \in Runs(a) : Runnable(st, r[2], r[1])
      [] a.do = "fail" -> Runnable(st, a.what, a.f)
      [] a.do \in {"edit", "bounds"} -> st.ser[a.f].there
      [] a.do = "oldformat" -> st.map[a.f].there
      [] a.do = "oldseries" -> st.ser[a.f].there
      [] a.do = "forget" -> st.map[a.f].there \/ st.ser[a.f].there
      [] OTHER -> TRUE

Step(st, a, good(_, _)) ==
    CASE a.do = "source" -> [st EXCEPT !.src[a.f] = a.list, !.upto[a.f] = FALSE]
      [] a.do = "clim" -> [st EXCEPT !.clim = a.v]
      [] a.do = "config" -> [st EXCEPT !.cfg = a.v]
      [] a.do \in {"map", "series", "fit"} -> Program(st, a.do, a.f, good)
      [] a.do = "both" -> Program(Program(st, a.a, "a", good), a.b, "b", good)                      \* at the same time: the order is no matter (Commutes)
      [] a.do = "edit" -> [st EXCEPT !.ser[a.f].list = [i \in 1..Len(@) |-> [@[i] EXCEPT !.s = IF @ = 0 THEN 0 ELSE IF st.ser[a.f].list[i].no <= a.cut THEN 1 ELSE 2]]]
      [] a.do = "bounds" -> [st EXCEPT !.ser[a.f].set = a.set]
      [] a.do = "fail" -> st                                                                          \* a run that fails changes nothing
      [] a.do = "restart" -> st                                                                       \* new processes
      [] a.do = "oldformat" -> [st EXCEPT !.map[a.f].cols = [i \in 1..Len(@) |-> [@[i] EXCEPT !.plain = TRUE]]]                                       \* the file as older versions wrote it
      [] a.do = "oldseries" -> [st EXCEPT !.ser[a.f].set.percent = "none"]
      [] a.do = "forget" -> [st EXCEPT !.map[a.f] = NoMap, !.upto[a.f] = FALSE, !.ser[a.f] = NoSeries, !.fit[a.f] = NoFit]

(* -- what the design guarantees ----------------------------------------------------- *)
Ascending1(list) == \A i \in 1..Len(list) - 1 : list[i].no < list[i + 1].no
Sorted(st) == \A f \in DOMAIN st.src : Ascending1(st.map[f].cols) /\ Ascending1(st.ser[f].list)
(* a mapping run completes the file and touches no column *)
Completes(st, f) == LET t == Mapped(st, f)
                    IN /\ Numbers(t.map[f].cols) = Numbers(st.map[f].cols) \union Numbers(st.src[f])
                       /\ \A i \in 1..Len(st.map[f].cols) : \E j \in 1..Len(t.map[f].cols) : t.map[f].cols[j] = st.map[f].cols[i]
(* once more changes nothing *)
Again(st, f, good(_, _)) == /\ Mapped(Mapped(st, f), f) = Mapped(st, f)
                            /\ LET s == SeriesSet(st, f, LAMBDA e : good(f, e))
                               IN Len(st.src[f]) = 0 \/ SeriesSet(s, f, LAMBDA e : good(f, e)) = s
(* the order in which two floats are served does not matter, whatever is done for each *)
Commutes(st, f, g, good(_, _)) ==
    f = g \/ \A v, w \in {"map", "series", "fit"} :
                 (Runnable(st, v, f) /\ Runnable(st, w, g)) => Program(Program(st, v, f, good), w, g, good) = Program(Program(st, w, g, good), v, f, good)
(* nor how a source is split over runs, while nothing else changes *)
Splits(st, f) == \A k \in 0..Len(st.src[f]) :
                    LET part == Mapped([st EXCEPT !.src[f] = SubSeq(@, 1, k)], f)
                    IN Mapped([part EXCEPT !.src[f] = st.src[f]], f) = Mapped(st, f)
(* every profile has a series number after the series are set, and only profiles without data get 0 anew *)
Numbered(st, f, good(_, _)) ==
    LET s == SeriesSet(st, f, LAMBDA e : good(f, e)).ser[f].list
        o == st.ser[f].list
    IN Len(st.src[f]) > 0 =>
       /\ Numbers(s) = Numbers(o) \union Numbers(st.src[f])
       /\ \A i \in 1..Len(s) : LET n == s[i].no IN
            /\ (n \in Numbers(st.src[f]) /\ ~good(f, Entry(st.src[f], n))) => s[i].s = 0
            /\ (n \in Numbers(o) /\ (n \notin Numbers(st.src[f]) \/ good(f, Entry(st.src[f], n)))) => s[i].s = Entry(o, n).s
            /\ (st.ser[f].there => s[i].s \in {o[j].s : j \in 1..Len(o)} \union {0})
=============================================================================

----------------------------- MODULE WorkflowGen -----------------------------
(* Histories of Workflow for replay: TLC simulates, and every behaviour that reaches the wanted length is written  *)
(* out once.  Param("focus") chooses which actions are frequent: first a kind of action is drawn, then the action. *)
EXTENDS Workflow, Num
VARIABLES st, hist, kind
Floats == IF Param("floats") = 1 THEN {"a"} ELSE {"a", "b"}
Nos == 1..4
Vers == 1..2
GoodG(f, e) == TRUE
RECURSIVE Lists(_)
Lists(S) == {<<>>} \union UNION {{<<[no |-> n, ver |-> v]>> \o l : l \in Lists(S \ {n})} : n \in S, v \in Vers}
AllLists == TLCEval(Lists(Nos))
OfLength(n) == {l \in AllLists : Len(l) = n}
B(lt, gt, plt, pgt, mx, part) == [max |-> mx, breaks |-> <<>>, theta_lt |-> lt, theta_gt |-> gt, pres_lt |-> plt, pres_gt |-> pgt, percent |-> part]
Broken(mx, breaks) == [B(<<>>, <<>>, <<>>, <<>>, mx, "0.5") EXCEPT !.breaks = breaks]           \* prescribed breaks, also inconsistent ones
SomeBounds == {B(<<>>, <<>>, <<>>, <<>>, <<1>>, "0.5"), B(<<12>>, <<>>, <<>>, <<>>, <<0>>, "0.25"), B(<<5, 9>>, <<>>, <<>>, <<>>, <<1>>, "0.5"), B(<<>>, <<2, 4>>, <<>>, <<100>>, <<2, 1>>, "0.7"),
               B(<<>>, <<>>, <<1900, 1950, 1990>>, <<50>>, <<4>>, "0.5"), B(<<14>>, <<3>>, <<1500>>, <<1, 2>>, <<-1>>, "0.1"), B(<<>>, <<>>, <<1200>>, <<>>, <<0, 1>>, "0.5"),
               B(<<10>>, <<>>, <<>>, <<>>, <<3>>, "0.9"),
               Broken(<<1>>, <<<<2>>>>), Broken(<<2>>, <<<<2, 3>>>>), Broken(<<1>>, <<<<1, 3>>>>), Broken(<<1, 1>>, <<<<2>>, <<4>>>>), Broken(<<2>>, <<<<2>>, <<3>>>>)}
W(n, k) == [i \in 1..n |-> k]
Size == [one |-> 1, two |-> 2, three |-> 3, four |-> 4]
Sources(n) == W(n, "one") \o W(n, "two") \o W(n, "three") \o W(n, "four")          \* a source, by its number of profiles
Weights == CASE Param("focus") = 1 -> Sources(2) \o W(9, "map") \o <<"both", "both", "config", "clim", "oldformat", "forget", "restart">>                        \* C01
             [] Param("focus") = 2 -> Sources(1) \o W(8, "map") \o W(4, "config") \o W(3, "clim") \o W(2, "oldformat")                               \* C02
             [] Param("focus") = 4 -> Sources(1) \o W(4, "map") \o W(7, "both") \o W(3, "clim") \o <<"config", "series", "series", "series", "forget">> \o W(5, "fit")     \* C04
             [] Param("focus") = 15 -> Sources(2) \o W(9, "series") \o W(4, "edit") \o W(3, "bounds") \o <<"restart", "forget", "oldseries">>                     \* C15
             [] Param("focus") = 19 -> Sources(1) \o W(4, "map") \o W(3, "series") \o W(6, "fit") \o <<"both", "both", "edit", "bounds", "clim", "config", "oldseries">>     \* C19
             [] Param("focus") = 20 -> Sources(1) \o W(4, "map") \o W(3, "series") \o W(6, "fit") \o W(9, "fail") \o <<"clim", "config", "restart", "edit", "both", "both", "both">> \* C20
Of(k) == CASE k \in DOMAIN Size -> {[do |-> "source", f |-> f, list |-> l] : f \in Floats, l \in OfLength(Size[k])}
           [] k = "clim" -> {[do |-> k, v |-> v] : v \in 1..3 \ {st.clim}}
           [] k = "config" -> {[do |-> k, v |-> v] : v \in 1..3 \ {st.cfg}}
           [] k \in {"map", "series", "fit", "oldformat", "oldseries", "forget"} -> {[do |-> k, f |-> f] : f \in Floats}
           [] k = "both" -> IF Param("floats") = 1 THEN {} ELSE {[do |-> k, a |-> v, b |-> w] : v, w \in IF Param("focus") = 1 THEN {"map"} ELSE {"map", "series", "fit"}}
           [] k = "restart" -> {[do |-> k]}
           [] k = "edit" -> {[do |-> k, f |-> f, cut |-> n] : f \in Floats, n \in Nos}
           [] k = "bounds" -> {[do |-> k, f |-> f, set |-> b] : f \in Floats, b \in SomeBounds}
           [] k = "fail" -> {[do |-> k, f |-> f, what |-> w] : f \in Floats, w \in {"map", "map", "series", "fit"}}
(* what the operator does twice in a row, for the same float, the first time is in vain *)
Touches(a, f) == a.do = "both" \/ ("f" \in DOMAIN a /\ a.f = f)
DoOf(a, f) == IF a.do = "both" THEN a[f] ELSE a.do
LastOf(f) == LET t == {i \in 1..Len(hist) : Touches(hist[i], f)}
             IN IF t = {} THEN "none" ELSE DoOf(hist[CHOOSE i \in t : \A j \in t : j <= i], f)
Thrice(f) == LET t == SelectSeq(hist, LAMBDA a : Touches(a, f))  n == Len(t) IN n > 1 /\ DoOf(t[n], f) = DoOf(t[n - 1], f)
Vain(a) == IF a.do \in {"map", "series", "fit", "both"} THEN \E r \in Runs(a) : LastOf(r[1]) = r[2] /\ Thrice(r[1]) ELSE IF a.do \in {"source", "bounds", "edit", "oldformat", "oldseries", "forget"} THEN LastOf(a.f) = a.do
           ELSE a.do \in {"clim", "config", "restart"} /\ Len(hist) > 0 /\ hist[Len(hist)].do = a.do
Init == st = Start(Floats) /\ hist = <<>> /\ kind = <<>>
Choose == kind = <<>> /\ Len(hist) < Param("length") /\ \E j \in 1..Len(Weights) : kind' = <<Weights[j], j>> /\ UNCHANGED <<st, hist>>
Act == /\ kind # <<>> /\ Len(hist) < Param("length")
       /\ LET can == {a \in Of(kind[1]) : Enabled(st, a) /\ ~Vain(a)}
          IN IF can = {} THEN kind' = <<>> /\ UNCHANGED <<st, hist>>
             ELSE \E a \in can : /\ st' = Step(st, a, GoodG)
                                 /\ hist' = Append(hist, a)
                                 /\ kind' = <<>>
End == Len(hist) = Param("length") /\ kind = <<>> /\ kind' = <<"end">> /\ UNCHANGED <<st, hist>> /\ Emit("H", hist)
Next == Choose \/ Act \/ End
=============================================================================

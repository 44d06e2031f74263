----------------------------- MODULE WorkflowMC -----------------------------
(* All histories of small instances of Workflow, with the guarantees of the design as invariants. *)
EXTENDS Workflow
CONSTANTS Floats, Nos, Vers, Clims, Cfgs, Kinds, Progs
VARIABLES st, last

GoodMC(f, e) == ~(e.no = 2 /\ e.ver = 1)
RECURSIVE Lists(_)
(* every order of every subset of the numbers, each in every version *)
Lists(S) == {<<>>} \union UNION {{<<[no |-> n, ver |-> v]>> \o l : l \in Lists(S \ {n})} : n \in S, v \in Vers}
AllLists == TLCEval(Lists(Nos))
Bounds1 == [DefaultSet EXCEPT !.theta_lt = <<5, 9>>, !.pres_gt = <<200>>, !.max = <<1>>]
Of(k) == CASE k = "source" -> {[do |-> k, f |-> f, list |-> l] : f \in Floats, l \in AllLists}
           [] k = "clim" -> {[do |-> k, v |-> v] : v \in Clims}
           [] k = "config" -> {[do |-> k, v |-> v] : v \in Cfgs}
           [] k \in {"map", "series", "fit", "oldformat", "oldseries", "forget"} -> {[do |-> k, f |-> f] : f \in Floats}
           [] k = "both" -> {[do |-> k, a |-> v, b |-> w] : v, w \in Progs}
           [] k = "edit" -> {[do |-> k, f |-> f, cut |-> n] : f \in Floats, n \in Nos}
           [] k = "bounds" -> {[do |-> k, f |-> f, set |-> Bounds1] : f \in Floats}
           [] k = "fail" -> {[do |-> k, f |-> f, what |-> w] : f \in Floats, w \in {"map", "series", "fit"}}
Init == st = Start(Floats) /\ last = "start"
Next == \E k \in Kinds : \E a \in Of(k) :
            /\ Enabled(st, a)
            /\ st' = Step(st, a, GoodMC)
            /\ last' = a.do
View == st
InvSorted == Sorted(st)
InvCompletes == \A f \in Floats : Completes(st, f)
InvAgain == \A f \in Floats : Again(st, f, GoodMC)
InvCommutes == \A f, g \in Floats : Commutes(st, f, g, GoodMC)
InvSplits == \A f \in Floats : Splits(st, f)
InvNumbered == \A f \in Floats : Numbered(st, f, GoodMC)
(* a fit that is there was made from files that were there *)
InvFit == \A f \in Floats : st.fit[f].there => st.fit[f].map.there /\ st.fit[f].ser.there /\ Len(st.fit[f].src) > 0
(* nothing but forgetting ever changes or removes a mapped column, and other floats are left alone *)
Frozen == [][last' # "forget" => \A f \in Floats : \A i \in 1..Len(st.map[f].cols) : \E j \in 1..Len(st'.map[f].cols) : st'.map[f].cols[j] = st.map[f].cols[i]]_<<st, last>>
=============================================================================

------------------------------ MODULE Windows ------------------------------
(***************************************************************************)
(* The windows (figures) of one process while diagnostic plots are made.    *)
(* Plotting a float draws its kinds of figure one after the other; each is   *)
(* drawn into a window and then saved to the file of that float and kind.    *)
(* Windows stay open until somebody closes them, and the user may have       *)
(* windows of his own.  Shared names the kinds that draw into the window     *)
(* that happens to be the current one: with an empty Shared every saved file *)
(* shows its own float and kind only, whatever was open before.              *)
(***************************************************************************)
EXTENDS Num
CONSTANTS Floats, Kinds, Shared, Longest, Report
VARIABLES open,      \* contents of the open windows, the current one last
          saved,     \* what each saved file shows: <<float, kind>> -> contents
          history,   \* the operations so far
          job        \* the kinds still to be drawn for the float being plotted
vars == <<open, saved, history, job>>

Init == open = <<>> /\ saved = <<>> /\ history = <<>> /\ job = <<>>
Idle == job = <<>>
CloseAll == Idle /\ open' = <<>> /\ history' = Append(history, "close") /\ UNCHANGED <<saved, job>>
Own == Idle /\ open' = Append(open, {<<"own", "own">>}) /\ history' = Append(history, "own") /\ UNCHANGED <<saved, job>>
Plot(f) == Idle /\ job' = [k \in 1..Len(Kinds) |-> <<f, Kinds[k]>>] /\ history' = Append(history, f) /\ UNCHANGED <<open, saved>>
Draw ==
    /\ ~Idle
    /\ LET item == Head(job)
           reuse == item[2] \in Shared /\ open # <<>>
           shown == IF reuse THEN open[Len(open)] \union {item} ELSE {item}
       IN /\ open' = IF reuse THEN [open EXCEPT ![Len(open)] = shown] ELSE Append(open, shown)
          /\ saved' = SelectSeq(saved, LAMBDA s : s[1] # item) \o << <<item, shown>> >>
    /\ job' = Tail(job)
    /\ UNCHANGED history
Done == Idle /\ Len(history) > 0 /\ history[Len(history)] \in Floats /\ (Report => Emit("H", history)) /\ UNCHANGED vars
Next == \/ Len(history) < Longest /\ (CloseAll \/ Own \/ \E f \in Floats : Plot(f))
        \/ Draw
        \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Draw)

OwnContentOnly == \A i \in 1..Len(saved) : saved[i][2] = {saved[i][1]}
(* every plotted float gets all its files *)
Complete == \A f \in Floats : Idle /\ (\E i \in 1..Len(history) : history[i] = f) =>
               \A k \in 1..Len(Kinds) : \E i \in 1..Len(saved) : saved[i][1] = <<f, Kinds[k]>>
Finishes == []<>Idle
=============================================================================

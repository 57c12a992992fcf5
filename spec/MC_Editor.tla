------------------------------ MODULE MC_Editor ------------------------------
(***************************************************************************)
(* What the editor guarantees, over every sequence of keys within bounds:   *)
(* C12 (the cursor), C13 (the walk), C14 (an inline view always exists).    *)
(*   sub    the lines submitted so far, as they were on the screen          *)
(*   shown  the recorded lines that the walk has shown, by their identity   *)
(***************************************************************************)
EXTENDS Editor, FiniteSets
CONSTANTS KeySet, Length, MaxSubmit, MaxOther, SavedLines, Cap
VARIABLES e, hist, next, sub, others
vars == <<e, hist, next, sub, others>>
AllKeys == {"a", "(", ")", "bs", "del", "left", "right", "c-left", "c-right", "home", "end", "c-n", "up", "down"}
WalkKeys == {"a", "bs", "up", "down"}
Init == /\ hist = [i \in 1..SavedLines |-> [id |-> i, text |-> "(" \o ToString(i)]]
        /\ next = SavedLines + 1 /\ e = NewEditor(SavedLines) /\ sub = <<>> /\ others = 0
Add(text) == /\ hist' = LET h == Append(hist, [id |-> next, text |-> text]) IN IF Len(h) > Cap THEN Tail(h) ELSE h
             /\ next' = next + 1
Press(k) == /\ e' = Key(e, k, hist) /\ Len(Text(e')) <= Length /\ UNCHANGED <<hist, next, sub, others>>
Enter == /\ Len(sub) < MaxSubmit /\ e' = Submitted(e) /\ Add(Text(e)) /\ sub' = Append(sub, Text(e)) /\ UNCHANGED others
Other == /\ others < MaxOther /\ Add("other") /\ others' = others + 1 /\ UNCHANGED <<e, sub>>
Next == Enter \/ Other \/ \E k \in KeySet : Press(k)
Spec == Init /\ [][Next]_vars

\* C13: what the walk shows without edits is what was submitted here, newest first, then what had been saved, newest first and without gaps;
\* never anything that another session saved since
Saved(i) == "(" \o ToString(SavedLines + 1 - i)
WalkTrue == /\ e.own = sub
            /\ \A i \in DOMAIN e.loaded : e.loaded[i] = Saved(i)
            /\ \A i \in 1..Len(sub) : Recorded(e, i) = sub[Len(sub) + 1 - i]
\* C14: for every width there is a view that shows the cursor truthfully
Widths == 5..9
ViewExists == \A cols \in Widths : LET t == Text(e) IN
    \E c \in 2..(cols - 1) : LET off == e.pos - (c - 2) IN
        off >= 0 /\ \E x \in e.pos..Len(t) :
            LET row == (IF off = 0 THEN "# " ELSE "< ") \o Sub(t, off + 1, x) \o (IF x < Len(t) THEN " >" ELSE "")
            IN ShowsPart(RTrim(row), c, t, e.pos, cols)
Inv == EditorOk(e) /\ WalkTrue /\ ViewExists
\* C12: a key that is not a submission changes at most the line it is pressed in; movements change no text
Moves == {"left", "right", "c-left", "c-right", "home", "end", "c-n", "up", "down"}
Steps == [][ sub' = sub => \A i \in 1..(Len(e.own) + Len(e.loaded)) \cup {0} : i # e.at => TextAt(e', i) = TextAt(e, i) ]_vars
Kept == [][ Len(Text(e')) \in {0, Len(Text(e)) - 1, Len(Text(e)), Len(Text(e)) + 1} \/ e'.at # e.at ]_vars
Bounded == Len(Text(e)) <= Length
=============================================================================

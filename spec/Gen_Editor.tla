------------------------------ MODULE Gen_Editor -----------------------------
(***************************************************************************)
(* Enumerates behaviours of the editor for replaying on the real program:   *)
(* from every state within the bounds, every key, reached by a shortest     *)
(* path.  In the environment: KEYS (one per row of a file), STEPS the       *)
(* longest path, LENGTH the longest line, SAVED how many lines were saved   *)
(* before.  "enter" submits, "other" is a line that another session saves,  *)
(* which evicts the oldest one where CAP lines are there.                   *)
(***************************************************************************)
EXTENDS Editor, Json, IOUtils

Alphabet == LET r == ndJsonDeserialize(IOEnv.KEYS) IN {r[i] : i \in DOMAIN r}
Steps == atoi(IOEnv.STEPS)
Length == atoi(IOEnv.LENGTH)
SavedLines == atoi(IOEnv.SAVED)
Cap == atoi(IOEnv.CAP)

VARIABLES e, hist, next, path
vars == <<e, hist, next, path>>
Init == /\ hist = [i \in 1..SavedLines |-> [id |-> i, text |-> "(" \o ToString(i) \o ")"]]
        /\ next = SavedLines + 1 /\ e = NewEditor(SavedLines) /\ path = <<>>
Add(text) == /\ hist' = LET h == Append(hist, [id |-> next, text |-> text]) IN IF Len(h) > Cap THEN Tail(h) ELSE h
             /\ next' = next + 1
Go(k) == /\ path' = Append(path, k) /\ PrintT(ToJson([path |-> path']))
Press(k) == /\ e' = Key(e, k, hist) /\ Len(Text(e')) <= Length /\ UNCHANGED <<hist, next>> /\ Go(k)
Enter == /\ e' = Submitted(e) /\ Add(Text(e)) /\ Go("enter")
Other == /\ Add("7") /\ UNCHANGED e /\ Go("other")
Next == /\ Len(path) < Steps
        /\ \E k \in Alphabet : IF k = "enter" THEN Enter ELSE IF k = "other" THEN Other ELSE Press(k)
Spec == Init /\ [][Next]_vars
View == <<e, [i \in DOMAIN hist |-> hist[i].id]>>
Sound == EditorOk(e)
=============================================================================

------------------------------- MODULE MC_Store ------------------------------
(***************************************************************************)
(* Every transaction on the tables does what Store says, on all reachable   *)
(* contents within the bounds.                                              *)
(***************************************************************************)
EXTENDS LinkedStore, TLC
CONSTANTS Texts, Names, Caps, MaxId
VARIABLES st, ls
vars == <<st, ls>>

V(n) == <<n, "1">>
Init == st = EmptyStore /\ ls = NoRows
\* ids of lines, whether still there or not
Ever == 1..(st.next - 1)
DoRecord == \E t \in Texts : st.next <= MaxId
              /\ LET r == AddInput(ls, t) IN ls' = r.ls /\ r.id = st.next
              /\ st' = Record(st, t)
DoSetCap == \E c \in Caps : st' = SetCap(st, c) /\ ls' = SetMaxSize(ls, c)
DoTouch == \E n \in Names, id \in Ever :
             LET a == Touch(st, n, id) b == TouchRow(ls, n, id)
             IN a.fault = b.fault /\ st' = a.st /\ ls' = b.ls
DoAssign == \E n \in Names, id \in Ever, v \in {"1", "-2"} :
              LET a == Assign(st, n, V(v), id) b == SetVariable(ls, n, V(v), id)
              IN a.fault = b.fault /\ st' = a.st /\ ls' = b.ls
DoPurge == \E n \in Names : st' = Purge(st, n) /\ ls' = ClearVariable(ls, n)
Next == DoRecord \/ DoSetCap \/ DoTouch \/ DoAssign \/ DoPurge
Spec == Init /\ [][Next]_vars

Refines == LET a == Abstract(ls) IN /\ a.hist = st.hist /\ a.cap = st.cap /\ a.vars = st.vars
Inv == WellFormed(ls) /\ StoreOk(st) /\ Refines
\* each action is enabled on both sides with the same outcome (a disagreement would disable it)
Agree == /\ \A n \in Names, id \in Ever : Touch(st, n, id).fault = TouchRow(ls, n, id).fault
         /\ \A n \in Names, id \in Ever : Assign(st, n, V("1"), id).fault = SetVariable(ls, n, V("1"), id).fault
         /\ NewId(ls) = st.next
\* a line is only lost from the old end, and only when the capacity is exceeded
Monotone == [][ /\ \A i \in DOMAIN st.hist : st.hist[i].id \in Ids(st') \/
                       BCmp(BInt(Len(st'.hist)), st'.cap) = 0
                /\ \A i, j \in DOMAIN st.hist : (i < j /\ st.hist[i].id \in Ids(st')) => st.hist[j].id \in Ids(st')
                /\ \A n \in DOMAIN st.vars : n \notin DOMAIN st'.vars =>
                       (st.vars[n].by \notin Ids(st') \/ st'.hist = st.hist) ]_vars
=============================================================================

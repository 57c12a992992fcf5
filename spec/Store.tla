-------------------------------- MODULE Store --------------------------------
(***************************************************************************)
(* The saved data, as its users see it, and the transactions on it:         *)
(*   hist   the retained lines, oldest first, each [id, text]; ids grow     *)
(*   cap    how many lines are retained, as a decimal string                *)
(*   vars   name -> [v, by]: a value, and the id of the line that last      *)
(*          used it                                                         *)
(*   next   the id of the next line                                         *)
(* Every operator below is one transaction: it happens wholly or not at     *)
(* all.  "fault" is the answer where a line that has been evicted already   *)
(* wants to be the last user of a variable.                                 *)
(***************************************************************************)
EXTENDS Rat, FiniteSets, Maps

EmptyStore == [hist |-> <<>>, cap |-> "100", vars |-> <<>>, next |-> 1]
Ids(st) == {st.hist[i].id : i \in DOMAIN st.hist}

\* removes the oldest lines beyond the capacity, and the variables they were the last to use
Evict(st) ==
    LET c == BSmall(st.cap)
        extra == IF c < 0 \/ Len(st.hist) <= c THEN 0 ELSE Len(st.hist) - c
        gone == {st.hist[i].id : i \in 1..extra}
    IN IF extra = 0 THEN st
       ELSE [st EXCEPT !.hist = SubSeq(@, extra + 1, Len(@)),
                       !.vars = Remove(@, {n \in DOMAIN @ : @[n].by \in gone})]

Record(st, text) ==
    Evict([st EXCEPT !.hist = Append(@, [id |-> st.next, text |-> text]), !.next = @ + 1])
SetCap(st, n) == Evict([st EXCEPT !.cap = n])

Ok(st) == [st |-> st, fault |-> FALSE]
Fault(st) == [st |-> st, fault |-> TRUE]
Touch(st, n, id) ==
    IF n \notin DOMAIN st.vars THEN Ok(st)
    ELSE IF id \notin Ids(st) THEN Fault(st)
    ELSE Ok([st EXCEPT !.vars[n].by = id])
Assign(st, n, v, id) ==
    IF id \notin Ids(st) THEN Fault(st)
    ELSE Ok([st EXCEPT !.vars = Put(@, n, [v |-> v, by |-> id])])
Purge(st, n) == [st EXCEPT !.vars = Remove(@, {n})]
Front(st) == IF st.hist = <<>> THEN 0 ELSE st.hist[Len(st.hist)].id

(* ---- what always holds ------------------------------------------------------ *)
StoreOk(st) ==
    /\ BSign(st.cap) > 0
    /\ BCmp(BInt(Len(st.hist)), st.cap) <= 0
    /\ \A i \in 1..(Len(st.hist) - 1) : st.hist[i].id < st.hist[i + 1].id
    /\ \A i \in DOMAIN st.hist : st.hist[i].id < st.next
    /\ \A n \in DOMAIN st.vars : st.vars[n].by \in Ids(st)
=============================================================================

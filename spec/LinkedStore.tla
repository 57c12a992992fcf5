----------------------------- MODULE LinkedStore -----------------------------
(***************************************************************************)
(* The saved data as it is laid out in the tables, and the statements of    *)
(* the program's transactions on them.  `Abstract` maps it to Store; that   *)
(* every transaction does what Store says is checked by MC_Store, and       *)
(* TraceSession applies `WellFormed` and `Abstract` to tables read from     *)
(* real files.                                                              *)
(*   rows   id -> [input, next, prev]       0 stands for NULL               *)
(*   front, back, cap                                                       *)
(*   vars   name -> [numer, denom, by]                                      *)
(***************************************************************************)
EXTENDS Store

NoRows == [rows |-> <<>>, front |-> 0, back |-> 0, cap |-> "100", vars |-> <<>>]
RowIds(ls) == DOMAIN ls.rows

\* the ids from the newest on, following prev; stops where the chain is broken
RECURSIVE Walk(_, _, _)
Walk(ls, id, n) == IF id = 0 \/ id \notin RowIds(ls) \/ n = 0 THEN <<>>
                   ELSE <<id>> \o Walk(ls, ls.rows[id].prev, n - 1)
RECURSIVE WalkNext(_, _, _)
WalkNext(ls, id, n) == IF id = 0 \/ id \notin RowIds(ls) \/ n = 0 THEN <<>>
                       ELSE <<id>> \o WalkNext(ls, ls.rows[id].next, n - 1)
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]

WellFormed(ls) ==
    LET ids == RowIds(ls)
        n == Cardinality(ids)
        down == Walk(ls, ls.front, n + 1)
        up == WalkNext(ls, ls.back, n + 1)
    IN /\ (n = 0) = (ls.front = 0) /\ (n = 0) = (ls.back = 0)
       /\ Len(down) = n /\ {down[i] : i \in DOMAIN down} = ids
       /\ up = Rev(down)
       /\ n > 0 => (ls.rows[ls.front].next = 0 /\ ls.rows[ls.back].prev = 0)
       /\ BSign(ls.cap) > 0
       /\ BCmp(BInt(n), ls.cap) <= 0
       /\ \A v \in DOMAIN ls.vars : ls.vars[v].by \in ids /\ BSign(ls.vars[v].denom) # 0

\* only for well-formed ones
Abstract(ls) ==
    LET order == Rev(Walk(ls, ls.front, Cardinality(RowIds(ls)) + 1))
    IN [hist |-> [i \in DOMAIN order |-> [id |-> order[i], text |-> ls.rows[order[i]].input]],
        cap |-> ls.cap,
        vars |-> [v \in DOMAIN ls.vars |->
                    [v |-> RNorm(ls.vars[v].numer, ls.vars[v].denom), by |-> ls.vars[v].by]]]

(* ---- the statements --------------------------------------------------------- *)
\* DELETE of a row, with ON DELETE CASCADE for the variables.  The other references to a row have
\* no action, so the deletion is an error while any is left.
Refers(ls, id) == \/ ls.front = id \/ ls.back = id
                  \/ \E r \in RowIds(ls) \ {id} : ls.rows[r].next = id \/ ls.rows[r].prev = id
DeleteRow(ls, id) ==
    [ls EXCEPT !.rows = Remove(@, {id}),
               !.vars = Remove(@, {v \in DOMAIN @ : @[v].by = id})]
RECURSIVE Enforce(_)
Enforce(ls) ==
    IF BCmp(BInt(Cardinality(RowIds(ls))), ls.cap) <= 0 THEN ls
    ELSE LET old == ls.back
             new == ls.rows[old].next
             a == [ls EXCEPT !.rows[new].prev = 0]
             b == [a EXCEPT !.back = new]
         IN IF Refers(b, old) THEN Assert(FALSE, "a referenced row would be deleted")
            ELSE Enforce(DeleteRow(b, old))
\* INTEGER PRIMARY KEY: one more than the largest
NewId(ls) == IF RowIds(ls) = {} THEN 1 ELSE 1 + (CHOOSE m \in RowIds(ls) : \A x \in RowIds(ls) : x <= m)
AddInput(ls, text) ==
    LET orig == ls.front
        id == NewId(ls)
        a == [ls EXCEPT !.rows = Put(@, id, [input |-> text, next |-> 0, prev |-> orig])]
        b == [a EXCEPT !.front = id]
        c == IF orig # 0 THEN [b EXCEPT !.rows[orig].next = id] ELSE [b EXCEPT !.back = id]
    IN [ls |-> Enforce(c), id |-> id]
SetMaxSize(ls, n) == Enforce([ls EXCEPT !.cap = n])
TouchRow(ls, n, id) ==
    IF n \notin DOMAIN ls.vars THEN [ls |-> ls, fault |-> FALSE]
    ELSE IF id \notin RowIds(ls) THEN [ls |-> ls, fault |-> TRUE]
    ELSE [ls |-> [ls EXCEPT !.vars[n].by = id], fault |-> FALSE]
SetVariable(ls, n, v, id) ==
    IF id \notin RowIds(ls) THEN [ls |-> ls, fault |-> TRUE]
    ELSE [ls |-> [ls EXCEPT !.vars = Put(@, n, [numer |-> v[1], denom |-> v[2], by |-> id])], fault |-> FALSE]
ClearVariable(ls, n) == [ls EXCEPT !.vars = Remove(@, {n})]
=============================================================================

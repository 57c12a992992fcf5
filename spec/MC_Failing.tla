------------------------------ MODULE MC_Failing -----------------------------
(***************************************************************************)
(* Why an operation on the disk that fails damages nothing: what a          *)
(* transaction has written is taken back from the journal, and the journal  *)
(* is only removed when all of that has worked; otherwise the next start    *)
(* does it.  Every write, sync or removal may fail, a write also half done. *)
(*   db      the pages: a number, or Torn                                   *)
(*   jr      the journal: none, or hdr ("no", "yes": its records count) and *)
(*           recs, the pages' former values (Torn: not completely written)  *)
(*   old,new the pages before and after the transaction                     *)
(*   pc      what comes next; todo: the pages that it still has to do       *)
(*   said    what the session has been told: "", "done", "failed"           *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
CONSTANTS Pages, Txns, Careful, Fails
VARIABLES db, jr, old, new, pc, todo, said, n, fails
vars == <<db, jr, old, new, pc, todo, said, n, fails>>

Torn == 1000
None == [hdr |-> "no", recs |-> <<>>, there |-> FALSE]
Zero == [p \in Pages |-> 0]
Init == /\ db = Zero /\ jr = None /\ old = Zero /\ new = Zero /\ pc = "idle" /\ todo = {} /\ said = "" /\ n = 0 /\ fails = 0

MayFail == fails < Fails
Fail == fails' = fails + 1
Works == fails' = fails
Begin == /\ pc = "idle" /\ n < Txns /\ n' = n + 1 /\ old' = db
         /\ \E s \in SUBSET Pages : s # {} /\ new' = [p \in Pages |-> IF p \in s THEN n' ELSE db[p]]
         /\ said' = "" /\ pc' = "journal" /\ todo' = {} /\ Works /\ UNCHANGED <<db, jr>>
Changed == {p \in Pages : new[p] # old[p]}
\* the records, the sync, the header and its sync
Journal == /\ pc = "journal"
           /\ \/ Works /\ jr' = [there |-> TRUE, hdr |-> "yes", recs |-> [p \in Changed |-> old[p]]] /\ pc' = "write" /\ todo' = Changed
              \/ MayFail /\ Fail /\ pc' = "undo" /\ todo' = {}
                 \* the records come first: a header that counts has all of them
                 /\ \/ jr' = None
                    \/ \E s \in SUBSET Changed : jr' = [there |-> TRUE, hdr |-> "no", recs |-> [p \in Changed |-> IF p \in s THEN old[p] ELSE Torn]]
                    \/ jr' = [there |-> TRUE, hdr |-> "yes", recs |-> [p \in Changed |-> old[p]]]
           /\ UNCHANGED <<db, old, new, said, n>>
Write == /\ pc = "write" /\ todo # {}
         /\ \E p \in todo :
              \/ Works /\ db' = [db EXCEPT ![p] = new[p]] /\ todo' = todo \ {p} /\ pc' = pc
              \/ MayFail /\ Fail /\ (\E x \in {db[p], Torn, new[p]} : db' = [db EXCEPT ![p] = x]) /\ todo' = Changed /\ pc' = "undo"
         /\ UNCHANGED <<jr, old, new, said, n>>
\* the tables are synced, then the journal is removed
Commit == /\ pc = "write" /\ todo = {}
          /\ \/ Works /\ jr' = None /\ pc' = "idle" /\ said' = "done" /\ todo' = {}
             \/ MayFail /\ Fail /\ UNCHANGED <<jr, said>> /\ pc' = "undo" /\ todo' = Changed
          /\ UNCHANGED <<db, old, new, n>>
Counts == jr.there /\ jr.hdr = "yes"
Undo == /\ pc = "undo" /\ todo # {} /\ Counts
        /\ \E p \in todo :
             \/ Works /\ db' = [db EXCEPT ![p] = jr.recs[p]] /\ todo' = todo \ {p} /\ UNCHANGED <<pc, said>>
             \/ /\ MayFail /\ Fail /\ (\E x \in {db[p], Torn} : db' = [db EXCEPT ![p] = x])
                /\ IF Careful THEN pc' = "start" /\ said' = "failed" /\ UNCHANGED todo
                   ELSE todo' = todo \ {p} /\ UNCHANGED <<pc, said>>
        /\ UNCHANGED <<jr, old, new, n>>
Undone == /\ pc = "undo" /\ (todo = {} \/ ~Counts)
          /\ \/ Works /\ jr' = None
             \/ MayFail /\ Fail /\ UNCHANGED jr
          /\ pc' = "start" /\ said' = "failed" /\ todo' = {} /\ UNCHANGED <<db, old, new, n>>
\* the next start, on a disk that works again (or another session)
Start == /\ pc = "start"
         /\ db' = (IF Counts THEN [p \in Pages |-> IF p \in DOMAIN jr.recs THEN jr.recs[p] ELSE db[p]] ELSE db)
         /\ jr' = None /\ pc' = "idle" /\ todo' = {} /\ Works /\ UNCHANGED <<old, new, said, n>>
Next == Begin \/ Journal \/ Write \/ Commit \/ Undo \/ Undone \/ Start
Spec == Init /\ [][Next]_vars

Inv == pc = "idle" => /\ said = "done" => db = new
                      /\ said = "failed" => db = old
                      /\ \A p \in Pages : db[p] # Torn
=============================================================================

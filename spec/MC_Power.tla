------------------------------- MODULE MC_Power ------------------------------
(***************************************************************************)
(* How a transaction reaches the disk (a rollback journal that is synced    *)
(* before the tables are changed, and removed to commit), and why a loss of *)
(* power at any point undoes at most the last transaction, also when power  *)
(* is lost again while the saved data are being recovered.                  *)
(*   db, dbd     the pages of the tables: what the program sees, and the    *)
(*               values each page may have on the disk                      *)
(*   jr, jrd     the same for every journal file ever made: hdr says that   *)
(*               its records count, recs are the pages' former values       *)
(*               (Gone: not written)                                        *)
(*   dir, dird   the journal that the directory names (0: none)             *)
(*   hist        the pages after the 1st, 2nd, ... committed transaction    *)
(*   pc          what comes next; w: the pages that are being changed       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Pages, Txns, Losses, Syncs
VARIABLES db, dbd, jr, jrd, dir, dird, hist, pc, w, stamp, losses
vars == <<db, dbd, jr, jrd, dir, dird, hist, pc, w, stamp, losses>>

Gone == 1000
Blank == [hdr |-> FALSE, recs |-> [p \in Pages |-> Gone]]
BlankD == [hdr |-> {FALSE}, recs |-> [p \in Pages |-> {Gone}]]
Zero == [p \in Pages |-> 0]
Init == /\ db = Zero /\ dbd = [p \in Pages |-> {0}] /\ jr = <<>> /\ jrd = <<>> /\ dir = 0 /\ dird = {0}
        /\ hist = <<Zero>> /\ pc = "idle" /\ w = {} /\ stamp = 0 /\ losses = 0

Sync(what) == what \in Syncs
One(f) == [p \in Pages |-> {f[p]}]
SyncedJournal == [jrd EXCEPT ![dir] = [hdr |-> {jr[dir].hdr}, recs |-> One(jr[dir].recs)]]

\* a transaction that changes the pages w
Begin == /\ pc = "idle" /\ stamp < Txns
         /\ \E s \in SUBSET Pages : s # {} /\ w' = s
         /\ stamp' = stamp + 1
         /\ jr' = Append(jr, Blank) /\ jrd' = Append(jrd, BlankD)
         /\ dir' = Len(jr') /\ dird' = dird \cup {dir'}
         /\ pc' = "records" /\ UNCHANGED <<db, dbd, hist, losses>>
Records == /\ pc = "records"
           /\ jr' = [jr EXCEPT ![dir].recs = [p \in Pages |-> IF p \in w THEN db[p] ELSE Gone]]
           /\ jrd' = [jrd EXCEPT ![dir].recs = [p \in Pages |-> IF p \in w THEN @[p] \cup {db[p]} ELSE @[p]]]
           /\ pc' = "sync1" /\ UNCHANGED <<db, dbd, dir, dird, hist, w, stamp, losses>>
\* the journal and the directory
Sync1 == /\ pc = "sync1"
         /\ IF Sync("journal") THEN jrd' = SyncedJournal /\ dird' = {dir} ELSE UNCHANGED <<jrd, dird>>
         /\ pc' = "header" /\ UNCHANGED <<db, dbd, jr, dir, hist, w, stamp, losses>>
Header == /\ pc = "header"
          /\ jr' = [jr EXCEPT ![dir].hdr = TRUE] /\ jrd' = [jrd EXCEPT ![dir].hdr = @ \cup {TRUE}]
          /\ pc' = "sync2" /\ UNCHANGED <<db, dbd, dir, dird, hist, w, stamp, losses>>
Sync2 == /\ pc = "sync2"
         /\ IF Sync("header") THEN jrd' = SyncedJournal ELSE UNCHANGED jrd
         /\ pc' = "write" /\ UNCHANGED <<db, dbd, jr, dir, dird, hist, w, stamp, losses>>
Write == /\ pc = "write"
         /\ db' = [p \in Pages |-> IF p \in w THEN stamp ELSE db[p]]
         /\ dbd' = [p \in Pages |-> IF p \in w THEN dbd[p] \cup {stamp} ELSE dbd[p]]
         /\ pc' = "sync3" /\ UNCHANGED <<jr, jrd, dir, dird, hist, w, stamp, losses>>
Sync3 == /\ pc = "sync3"
         /\ dbd' = IF Sync("tables") THEN One(db) ELSE dbd
         /\ pc' = "commit" /\ UNCHANGED <<db, jr, jrd, dir, dird, hist, w, stamp, losses>>
Commit == /\ pc = "commit"
          /\ dir' = 0 /\ dird' = dird \cup {0} /\ hist' = Append(hist, db)
          /\ pc' = "idle" /\ w' = {} /\ UNCHANGED <<db, dbd, jr, jrd, stamp, losses>>

\* every unsynced write is on the disk or not, independently
Lose == /\ losses < Losses /\ losses' = losses + 1
        /\ \E d \in [Pages -> 0..Txns], n \in dird :
             /\ \A p \in Pages : d[p] \in dbd[p]
             /\ db' = d /\ dbd' = One(d) /\ dir' = n /\ dird' = {n}
             /\ IF n = 0 THEN UNCHANGED <<jr, jrd>>
                ELSE \E h \in jrd[n].hdr, r \in [Pages -> (0..Txns) \cup {Gone}] :
                       /\ \A p \in Pages : r[p] \in jrd[n].recs[p]
                       /\ jr' = [jr EXCEPT ![n] = [hdr |-> h, recs |-> r]]
                       /\ jrd' = [jrd EXCEPT ![n] = [hdr |-> {h}, recs |-> One(r)]]
        /\ pc' = "start" /\ w' = {} /\ UNCHANGED <<hist, stamp>>
\* the next start: a journal that counts is played back, synced and removed
Start == /\ pc = "start"
         /\ IF dir # 0 /\ jr[dir].hdr
            THEN LET f(p) == IF jr[dir].recs[p] = Gone THEN db[p] ELSE jr[dir].recs[p] IN
                 /\ db' = [p \in Pages |-> f(p)]
                 /\ dbd' = [p \in Pages |-> dbd[p] \cup {f(p)}]
            ELSE UNCHANGED <<db, dbd>>
         /\ pc' = "resync" /\ UNCHANGED <<jr, jrd, dir, dird, hist, w, stamp, losses>>
Resync == /\ pc = "resync" /\ dbd' = (IF Sync("tables") THEN One(db) ELSE dbd)
          /\ pc' = "remove" /\ UNCHANGED <<db, jr, jrd, dir, dird, hist, w, stamp, losses>>
Undone == Len(hist) > 1 /\ db = hist[Len(hist) - 1]
Removed == /\ pc = "remove" /\ dir' = 0 /\ dird' = dird \cup {0}
           \* what was found is what there is from now on
           /\ hist' = IF db # hist[Len(hist)] /\ Undone THEN SubSeq(hist, 1, Len(hist) - 1) ELSE hist
           /\ pc' = "idle" /\ UNCHANGED <<db, dbd, jr, jrd, w, stamp, losses>>
Next == Begin \/ Records \/ Sync1 \/ Header \/ Sync2 \/ Write \/ Sync3 \/ Commit \/ Lose \/ Start \/ Resync \/ Removed
Spec == Init /\ [][Next]_vars

Inv == /\ pc = "idle" => db = hist[Len(hist)]
       \* after a loss: as after the last transaction, or after the one before it
       /\ pc \in {"resync", "remove"} => (db = hist[Len(hist)] \/ Undone)
=============================================================================

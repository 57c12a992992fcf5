------------------------------- MODULE MC_Bcalc ------------------------------
(***************************************************************************)
(* Sessions on one store, with every interleaving of their transactions,    *)
(* and (with Crashes > 0) a kill between any two of them.                   *)
(*   st, ses   as in Session; a session that is not running is not in ses   *)
(*   rec       what was ever recorded: [s, text, id]                        *)
(*   sub       per session name, what was ever submitted                    *)
(*   ans       per session name, how many lines were answered               *)
(***************************************************************************)
EXTENDS Session
CONSTANTS Names, LinesOf, PerSession, Crashes, Cap
VARIABLES st, ses, rec, sub, ans, crashes
vars == <<st, ses, rec, sub, ans, crashes>>

\* alphabets of lines
Mixed == {"$a = 1", "$a", "1", "/histcap 1", "/reloadvar $a", "/purgevar $a"}
Small == {"$a = 1", "$a + $b", "/histcap 1", "/histcap 3"}

Init == /\ st = [EmptyStore EXCEPT !.cap = Cap]
        /\ ses = [s \in Names |-> NewSession(DefaultCfg, st)]
        /\ rec = <<>> /\ sub = [s \in Names |-> <<>>] /\ ans = [s \in Names |-> 0] /\ crashes = 0
Start(s) == /\ s \notin DOMAIN ses
            /\ ses' = Put(ses, s, NewSession(DefaultCfg, st))
            /\ UNCHANGED <<st, rec, sub, ans, crashes>>
Enter(s, t) == /\ s \in DOMAIN ses /\ ses[s].ph = "idle" /\ Len(sub[s]) < PerSession
               /\ ses' = [ses EXCEPT ![s] = Submit(@, t)]
               /\ sub' = [sub EXCEPT ![s] = Append(@, t)]
               /\ UNCHANGED <<st, rec, ans, crashes>>
Step(s) == /\ s \in DOMAIN ses
           /\ \E x \in StepsOf(st, ses[s], RZero) :
                /\ st' = x.st /\ ses' = [ses EXCEPT ![s] = x.s]
                /\ rec' = IF ses[s].ph = "record" THEN Append(rec, [s |-> s, text |-> ses[s].text, id |-> st.next]) ELSE rec
           /\ UNCHANGED <<sub, ans, crashes>>
Show(s) == /\ s \in DOMAIN ses /\ ses[s].ph = "done"
           /\ ses' = [ses EXCEPT ![s].ph = "idle", ![s].answer = Error, ![s].id = 0, ![s].text = "", ![s].own = <<>>]
           /\ ans' = [ans EXCEPT ![s] = @ + 1]
           /\ UNCHANGED <<st, rec, sub, crashes>>
Kill(s) == /\ crashes < Crashes /\ s \in DOMAIN ses
           /\ ses' = Remove(ses, {s}) /\ crashes' = crashes + 1
           /\ UNCHANGED <<st, rec, sub, ans>>
Next == \E s \in Names : Start(s) \/ Step(s) \/ Show(s) \/ Kill(s) \/ \E t \in LinesOf : Enter(s, t)
Spec == Init /\ [][Next]_vars

(* ---- C15, C19: the history ---------------------------------------------------- *)
RecOf(s) == SelectSeq(rec, LAMBDA r : r.s = s)
IsPrefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
HistoryIsTail == LET n == Len(st.hist) IN
    /\ n <= Len(rec)
    /\ \A i \in 1..n : LET r == rec[Len(rec) - n + i] IN st.hist[i] = [id |-> r.id, text |-> r.text]
\* each session's lines, each once, in its own order; all that were answered (a killed line may be missing)
OwnOrder == \A s \in Names : LET r == RecOf(s) IN
    IF crashes = 0 THEN IsPrefix([i \in DOMAIN r |-> r[i].text], sub[s])
    ELSE Len(r) <= Len(sub[s])
AnsweredIsRecorded == \A s \in Names : Len(RecOf(s)) >= ans[s]
(* ---- C17: variables -------------------------------------------------------------- *)
\* a line only fails to use a variable when it has been evicted meanwhile
FaultsOnlyWhenEvicted == \A s \in DOMAIN ses :
    (ses[s].ph = "done" /\ ses[s].answer.k = "fault") => ses[s].id \notin Ids(st)
Inv == StoreOk(st) /\ HistoryIsTail /\ OwnOrder /\ AnsweredIsRecorded /\ FaultsOnlyWhenEvicted
\* a variable goes when it is purged or when its last user is evicted, and not otherwise; the history only shrinks at the old end,
\* and only down to the capacity
Lasting == [][ /\ \A n \in DOMAIN st.vars \ DOMAIN st'.vars :
                    st.vars[n].by \notin Ids(st') \/ \E s \in DOMAIN ses : ses[s].ph = "purge" /\ n \in ses[s].pend
               /\ \A i, j \in DOMAIN st.hist : (i < j /\ st.hist[i].id \in Ids(st')) => st.hist[j].id \in Ids(st')
               /\ Ids(st) \subseteq Ids(st') \/ BCmp(BInt(Len(st'.hist)), st'.cap) = 0
               /\ st'.cap # st.cap => \E s \in DOMAIN ses : ses[s].ph = "setcap"
               /\ \A n \in DOMAIN st.vars \cap DOMAIN st'.vars :
                    st.vars[n].v # st'.vars[n].v => \E s \in DOMAIN ses : ses[s].ph = "assign"
               \* C16: a session's own value changes only by its own doing
               /\ \A s \in DOMAIN ses \cap DOMAIN ses' :
                    ses[s].mem # ses'[s].mem => ses[s].ph \in {"load", "assign", "purge", "reload"} ]_vars
=============================================================================

------------------------------ MODULE Gen_Session ----------------------------
(***************************************************************************)
(* Enumerates behaviours of sessions on one store, for replaying on the     *)
(* real program: from every state within the bounds, every action, reached  *)
(* by a shortest path.  LINES (in the environment) is the alphabet, one     *)
(* line per row, STEPS the longest path, SESSIONS how many may be open.     *)
(* Two states are the same if they differ only in the identities of lines   *)
(* and in the texts that are neither the newest line nor a variable's last  *)
(* user.                                                                    *)
(***************************************************************************)
EXTENDS Session, Json, IOUtils

Alphabet == ndJsonDeserialize(IOEnv.LINES)
Steps == atoi(IOEnv.STEPS)
Names == IF IOEnv.SESSIONS = "1" THEN {"p"} ELSE {"p", "q"}

VARIABLES st, ses, path
vars == <<st, ses, path>>

Norm(store) == [n |-> Len(store.hist), cap |-> store.cap,
                vars |-> [v \in DOMAIN store.vars |->
                    <<store.vars[v].v, Cardinality({i \in DOMAIN store.hist : store.hist[i].id > store.vars[v].by})>>]]
View == <<Norm(st), [s \in DOMAIN ses |-> <<ses[s].mem, ses[s].cfg>>]>>

Report(p) == PrintT(ToJson([path |-> p]))
Go(p) == path' = p /\ Report(p)
Open(s) == /\ s \notin DOMAIN ses
           /\ ses' = Put(ses, s, NewSession(DefaultCfg, st))
           /\ Go(Append(path, <<"open", s>>)) /\ UNCHANGED st
End(s) == /\ s \in DOMAIN ses
          /\ ses' = Remove(ses, {s})
          /\ Go(Append(path, <<"end", s>>)) /\ UNCHANGED st
Line(s, t) == /\ s \in DOMAIN ses
              /\ LET r == RunLine(st, ses[s], t, RZero)
                 IN st' = r.st /\ ses' = [ses EXCEPT ![s] = [r.s EXCEPT !.ph = "idle", !.own = <<>>]]
              /\ Go(Append(path, <<"line", s, t>>))
Start == IF "CAP" \in DOMAIN IOEnv THEN [EmptyStore EXCEPT !.cap = IOEnv.CAP] ELSE EmptyStore
Init == st = Start /\ ses = <<>> /\ path = <<>>
Next == /\ Len(path) < Steps
        /\ \E s \in Names : Open(s) \/ End(s) \/ \E i \in DOMAIN Alphabet : Line(s, Alphabet[i])
Spec == Init /\ [][Next]_vars
Sound == StoreOk(st)
=============================================================================

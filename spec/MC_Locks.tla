------------------------------- MODULE MC_Locks ------------------------------
(***************************************************************************)
(* The locks that sessions take on the saved data (those of SQLite with a   *)
(* rollback journal), and why the program's transactions only ever wait.    *)
(* A transaction is of one of these kinds:                                  *)
(*   "imm"   asks for the right to write before it reads (BEGIN IMMEDIATE)  *)
(*   "auto"  a single statement that writes                                 *)
(*   "read"  a single statement that reads                                  *)
(*   "defer" reads first and asks for the right to write later, keeping     *)
(*           the right to read: the one kind that can fail at once          *)
(* lock[s]: none, shared, reserved, pending, exclusive                      *)
(* pc[s]:   idle, begin, read, upgrade, commit, done, failed                *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
CONSTANTS Sessions, Kinds, Rounds
VARIABLES lock, pc, kind, n
vars == <<lock, pc, kind, n>>

Init == /\ lock = [s \in Sessions |-> "none"] /\ pc = [s \in Sessions |-> "idle"]
        /\ kind = [s \in Sessions |-> "read"] /\ n = [s \in Sessions |-> 0]
Others(s) == Sessions \ {s}
CanShare(s) == \A o \in Others(s) : lock[o] \notin {"pending", "exclusive"}
CanReserve(s) == \A o \in Others(s) : lock[o] \notin {"reserved", "pending", "exclusive"}
CanExclude(s) == \A o \in Others(s) : lock[o] = "none"
Set(s, l, p) == lock' = [lock EXCEPT ![s] = l] /\ pc' = [pc EXCEPT ![s] = p] /\ UNCHANGED <<kind, n>>

Begin(s) == /\ pc[s] = "idle" /\ n[s] < Rounds
            /\ \E k \in Kinds : kind' = [kind EXCEPT ![s] = k]
            /\ pc' = [pc EXCEPT ![s] = "begin"] /\ n' = [n EXCEPT ![s] = @ + 1] /\ UNCHANGED lock
\* waits (the busy handler) while it cannot share
Share(s) == /\ pc[s] = "begin" /\ CanShare(s)
            /\ Set(s, "shared", IF kind[s] \in {"read", "defer"} THEN "read" ELSE "upgrade")
ReadDone(s) == /\ pc[s] = "read"
               /\ IF kind[s] = "defer" THEN Set(s, "shared", "upgrade") ELSE Set(s, "none", "idle")
Reserve(s) == /\ pc[s] = "upgrade" /\ CanReserve(s) /\ Set(s, "reserved", "commit")
\* one that has not read anything yet gives its lock back and tries again; one that has cannot, and fails
Refused(s) == /\ pc[s] = "upgrade" /\ ~CanReserve(s)
              /\ IF kind[s] = "defer" THEN Set(s, "none", "failed") ELSE Set(s, "none", "begin")
Pend(s) == pc[s] = "commit" /\ lock[s] = "reserved" /\ Set(s, "pending", "commit")
Exclude(s) == pc[s] = "commit" /\ lock[s] = "pending" /\ CanExclude(s) /\ Set(s, "exclusive", "commit")
Write(s) == pc[s] = "commit" /\ lock[s] = "exclusive" /\ Set(s, "none", "idle")

Step(s) == Begin(s) \/ Share(s) \/ ReadDone(s) \/ Reserve(s) \/ Refused(s) \/ Pend(s) \/ Exclude(s) \/ Write(s)
Next == \E s \in Sessions : Step(s)
Spec == Init /\ [][Next]_vars /\ \A s \in Sessions : WF_vars(Step(s))

OneWriter == \A s, o \in Sessions : s # o =>
    ~(lock[s] \in {"reserved", "pending", "exclusive"} /\ lock[o] \in {"reserved", "pending", "exclusive"})
NoReaderWhileWriting == \A s \in Sessions : lock[s] = "exclusive" => CanExclude(s)
NoFailure == \A s \in Sessions : pc[s] # "failed"
Inv == OneWriter /\ NoReaderWhileWriting /\ NoFailure
\* nobody waits for ever
Progress == <>(\A s \in Sessions : pc[s] = "idle" /\ n[s] = Rounds)
=============================================================================

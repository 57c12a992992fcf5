---------------------------- MODULE TraceSession -----------------------------
(***************************************************************************)
(* Accepts exactly the recorded histories of sessions on one saved data     *)
(* file that Session and Store allow.  Events:                              *)
(*   {"e":"new"}                     another scenario: nothing saved        *)
(*   {"e":"given", db}               ... or tables made by the harness      *)
(*   {"e":"open", s, cfg, db}        a session starts                       *)
(*   {"e":"refused", code, err, db}  a session does not start because of    *)
(*                                   the saved data                         *)
(*   {"e":"unusable", code, err}     ... because of its directory           *)
(*   {"e":"line", s, text, out, db}  a line and its answer, nobody else     *)
(*                                   doing anything meanwhile               *)
(*   {"e":"end", s, db}              a session ends                         *)
(*   {"e":"killed", s, text, db}     killed while answering; db is read     *)
(*                                   after the next start                   *)
(*   {"e":"txn", s, text, db}        one transaction of a session that is   *)
(*                                   answering `text`: any number of steps  *)
(*   {"e":"answer", s, out, db}      that session's answer                  *)
(*   {"e":"round", lines, db}        several sessions answer one line each  *)
(*                                   at the same time: [s, text, out]       *)
(*   {"e":"burst", lines, db}        several sessions answer many lines at  *)
(*                                   the same time; no two lines of the     *)
(*                                   scenario are the same, each session    *)
(*                                   uses its own variables                 *)
(*   {"e":"lost", s, text, begun, db, then}                                 *)
(*                                   what a loss of power at this point     *)
(*                                   (while answering text, if begun) could *)
(*                                   leave, and how a session answers       *)
(*                                   afterwards; it has not really happened *)
(* `db` holds the tables after the event; it may be missing.                *)
(* FOCUS names what is judged: out, says, class, hist, cap, vals, by, power.    *)
(***************************************************************************)
EXTENDS Session, FiniteSetsExt, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
FocusStr == IF "FOCUS" \in DOMAIN IOEnv THEN IOEnv.FOCUS ELSE "out hist cap vals by"
Judges(f) == Contains(FocusStr, f, 1)

\* recent: where the last line began, and what it has led to (only kept when "power" is judged)
VARIABLES l, st, ses, meta, recent
vars == <<l, st, ses, meta, recent>>
CfgOf(r) == [f \in DOMAIN DefaultCfg |-> IF f \in DOMAIN r THEN r[f] ELSE DefaultCfg[f]]

(* ---- tables ---------------------------------------------------------------- *)
IdOf(row) == row[1]
Linked(db) ==
    [rows |-> [id \in {db.rows[i][1] : i \in DOMAIN db.rows} |->
                LET r == db.rows[CHOOSE i \in DOMAIN db.rows : db.rows[i][1] = id]
                IN [input |-> r[2], next |-> r[3], prev |-> r[4]]],
     front |-> db.front, back |-> db.back, cap |-> db.cap,
     vars |-> [n \in {db.vars[i][1] : i \in DOMAIN db.vars} |->
                LET r == db.vars[CHOOSE i \in DOMAIN db.vars : db.vars[i][1] = n]
                IN [numer |-> r[2], denom |-> r[3], by |-> r[4]]]]
PosOf(hist, id) == IF \E i \in DOMAIN hist : hist[i].id = id
                   THEN CHOOSE i \in DOMAIN hist : hist[i].id = id ELSE 0
TextsOf(hist) == [i \in DOMAIN hist |-> hist[i].text]
\* meta: the versions, and what the file held at first that is not this version's to change: it is never lost
RestOf(db) == IF "rest" \in DOMAIN db THEN {db.rest[i] : i \in DOMAIN db.rest} ELSE {}
MetaFits(db) == db.meta = SubSeq(meta, 1, 2) /\ meta[3] \subseteq RestOf(db)
\* do the tables hold what the store does?
DbFits(db, store) ==
    /\ db.bad = <<>>
    /\ MetaFits(db)
    /\ LET ls == Linked(db) IN
       /\ WellFormed(ls)
       /\ LET a == Abstract(ls) IN
          /\ Judges("hist") => TextsOf(a.hist) = TextsOf(store.hist)
          /\ Judges("cap") => a.cap = store.cap
          /\ (Judges("vals") \/ Judges("by")) => DOMAIN a.vars = DOMAIN store.vars
          /\ Judges("vals") => \A n \in DOMAIN a.vars : a.vars[n].v = store.vars[n].v
          /\ Judges("by") => \A n \in DOMAIN a.vars :
                PosOf(a.hist, a.vars[n].by) = PosOf(store.hist, store.vars[n].by)
Fitting(ev, store) == "db" \notin DOMAIN ev \/ DbFits(ev.db, store)
FromDb(db) == LET a == Abstract(Linked(db)) IN [hist |-> a.hist, cap |-> a.cap, vars |-> a.vars, next |-> db.front + 1]
\* what a variable was set to, for values that the specification leaves open
Observed(ev, r) ==
    IF r.t = "val" THEN r.v
    ELSE LET t == Tokens(ev.text, 10)       \* the name is the same in any radix
             name == IF t # <<>> /\ t[1][1] = "var" THEN t[1][2] ELSE ""
             a == Linked(ev.db).vars
         IN IF name \in DOMAIN a THEN RNorm(a[name].numer, a[name].denom) ELSE RZero

(* ---- events ---------------------------------------------------------------- *)
Report(x) == PrintT(ToJson(x))
Check(cond, ev, expected) == IF cond THEN TRUE ELSE Report([reject |-> l, expected |-> expected]) /\ FALSE
Show(store) == [hist |-> TextsOf(store.hist), cap |-> store.cap,
                vars |-> [n \in DOMAIN store.vars |-> <<RText(store.vars[n].v), PosOf(store.hist, store.vars[n].by)>>]]
OutFits(out, s) ==
    /\ Judges("out") => SessionFits(out, s)
    /\ Judges("says") => Truthful(out, SaysOf(s))
    /\ Judges("class") => /\ out # <<>>
                          /\ ~Starts(out[1], "!")
                          /\ IsFault(out) = (s.answer.k = "fault")
                          /\ (s.answer.k = "number" /\ s.answer.r.t = "any")
                             \/ IsError(out) = (s.answer.k \in {"error", "unknown"})
    /\ out # <<>> /\ ~Starts(out[1], "!")

\* the version of the tables, and the oldest version that can use them
CurrentVersion == 1
New(ev) == ev.e = "new" /\ st' = EmptyStore /\ ses' = <<>> /\ meta' = <<CurrentVersion, 1, {}>>
Given(ev) == /\ ev.e = "given" /\ ses' = <<>> /\ meta' = <<ev.db.meta[1], ev.db.meta[2], RestOf(ev.db)>>
             /\ st' = FromDb(ev.db)
Open(ev) ==
    /\ ev.e = "open"
    /\ Check(meta[2] <= CurrentVersion, ev, "refused")
    /\ Check(Fitting(ev, st), ev, Show(st))
    /\ ses' = Put(ses, ev.s, NewSession(CfgOf(ev.cfg), st))
    /\ UNCHANGED <<st, meta>>
Refused(ev) ==
    /\ ev.e = "refused"
    /\ Check(meta[2] > CurrentVersion /\ ev.code # 0 /\ ev.err # <<>>, ev, "refusal with an error")
    /\ Check(Fitting(ev, st), ev, Show(st))
    /\ UNCHANGED <<st, ses, meta>>
Unusable(ev) ==
    /\ ev.e = "unusable"
    /\ Check(ev.code # 0 /\ ev.err # <<>>, ev, "an end with an error")
    /\ UNCHANGED <<st, ses, meta>>
\* the value an assignment with an open result got, from the tables after the line
Choice(ev) ==
    LET s == ses[ev.s]
        t == Tokens(ev.text, s.cfg.radix)
        p == IF BadTokens(t) \/ IsCommand(ev.text) THEN Fail ELSE ParseLine(t)
    IN IF p.ok /\ p.target # "" /\ "db" \in DOMAIN ev THEN Observed(ev, [t |-> "iv"]) ELSE RZero
Line(ev) ==
    /\ ev.e = "line"
    /\ LET v == Choice(ev)
           r == RunLine(st, ses[ev.s], ev.text, v)
       IN /\ Check(OutFits(ev.out, r.s), ev, [answer |-> r.s.answer, says |-> IF Judges("says") THEN SaysOf(r.s) ELSE {}, text |->
                     IF r.s.answer.k = "number" /\ r.s.answer.r.t = "val"
                     THEN NumberText(r.s.answer.r.v, r.s.cfg) ELSE ""])
          /\ Check(Fitting(ev, r.st), ev, Show(r.st))
          /\ st' = r.st
          /\ ses' = [ses EXCEPT ![ev.s] = [r.s EXCEPT !.ph = "idle"]]
          /\ UNCHANGED meta
End(ev) ==
    /\ ev.e = "end"
    /\ Check(Fitting(ev, st), ev, Show(st))
    /\ ses' = Remove(ses, {ev.s}) /\ UNCHANGED <<st, meta>>
Killed(ev) ==
    /\ ev.e = "killed"
    /\ LET S == KillStores(st, ses[ev.s], ev.text, Choice(ev))
           F == {x \in S : Fitting(ev, x)}
       IN /\ Check(F # {}, ev, {Show(x) : x \in S})
          /\ \E x \in F : st' = x
    /\ ses' = Remove(ses, {ev.s}) /\ UNCHANGED meta
\* An operation on the disk has failed: the line is answered as ever (the event is a line), or the session ends with an error,
\* the saved data as a kill between two steps may leave it, and the terminal as it was.
Failed(ev) ==
    /\ ev.e = "failed"
    /\ Check(ev.code # 0 /\ ev.code # -99 /\ ev.err # <<>> /\ Starts(ev.err[1], "Error: ") /\ ev.modes /\ ~ev.inalt, ev, "an end with an error")
    /\ IF ev.s \notin DOMAIN ses THEN UNCHANGED <<st, ses>>     \* it has not started
       ELSE LET S == IF "text" \in DOMAIN ev THEN KillStores(st, ses[ev.s], ev.text, Choice(ev)) ELSE {st}     \* recalling a line
                F == {x \in S : Fitting(ev, x)}
            IN /\ Check(F # {}, ev, {Show(x) : x \in S})
               /\ \E x \in F : st' = x
               /\ ses' = Remove(ses, {ev.s})
    /\ UNCHANGED meta
\* or it is answered with the failure; the step that has failed may or may not have changed what the session knows itself
Faults(p) == {p.s} \cup (CASE p.s.ph = "assign" -> {[p.s EXCEPT !.mem = Put(@, p.s.pend.n, p.s.pend.r)]}
                          [] p.s.ph = "purge" -> {[p.s EXCEPT !.mem = Remove(@, {n})] : n \in p.s.pend}
                          [] OTHER -> {})
Faulted(ev) ==
    /\ ev.e = "faulted"
    /\ Check(IsFault(ev.out), ev, "an answer")
    /\ LET S == {p \in Reach({Next1(st, Submit(ses[ev.s], ev.text))}, Choice(ev)) : p.s.ph # "done"}
           F == {p \in S : Fitting(ev, p.st)}
       IN /\ Check(F # {}, ev, {Show(p.st) : p \in S})
          /\ \E p \in F : \E s \in Faults(p) : st' = p.st /\ ses' = [ses EXCEPT ![ev.s] = [s EXCEPT !.ph = "idle", !.pend = <<>>, !.out = <<>>]]
    /\ UNCHANGED meta
\* A loss of power undoes at most what the last line has changed.
RECURSIVE GoesOn(_, _, _)
GoesOn(x, s, then) ==
    IF then = <<>> THEN TRUE
    ELSE LET r == RunLine(x, s, then[1].text, RZero)
         IN OutFits(then[1].out, r.s) /\ Fitting(then[1], r.st) /\ GoesOn(r.st, [r.s EXCEPT !.ph = "idle"], Tail(then))
Lost(ev) ==
    /\ ev.e = "lost"
    /\ LET S == {st} \cup recent \cup (IF ev.begun THEN KillStores(st, ses[ev.s], ev.text, Choice(ev)) ELSE {})
       IN Check(\E x \in S : Fitting(ev, x) /\ GoesOn(x, NewSession(DefaultCfg, x), ev.then), ev, {Show(x) : x \in S})
    /\ UNCHANGED <<st, ses, meta>>
Recent(ev) == CASE ~Judges("power") -> {}
                [] ev.e \in {"new", "given"} -> {}
                [] ev.e = "line" -> KillStores(st, ses[ev.s], ev.text, Choice(ev))
                [] OTHER -> recent
\* one step of a session among others
Txn(ev) ==
    /\ ev.e = "txn"
    /\ LET s == ses[ev.s]
           s1 == IF s.ph = "idle" THEN Submit(s, ev.text) ELSE s
           \* a transaction may do several steps, or none
           S == Reach({Next1(st, s1)}, Choice(ev))
           F == {x \in S : Fitting(ev, x.st)}
       IN /\ Check(F # {}, ev, [steps |-> {Show(x.st) : x \in S}, phase |-> s1.ph])
          /\ \E x \in F : st' = x.st /\ ses' = [ses EXCEPT ![ev.s] = x.s]
    /\ UNCHANGED meta
Answer(ev) ==
    /\ ev.e = "answer"
    /\ LET S == {x \in Reach({Next1(st, ses[ev.s])}, RZero) : x.s.ph = "done" /\ Fitting(ev, x.st)}
           F == {x \in S : OutFits(ev.out, x.s)}
       IN /\ Check(F # {}, ev, [phase |-> ses[ev.s].ph, answers |-> {x.s.answer : x \in S}])
          /\ \E x \in F : st' = x.st /\ ses' = [ses EXCEPT ![ev.s] = [x.s EXCEPT !.ph = "idle"]]
    /\ UNCHANGED meta

\* all the sessions at once: what the steps in any order lead to
Go(p, v) == UNION {{[st |-> x.st, m |-> [p.m EXCEPT ![s] = x.s]] : x \in StepsOf(p.st, p.m[s], v)} : s \in DOMAIN p.m}
RECURSIVE Closure(_, _)
Closure(new, old) ==
    IF new = {} THEN old
    ELSE LET next == UNION {Go(p, RZero) : p \in new} IN Closure(next \ old, old \cup next)
Round(ev) ==
    /\ ev.e = "round"
    /\ LET names == {ev.lines[i][1] : i \in DOMAIN ev.lines}
           of == [s \in names |-> ev.lines[CHOOSE i \in DOMAIN ev.lines : ev.lines[i][1] = s]]
           start == [st |-> st, m |-> [s \in names |-> Submit(ses[s], of[s][2])]]
           ends == {p \in Closure({start}, {start}) : \A s \in names : p.m[s].ph = "done"}
           F == {p \in ends : (\A s \in names : OutFits(of[s][3], p.m[s])) /\ Fitting(ev, p.st)}
       IN /\ Check(F # {}, ev, {<<Show(p.st), [s \in names |-> p.m[s].answer]>> : p \in ends})
          /\ \E p \in F : /\ st' = p.st
                          /\ ses' = [s \in DOMAIN ses |-> IF s \in names THEN [p.m[s] EXCEPT !.ph = "idle"] ELSE ses[s]]
    /\ UNCHANGED meta
\* one session's lines, as if it had a store without limit for itself
RECURSIVE Alone(_, _, _)
Alone(store, s, lines) ==
    IF lines = <<>> THEN [st |-> store, s |-> s, ok |-> TRUE]
    ELSE LET r == RunLine(store, s, lines[1][1], RZero)
         IN IF OutFits(lines[1][2], r.s) THEN Alone(r.st, [r.s EXCEPT !.ph = "idle"], Tail(lines))
            ELSE [st |-> store, s |-> r.s, ok |-> FALSE]
IsSuffix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, Len(b) - Len(a) + 1, Len(b))
Burst(ev) ==
    /\ ev.e = "burst"
    /\ LET names == {ev.lines[i][1] : i \in DOMAIN ev.lines}
           own == [s \in names |-> ev.lines[CHOOSE i \in DOMAIN ev.lines : ev.lines[i][1] = s][2]]
           texts == [s \in names |-> [i \in DOMAIN own[s] |-> own[s][i][1]]]
           roomy == [st EXCEPT !.cap = "1000000"]
           run == [s \in names |-> Alone(roomy, ses[s], own[s])]
           a == IF ev.db.bad = <<>> /\ WellFormed(Linked(ev.db)) THEN FromDb(ev.db) ELSE EmptyStore
           got == TextsOf(a.hist)
           all == Len(st.hist) + FoldSet(LAMBDA s, n : n + Len(own[s]), 0, names)
           cap == BSmall(st.cap)
           proj(s) == SelectSeq(got, LAMBDA t : t \in Elems(texts[s]))
           base == SelectSeq(got, LAMBDA t : t \in Elems(TextsOf(st.hist)))
           mine == [s \in names |-> {n \in DOMAIN run[s].st.vars : run[s].st.vars[n].by >= st.next}]
           byText(store, n) == store.hist[PosOf(store.hist, store.vars[n].by)].text
       IN /\ Check(\A s \in names : run[s].ok, ev, [s \in {x \in names : ~run[x].ok} |-> run[s].s.answer])
          /\ Check(ev.db.bad = <<>> /\ WellFormed(Linked(ev.db)) /\ MetaFits(ev.db), ev, "consistent tables")
          /\ Check(a.cap = st.cap /\ Len(got) = (IF cap < 0 \/ all <= cap THEN all ELSE cap), ev, "number of lines")
          /\ Check(\A s \in names : IsSuffix(proj(s), texts[s]), ev, "each session's lines in its own order")
          /\ Check(IsSuffix(base, TextsOf(st.hist)) /\ base = SubSeq(got, 1, Len(base)), ev, "earlier lines first")
          /\ Check(base = <<>> \/ \A s \in names : proj(s) = texts[s], ev, "the oldest lines evicted first")
          /\ Check(\A s \in names : \A n \in mine[s] :
                      LET t == byText(run[s].st, n)
                      IN IF t \in Elems(got)
                         THEN n \in DOMAIN a.vars /\ a.vars[n].v = run[s].st.vars[n].v /\ byText(a, n) = t
                         ELSE n \notin DOMAIN a.vars, ev, [s \in names |-> Show(run[s].st).vars])
          /\ st' = a
          /\ ses' = [s \in DOMAIN ses |-> IF s \in names THEN run[s].s ELSE ses[s]]
    /\ UNCHANGED meta

Init == l = 1 /\ st = EmptyStore /\ ses = <<>> /\ meta = <<CurrentVersion, 1, {}>> /\ recent = {}
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET ev == Trace[l]
           IN recent' = Recent(ev) /\ (Lost(ev) \/ Failed(ev) \/ Faulted(ev) \/ New(ev) \/ Given(ev) \/ Open(ev) \/ Refused(ev) \/ Unusable(ev) \/ Line(ev) \/ End(ev) \/ Killed(ev) \/ Txn(ev) \/ Answer(ev) \/ Round(ev) \/ Burst(ev))
Spec == Init /\ [][Next]_vars
Accepted == PrintT(ToJson([accepted |-> TLCGet("stats").diameter - 1, of |-> Len(Trace)]))
=============================================================================

------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* A session on the saved data: how one submitted line is answered in       *)
(* steps, each of which is one transaction on the store, so that sessions   *)
(* can interleave and be killed between any two of them.                    *)
(*                                                                          *)
(* A session is a record                                                    *)
(*   cfg    its settings                                                    *)
(*   mem    its own copies of variables, name -> result                     *)
(*   ph     "idle", or what the next step is:                               *)
(*          "record", "touch", "load", "assign", "purge", "reload",         *)
(*          "getcap", "setcap", or "done" with the answer                   *)
(*   text, id    the line being answered and its id in the store            *)
(*   pend   what is left to do in the phase                                 *)
(*   out    the lines a reload has said so far                              *)
(*   answer                                                                 *)
(*   own    the lines submitted in this session, oldest first               *)
(*   front  the id of the newest saved line when it started (0: none)       *)
(***************************************************************************)
EXTENDS Errors, LinkedStore

HasAll == {"db", "vars"}
NewSession(cfg, st) ==
    [cfg |-> cfg, mem |-> <<>>, ph |-> "idle", text |-> "", id |-> 0, pend |-> <<>>, out |-> <<>>,
     answer |-> Error, own |-> <<>>, front |-> Front(st)]

Done(s, answer) == [s EXCEPT !.ph = "done", !.answer = answer, !.pend = <<>>, !.out = <<>>]
Faulty == [k |-> "fault"]
Submit(s, text) == [s EXCEPT !.ph = "record", !.text = text, !.own = Append(@, text)]

\* evaluates as far as that is possible without the store
Compute(s) ==
    LET t == Tokens(s.text, s.cfg.radix) IN
    IF t = <<>> THEN Done(s, Lines(<<"">>))
    ELSE LET p == ParseLine(t) IN
         IF ~p.ok THEN Done(s, Error)
         ELSE LET r == Eval(p.e, s.mem, Digits(s.cfg), OutRadix(s.cfg)) IN
              IF r.t = "need" THEN [s EXCEPT !.ph = "load", !.pend = r.n]
              ELSE IF r.t = "err" THEN Done(s, Error)
              ELSE IF p.target = "" THEN Done(s, [k |-> "number", r |-> r])
              ELSE [s EXCEPT !.ph = "assign", !.pend = [n |-> p.target, r |-> r]]
\* after the line has been recorded
Dispatch(s) ==
    IF ~IsAscii(s.text, 1) THEN Done(s, Error)
    ELSE IF IsCommand(s.text) THEN
        LET e == CommandEffect(s.text, s.cfg, HasAll) IN
        CASE e.c = "err" \/ e.c = "missing" -> Done(s, Error)
          [] e.c = "unknown" -> Done(s, [k |-> "unknown", name |-> e.name])
          [] e.c = "say" -> Done(s, Lines(e.out))
          [] e.c = "set" -> Done([s EXCEPT !.cfg = e.cfg], Lines(<<"Done">>))
          [] e.c = "help" -> Done(s, [k |-> "help"])
          [] e.c = "helpon" -> Done(s, [k |-> "helpon", name |-> e.name])
          [] e.c = "getcap" -> [s EXCEPT !.ph = "getcap"]
          [] e.c = "setcap" -> [s EXCEPT !.ph = "setcap", !.pend = e.n]
          [] e.c = "purge" -> IF e.vs = {} THEN Done(s, Lines(<<"Done">>))
                              ELSE [s EXCEPT !.ph = "purge", !.pend = e.vs]
          [] e.c = "reload" -> IF e.vs = {} THEN Done(s, Lines(<<"">>))
                               ELSE [s EXCEPT !.ph = "reload", !.pend = e.vs]
    ELSE LET t == Tokens(s.text, s.cfg.radix) IN
         IF BadTokens(t) THEN Done(s, Error)
         ELSE IF VarsOf(t) = {} THEN Compute(s)
         ELSE [s EXCEPT !.ph = "touch", !.pend = VarsOf(t)]

Next1(st, s) == [st |-> st, s |-> s]
\* The possible next steps of a session that is not idle: the set of [st, s].  v is the value that
\* an irrational assignment gets (any value of its interval).
StepsOf(st, s, v) ==
    CASE s.ph = "record" ->
            {Next1(Record(st, s.text), Dispatch([s EXCEPT !.id = st.next]))}
      [] s.ph = "touch" ->
            {LET r == Touch(st, n, s.id)
                 rest == s.pend \ {n}
             IN Next1(r.st, IF r.fault THEN Done(s, Faulty)
                            ELSE IF rest # {} THEN [s EXCEPT !.pend = rest]
                            \* the touches of a reload come last
                            ELSE IF s.out # <<>> THEN Done(s, [k |-> "bag", v |-> s.out])
                            ELSE Compute(s)) : n \in s.pend}
      [] s.ph = "load" ->
            {Next1(st, IF s.pend \in DOMAIN st.vars
                       THEN Compute([s EXCEPT !.mem = Put(@, s.pend, Val(st.vars[s.pend].v))])
                       ELSE Done(s, Error))}
      [] s.ph = "assign" ->
            LET val == IF s.pend.r.t = "val" THEN s.pend.r.v ELSE v
                r == Assign(st, s.pend.n, val, s.id)
                s2 == [s EXCEPT !.mem = Put(@, s.pend.n, Val(val))]
            IN {Next1(r.st, IF r.fault THEN Done(s2, Faulty)
                            ELSE Done(s2, [k |-> "number", r |-> Val(val), of |-> s.pend.r]))}
      [] s.ph = "purge" ->
            {LET rest == s.pend \ {n}
                 s2 == [s EXCEPT !.mem = Remove(@, {n})]
             IN Next1(Purge(st, n), IF rest = {} THEN Done(s2, Lines(<<"Done">>)) ELSE [s2 EXCEPT !.pend = rest])
                : n \in s.pend}
      [] s.ph = "reload" ->
            {LET rest == s.pend \ {n}
                 known == n \in DOMAIN st.vars
                 said == IF known THEN "Set " \o n \o " to " \o RText(st.vars[n].v) ELSE n \o " unchanged"
                 s2 == [s EXCEPT !.mem = IF known THEN Put(@, n, Val(st.vars[n].v)) ELSE @,
                                 !.out = Append(@, said), !.pend = rest]
             IN Next1(st, IF rest # {} THEN s2
                          ELSE [s2 EXCEPT !.ph = "touch", !.pend = CommandEffect(s.text, s.cfg, HasAll).vs])
                : n \in s.pend}
      [] s.ph = "getcap" -> {Next1(st, Done(s, Lines(<<st.cap>>)))}
      [] s.ph = "setcap" -> {Next1(SetCap(st, s.pend), Done(s, Lines(<<"Done">>)))}
      [] OTHER -> {}

\* the whole line, where nobody else does anything meanwhile; then the order of the steps of a phase
\* makes no difference
RECURSIVE RunToDone(_, _, _)
RunToDone(st, s, v) ==
    IF s.ph = "done" THEN Next1(st, s)
    ELSE LET r == CHOOSE x \in StepsOf(st, s, v) : TRUE IN RunToDone(r.st, r.s, v)
RunLine(st, s, text, v) == RunToDone(st, Submit(s, text), v)
\* every store a kill during the line can leave behind
RECURSIVE Reach(_, _)
Reach(P, v) == LET Q == P \cup UNION {StepsOf(p.st, p.s, v) : p \in P} IN IF Q = P THEN P ELSE Reach(Q, v)
KillStores(st, s, text, v) == {p.st : p \in Reach({Next1(st, Submit(s, text))}, v)}

(* ---- does an observed answer fit? -------------------------------------------- *)
Without1(seq, x) == LET i == CHOOSE j \in DOMAIN seq : seq[j] = x
                    IN SubSeq(seq, 1, i - 1) \o SubSeq(seq, i + 1, Len(seq))
RECURSIVE SameBag(_, _)
SameBag(a, b) == IF a = <<>> THEN b = <<>>
                 ELSE (\E j \in DOMAIN b : b[j] = a[1]) /\ SameBag(Tail(a), Without1(b, a[1]))
Elems(seq) == {seq[i] : i \in DOMAIN seq}
\* a value that was chosen for an irrational result has to be a possible one
Within(r, v) == r.t # "iv" \/ (RCmp(r.lo, v) <= 0 /\ RCmp(v, r.hi) <= 0)
\* what an error message may say about the line that s has answered
SaysOf(s) == LineSayings(s.text, s.cfg, s.mem, HasAll)
SessionFits(out, s) ==
  /\ "of" \in DOMAIN s.answer => Within(s.answer.of, s.answer.r.v)
  /\
    CASE s.answer.k = "fault" -> IsFault(out)
      \* a variable named twice may be reloaded and reported twice
      [] s.answer.k = "bag" -> Elems(out) = Elems(s.answer.v)
      [] OTHER -> Fits(out, s.answer, s.cfg, HasAll)
=============================================================================

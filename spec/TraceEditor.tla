----------------------------- MODULE TraceEditor -----------------------------
(***************************************************************************)
(* Accepts exactly the recorded histories of editing that Editor allows, on *)
(* saved data that other sessions use as well (as in TraceSession).         *)
(* Further events:                                                          *)
(*   {"e":"show", s, alt, cols, rows, db?, screen, cur}                     *)
(*              a session has started (after its "open"; without saved data *)
(*              there is none and `cfg` is given here); screen: the rows,   *)
(*              without blanks at their ends and without blank rows at the  *)
(*              bottom; cur: row and column, from 0                         *)
(*   {"e":"keys", s, keys, screen?, cur?}                                   *)
(*   {"e":"size", s, cols, rows, screen, cur}                               *)
(*   {"e":"enter", s, rows, db?, screen?, cur?}                             *)
(*              rows: what was written until the next prompt, one for each  *)
(*              end of line (or `out` if there is no next prompt)           *)
(*   {"e":"ahead", s, keys, rows, db?, screen?, cur?}                       *)
(*              keys, "enter" among them, that were there before the        *)
(*              program asked for them; rows: what was written until the    *)
(*              last prompt                                                 *)
(*   {"e":"exit", s, why, code, err, modes, alt, db?}                       *)
(*              the session ended: why is a key, or "size"; modes: the      *)
(*              terminal modes are what they were; alt: still in the        *)
(*              alternate screen                                            *)
(* FOCUS also has "echo": the submitted line as shown, "screen": all that   *)
(* is seen, "exit": how sessions end                                        *)
(***************************************************************************)
EXTENDS TraceSession, Editor

VARIABLE ed
evars == <<l, st, ses, meta, ed>>
\* an editor, its screen, and (hasdb) whether it has saved data
HistOf(s) == IF ed[s].hasdb THEN st.hist ELSE <<>>

Screened(ev) == "screen" \in DOMAIN ev /\ Judges("screen")
CurOk(ev, r, c) == ev.cur[1] = r /\ ev.cur[2] = c
\* what is above the line after a change, where the line and all below takes n rows
Above(x, n) == LET drop == IF Len(x.above) + n > x.rows THEN Len(x.above) + n - x.rows ELSE 0
               IN IF drop >= Len(x.above) THEN <<>> ELSE SubSeq(x.above, drop + 1, Len(x.above))
\* does the screen show editor e?  -> [ok, above]
Shown(ev, x, e, free) ==
    LET t == Text(e) IN
    IF ~Screened(ev) THEN [ok |-> TRUE, above |-> <<>>]
    ELSE IF ~x.alt THEN
        LET r == ev.cur[1] + 1
            row == IF r <= Len(ev.screen) THEN ev.screen[r] ELSE ""
            above == IF free THEN SubSeq(ev.screen, 1, r - 1) ELSE x.above
        IN [ok |-> /\ r >= 1 /\ Len(ev.screen) <= r
                   /\ ShowsPart(row, ev.cur[2], t, e.pos, x.cols)
                   /\ SubSeq(ev.screen, 1, r - 1) = above,
            above |-> above]
    ELSE
        LET rows == Wrapped(t, x.cols)
            w == x.cols - 2
            cr == e.pos \div w
            n == IF cr >= Len(rows) THEN cr + 1 ELSE Len(rows)
            shown == IF n > Len(rows) THEN Append(rows, "") ELSE rows
            hidden == IF n > x.rows THEN n - x.rows ELSE 0
            \* the rows above are not known after the size has changed
            k == ev.cur[1] - cr
            above == IF free THEN (IF k < 0 \/ hidden > 0 THEN <<>> ELSE SubSeq(ev.screen, 1, IF k < Len(ev.screen) THEN k ELSE Len(ev.screen)))
                     ELSE Above(x, n)
        IN [ok |-> /\ ev.screen = DropBlank(above \o Bottom(shown, x.rows))
                   /\ cr >= hidden => CurOk(ev, Len(above) + cr - hidden, (e.pos % w) + 2),
            above |-> above]
Expect(x, e) == [text |-> Text(e), pos |-> e.pos, above |-> x.above, cols |-> x.cols, rows |-> x.rows, alt |-> x.alt]

Started(ev) ==
    /\ ev.e = "show"
    /\ LET s0 == IF ev.s \in DOMAIN ses THEN ses[ev.s] ELSE NewSession(CfgOf(ev.cfg), EmptyStore)
           x == [alt |-> ev.alt, cols |-> ev.cols, rows |-> ev.rows, above |-> <<>>, hasdb |-> ev.s \in DOMAIN ses]
           e == NewEditor(s0.front)
           r == Shown(ev, x, e, TRUE)
       IN /\ Check(~Narrow(ev.alt, ev.cols), ev, "an end with an error")
          /\ Check(r.ok, ev, Expect(x, e))
          /\ ses' = Put(ses, ev.s, s0)
          /\ ed' = Put(ed, ev.s, Put(Put(x, "e", e), "above", r.above))
    /\ UNCHANGED <<st, meta>>
Pressed(ev) ==
    /\ ev.e = "keys"
    /\ LET x == ed[ev.s]
           e == Keys(x.e, ev.keys, HistOf(ev.s))
           r == Shown(ev, x, e, FALSE)
       IN /\ Check(~Starts(ev.keys[1], "!no answer"), ev, "an answer to the key")
          /\ Check(r.ok, ev, Expect(x, e))
          /\ ed' = [ed EXCEPT ![ev.s] = [x EXCEPT !.e = e, !.above = r.above]]
    /\ UNCHANGED <<st, ses, meta>>
Resized(ev) ==
    /\ ev.e = "size"
    /\ LET x == [ed[ev.s] EXCEPT !.cols = ev.cols, !.rows = ev.rows]
           r == Shown(ev, x, x.e, TRUE)
       IN /\ Check(~Narrow(x.alt, x.cols), ev, "an end with an error")
          /\ Check(r.ok, ev, Expect(x, x.e))
          /\ ed' = [ed EXCEPT ![ev.s] = [x EXCEPT !.above = r.above]]
    /\ UNCHANGED <<st, ses, meta>>
\* the line with the editor's text, as in TraceSession
Entered(ev) ==
    /\ ev.e = "enter"
    /\ LET x == ed[ev.s]
           t == Text(x.e)
           v == Choice([text |-> t] @@ ev)
           own == RunLine(IF x.hasdb THEN st ELSE [EmptyStore EXCEPT !.cap = "1000000"], ses[ev.s], t, v)
           e == Submitted(x.e)
           wrapped == Wrapped(t, x.cols)
           n == Len(wrapped)
           out == IF "rows" \in DOMAIN ev THEN SubSeq(ev.rows, n + 1, Len(ev.rows)) ELSE ev.out
           all == x.above \o wrapped \o Outputs(out, x.cols) \o <<"#">>
           scr == Bottom(all, x.rows)
       IN /\ Check((Judges("echo") /\ "rows" \in DOMAIN ev) => SubSeq(ev.rows, 1, n) = wrapped, ev, [text |-> t])
          /\ Check(IF ~x.hasdb /\ own.s.answer.k \in {"help", "helpon"} THEN Judges("out") => Fits(out, own.s.answer, own.s.cfg, {"vars"})
                   ELSE OutFits(out, own.s), ev, [text |-> t, answer |-> own.s.answer])
          /\ Check(~x.hasdb \/ Fitting(ev, own.st), ev, Show(own.st))
          /\ Check(Screened(ev) => (ev.screen = scr /\ CurOk(ev, Len(scr) - 1, 2)), ev, [text |-> t, screen |-> scr])
          /\ st' = IF x.hasdb THEN own.st ELSE st
          /\ ses' = [ses EXCEPT ![ev.s] = [own.s EXCEPT !.ph = "idle"]]
          /\ ed' = [ed EXCEPT ![ev.s] = [x EXCEPT !.e = e, !.above = IF Screened(ev) THEN SubSeq(scr, 1, Len(scr) - 1) ELSE <<>>]]
    /\ UNCHANGED meta
\* keys typed ahead: p holds the editor, the session, the store, and the echoes and answers to come
AnswerRows(a) == IF a.k = "lines" THEN Len(a.v) ELSE 1
AheadKey(p, k, x) ==
    IF k # "enter" THEN [p EXCEPT !.e = Key(p.e, k, IF x.hasdb THEN p.st.hist ELSE <<>>)]
    ELSE LET t == Text(p.e)
             own == RunLine(IF x.hasdb THEN p.st ELSE [EmptyStore EXCEPT !.cap = "1000000"], p.s, t, RZero)
         IN [e |-> Submitted(p.e), s |-> [own.s EXCEPT !.ph = "idle"], st |-> IF x.hasdb THEN own.st ELSE p.st,
             todo |-> Append(p.todo, [text |-> t, rows |-> Wrapped(t, x.cols), s |-> own.s])]
RECURSIVE AheadKeys(_, _, _)
AheadKeys(p, ks, x) == IF ks = <<>> THEN p ELSE AheadKeys(AheadKey(p, Head(ks), x), Tail(ks), x)
RowsOf(d) == Len(d.rows) + AnswerRows(d.s.answer)
RECURSIVE AllRows(_)
AllRows(todo) == IF todo = <<>> THEN 0 ELSE RowsOf(Head(todo)) + AllRows(Tail(todo))
\* the first of `todo` that the rows do not show (or one more than there are)
RECURSIVE Unshown(_, _, _)
Unshown(rows, todo, i) ==
    IF i > Len(todo) THEN i
    ELSE LET d == todo[i]
             n == Len(d.rows)
             m == RowsOf(d)
         IN IF /\ Len(rows) >= m
               /\ Judges("echo") => SubSeq(rows, 1, n) = d.rows
               /\ OutFits(SubSeq(rows, n + 1, m), d.s)
            THEN Unshown(SubSeq(rows, m + 1, Len(rows)), todo, i + 1) ELSE i
Ahead(ev) ==
    /\ ev.e = "ahead"
    /\ LET x == ed[ev.s]
           p == AheadKeys([e |-> x.e, s |-> ses[ev.s], st |-> st, todo |-> <<>>], ev.keys, x)
           n == AllRows(p.todo)
           \* lines that take many rows are drawn with line feeds while they are edited
           rows == IF x.alt /\ Len(ev.rows) > n THEN Last(ev.rows, n) ELSE ev.rows
           i == Unshown(rows, p.todo, 1)
           r == Shown(ev, x, p.e, TRUE)
       IN /\ Check(i > Len(p.todo), ev, IF i > Len(p.todo) THEN <<>> ELSE [text |-> p.todo[i].text, answer |-> p.todo[i].s.answer, which |-> i])
          /\ Check(Len(rows) = n, ev, [rows |-> n])
          /\ Check(~x.hasdb \/ Fitting(ev, p.st), ev, Show(p.st))
          /\ Check(r.ok, ev, Expect(x, p.e))
          /\ st' = p.st /\ ses' = [ses EXCEPT ![ev.s] = p.s]
          /\ ed' = [ed EXCEPT ![ev.s] = [x EXCEPT !.e = p.e, !.above = r.above]]
    /\ UNCHANGED meta
Exited(ev) ==
    /\ ev.e = "exit"
    /\ LET narrow == ev.why = "size" /\ Narrow(ev.alt, ev.cols)
       IN /\ Check(ev.why \in QuitKeys \/ ev.why = "fail" \/ narrow, ev, "the session goes on")
          /\ Check(IF ev.why \in QuitKeys THEN ev.code = 0 /\ ev.err = "" ELSE ev.code > 0 /\ ev.err # "", ev, "exit status and standard error")
          /\ Check(ev.modes /\ ~ev.inalt, ev, "the terminal as it was")
          /\ Check(Fitting(ev, st), ev, Show(st))
          /\ ses' = Remove(ses, {ev.s}) /\ ed' = Remove(ed, {ev.s})
    /\ UNCHANGED <<st, meta>>

EInit == Init /\ ed = <<>>
ENext == /\ l <= Len(Trace)
         /\ l' = l + 1 /\ UNCHANGED recent
         /\ LET ev == Trace[l] IN
            \/ (New(ev) \/ Given(ev)) /\ ed' = <<>>
            \/ (Open(ev) \/ Line(ev) \/ End(ev)) /\ ed' = ed
            \/ Started(ev) \/ Pressed(ev) \/ Resized(ev) \/ Entered(ev) \/ Ahead(ev) \/ Exited(ev)
ESpec == EInit /\ [][ENext]_evars
=============================================================================

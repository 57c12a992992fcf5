------------------------------ MODULE TraceCalc -----------------------------
(***************************************************************************)
(* Accepts exactly the recorded sessions without saved data that Calc       *)
(* allows.  Events: {"e":"start", cfg, has}, {"e":"line", text, out}.       *)
(* `out` is the list of answered lines.                                     *)
(***************************************************************************)
EXTENDS Errors, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
\* What is judged: "full", everything; "class", only whether there is an error or a value;
\* "message", whether an error message is the case; "alive", only that there is an answer.  (A driver reports a missing one as a line with !.)
Focus == IF "FOCUS" \in DOMAIN IOEnv THEN IOEnv.FOCUS ELSE "full"
VARIABLES l, cfg, vars, has

Init == l = 1 /\ cfg = DefaultCfg /\ vars = <<>> /\ has = {}
\* a "start" event names only the settings that differ from the defaults
CfgOf(r) == [f \in DOMAIN DefaultCfg |-> IF f \in DOMAIN r THEN r[f] ELSE DefaultCfg[f]]
Start(ev) ==
    /\ ev.e = "start"
    /\ cfg' = CfgOf(ev.cfg) /\ vars' = <<>> /\ has' = {ev.has[i] : i \in DOMAIN ev.has}
Reject(ev, answer) ==
    PrintT(ToJson([reject |-> l, expected |-> answer, cfg |-> cfg, vars |-> vars])) /\ FALSE
Answered(out) == out # <<>> /\ ~Starts(out[1], "!")
Judge(text, out, answer) ==
    CASE Focus = "message" -> Answered(out) /\ Truthful(out, LineSayings(text, cfg, vars, has))
      [] Focus = "full" -> Fits(out, answer, cfg, has)
      [] Focus = "class" ->
           /\ Answered(out)
           /\ \/ answer.k = "number" /\ answer.r.t = "any"
              \/ IsError(out) = (answer.k \in {"error", "unknown"})
Line(ev) ==
    /\ ev.e = "line" /\ Focus # "alive"
    /\ LET o == CalcLine(ev.text, cfg, vars, has)
       IN /\ IF Judge(ev.text, ev.out, o.answer) THEN TRUE
             ELSE Reject(ev, IF o.answer.k = "number" /\ o.answer.r.t = "val"
                             THEN <<NumberText(o.answer.r.v, cfg), o.answer>>
                             ELSE IF Focus = "message" THEN <<"any of", LineSayings(ev.text, cfg, vars, has)>>
                             ELSE <<"", o.answer>>)
          /\ cfg' = o.cfg /\ vars' = o.vars /\ has' = has
\* only an answer is asked for; what it is does not matter, nor does the state
Alive(ev) == /\ ev.e = "line" /\ Focus = "alive" /\ UNCHANGED <<cfg, vars, has>>
             /\ IF Answered(ev.out) THEN TRUE ELSE Reject(ev, "an answer")
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET ev == Trace[l] IN Start(ev) \/ Line(ev) \/ Alive(ev)
Spec == Init /\ [][Next]_<<l, cfg, vars, has>>
Accepted == PrintT(ToJson([accepted |-> TLCGet("stats").diameter - 1, of |-> Len(Trace)]))
=============================================================================

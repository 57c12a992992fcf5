----------------------------- MODULE TraceNoStore ----------------------------
(***************************************************************************)
(* Sessions and one-shot runs that must not touch saved data, next to       *)
(* whatever is in the directories they could use:                           *)
(*   {"e":"start", cfg, has, files}   files: every file there, with its     *)
(*                                    contents                              *)
(*   {"e":"line", text, out, files, twin?}   twin: the answer of a session  *)
(*                                    that has saved data of its own and    *)
(*                                    was given the same lines              *)
(*   {"e":"end", code, files}                                               *)
(***************************************************************************)
EXTENDS Calc, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, cfg, mem, has, files
vars == <<l, cfg, mem, has, files>>
CfgOf(r) == [f \in DOMAIN DefaultCfg |-> IF f \in DOMAIN r THEN r[f] ELSE DefaultCfg[f]]
Elems(s) == {s[i] : i \in DOMAIN s}
Check(cond, expected) == IF cond THEN TRUE ELSE PrintT(ToJson([reject |-> l, expected |-> expected])) /\ FALSE

\* lines whose answer depends on there being saved data
DependsOnStore(text) == IsAscii(text, 1) /\ IsCommand(text) /\
                        Resolve(CommandName(text)) \in {"histcap", "reloadvar", "help"}
Start(ev) == /\ ev.e = "start"
             /\ cfg' = CfgOf(ev.cfg) /\ mem' = <<>> /\ has' = Elems(ev.has) /\ files' = ev.files
Line(ev) == /\ ev.e = "line"
            /\ LET r == CalcLine(ev.text, cfg, mem, has)
               IN /\ Check(Fits(ev.out, r.answer, cfg, has), r.answer)
                  /\ Check(ev.files = files, [files |-> files])
                  /\ Check("twin" \in DOMAIN ev /\ ~DependsOnStore(ev.text) => ev.twin = ev.out, [twin |-> "the same answer"])
                  /\ cfg' = r.cfg /\ mem' = r.vars
            /\ UNCHANGED <<has, files>>
End(ev) == /\ ev.e = "end"
           /\ Check(ev.code = 0 /\ ev.files = files, [code |-> 0, files |-> files])
           /\ UNCHANGED <<cfg, mem, has, files>>
Init == l = 1 /\ cfg = DefaultCfg /\ mem = <<>> /\ has = {} /\ files = <<>>
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET ev == Trace[l] IN Start(ev) \/ Line(ev) \/ End(ev)
Spec == Init /\ [][Next]_vars
Accepted == PrintT(ToJson([accepted |-> TLCGet("stats").diameter - 1, of |-> Len(Trace)]))
=============================================================================

----------------------------- MODULE TraceOneShot ----------------------------
(***************************************************************************)
(* Each event is one line given to a new session without saved data and     *)
(* given as --input, under the same flags:                                  *)
(*   {"e":"pair", cfg, text, out, code, stdout, stderr}                     *)
(* out, stdout and stderr are lists of lines.                               *)
(***************************************************************************)
EXTENDS Calc, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
CfgOf(r) == [f \in DOMAIN DefaultCfg |-> IF f \in DOMAIN r THEN r[f] ELSE DefaultCfg[f]]

Failed(ev) == ev.code = 0 /\ ev.stdout = <<>> /\ IsError(ev.stderr)
Printed(ev) == ev.code = 0 /\ ev.stderr = <<>> /\ ev.stdout # <<>>
IsErr(a) == a.k \in {"error", "unknown"}
Pair(ev) ==
    LET cfg == CfgOf(ev.cfg)
        session == CalcLine(ev.text, cfg, <<>>, {"vars"}).answer
        shot == CalcLine(ev.text, cfg, <<>>, {}).answer
        unsure == shot.k = "number" /\ shot.r.t = "any"
    IN /\ Fits(ev.out, session, cfg, {"vars"})
       /\ CASE IsErr(shot) -> Failed(ev) /\ Fits(ev.stderr, shot, cfg, {})
            [] unsure -> (Failed(ev) /\ IsError(ev.out)) \/ (Printed(ev) /\ ev.stdout = ev.out)
            [] shot.k \in {"number", "lines"} -> Printed(ev) /\ ev.stdout = ev.out
            \* the help differs in what is available
            [] OTHER -> Printed(ev) /\ Fits(ev.stdout, shot, cfg, {})
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET ev == Trace[l]
           IN IF ev.e = "pair" /\ Pair(ev) THEN TRUE
              ELSE PrintT(ToJson([reject |-> l,
                     expected |-> CalcLine(ev.text, CfgOf(ev.cfg), <<>>, {}).answer])) /\ FALSE
Spec == Init /\ [][Next]_l
Accepted == PrintT(ToJson([accepted |-> TLCGet("stats").diameter - 1, of |-> Len(Trace)]))
=============================================================================

-------------------------------- MODULE Calc --------------------------------
(***************************************************************************)
(* One line without saved data: its answer, and the settings and variables  *)
(* after it.  An answer is                                                  *)
(*   [k |-> "lines", v]       exactly these lines                           *)
(*   [k |-> "number", r]      the text of a result of Eval                  *)
(*   [k |-> "error"]          an error message                              *)
(*   [k |-> "unknown", name]  an error that names the unknown command       *)
(*   [k |-> "help"], [k |-> "helpon", name]                                 *)
(***************************************************************************)
EXTENDS Commands, Maps

Error == [k |-> "error"]
Lines(v) == [k |-> "lines", v |-> v]
Out(answer, cfg, vars) == [answer |-> answer, cfg |-> cfg, vars |-> vars]


\* `has` is {"vars"} in a session without saved data and {} in one-shot mode
CalcLine(line, cfg, vars, has) ==
    IF ~IsAscii(line, 1) THEN Out(Error, cfg, vars)
    ELSE IF IsCommand(line) THEN
        LET e == CommandEffect(line, cfg, has) IN
        CASE e.c = "err" \/ e.c = "missing" -> Out(Error, cfg, vars)
          [] e.c = "unknown" -> Out([k |-> "unknown", name |-> e.name], cfg, vars)
          [] e.c = "say" -> Out(Lines(e.out), cfg, vars)
          [] e.c = "set" -> Out(Lines(<<"Done">>), e.cfg, vars)
          [] e.c = "help" -> Out([k |-> "help"], cfg, vars)
          [] e.c = "helpon" -> Out([k |-> "helpon", name |-> e.name], cfg, vars)
          [] e.c = "purge" -> Out(Lines(<<"Done">>), cfg, Remove(vars, e.vs))
    ELSE LET t == Tokens(line, cfg.radix) IN
        IF BadTokens(t) THEN Out(Error, cfg, vars)
        ELSE IF t = <<>> THEN Out(Lines(<<"">>), cfg, vars)
        ELSE LET p == ParseLine(t) IN
            IF ~p.ok THEN Out(Error, cfg, vars)
            ELSE LET r == Eval(p.e, IF "vars" \in has THEN vars ELSE <<>>, Digits(cfg), OutRadix(cfg)) IN
                IF Stops(r) THEN Out(Error, cfg, vars)
                ELSE IF p.target = "" THEN Out([k |-> "number", r |-> r], cfg, vars)
                ELSE IF "vars" \notin has THEN Out(Error, cfg, vars)
                ELSE Out([k |-> "number", r |-> r], cfg, Put(vars, p.target, r))

(* ---- does an observed answer fit? ---------------------------------------------- *)
Starts(s, prefix) == Len(s) >= Len(prefix) /\ SubSeq(s, 1, Len(prefix)) = prefix
RECURSIVE Contains(_, _, _)
Contains(s, part, i) == IF i + Len(part) - 1 > Len(s) THEN FALSE
                        ELSE SubSeq(s, i, i + Len(part) - 1) = part \/ Contains(s, part, i + 1)
IsError(out) == Len(out) >= 1 /\ Starts(out[1], "Error: ") /\ Len(out[1]) > 7
IsFault(out) == Len(out) >= 1 /\ Starts(out[1], "Runtime Error: ")

RECURSIVE Spaces(_)
Spaces(n) == IF n <= 0 THEN "" ELSE " " \o Spaces(n - 1)
HelpRow(row, name, has) ==
    LET head == "  " \o name \o Spaces(14 - Len(name)) \o " "
    IN /\ Starts(row, head)
       /\ Len(row) > Len(head)
       /\ Starts(SubSeq(row, Len(head) + 1, Len(row)), "(unavailable) ") = ~(Needs(name) \subseteq has)
HelpFits(out, has) ==
    /\ Len(out) = 1 + Len(CommandNames)
    /\ \A i \in DOMAIN CommandNames : HelpRow(out[i + 1], CommandNames[i], has)
HelpOnFits(out, name, has) ==
    /\ out # <<>>
    /\ LET u == "Usage: /" \o name
       IN Starts(out[1], u) /\ (Len(out[1]) = Len(u) \/ Ch(out[1], Len(u) + 1) = " ")
    /\ (\E i \in DOMAIN out : Contains(out[i], "currently unavailable", 1)) = ~(Needs(name) \subseteq has)

\* cfg: the settings the line was evaluated under
NumberFits(out, r, cfg) ==
    CASE r.t = "val" -> out = <<NumberText(r.v, cfg)>>
      [] r.t = "iv" -> Len(out) = 1 /\ WithinText(out[1], r.lo, r.hi, cfg)
      [] r.t = "any" -> IsError(out) \/ (Len(out) = 1 /\ ReadNumber(out[1], cfg).ok)
Fits(out, answer, cfg, has) ==
    CASE answer.k = "lines" -> out = answer.v
      [] answer.k = "error" -> IsError(out)
      [] answer.k = "unknown" -> IsError(out) /\ Contains(out[1], answer.name, 1)
      [] answer.k = "help" -> HelpFits(out, has)
      [] answer.k = "helpon" -> HelpOnFits(out, answer.name, has)
      [] answer.k = "number" -> NumberFits(out, answer.r, cfg)
=============================================================================

------------------------------ MODULE Commands ------------------------------
(***************************************************************************)
(* Command lines: what each one asks for, given the settings.               *)
(***************************************************************************)
EXTENDS Render

CommandNames == <<"commas", "converttoradix", "fractional", "help", "histcap",
                  "precision", "purgevar", "radix", "reloadvar", "upper">>
NameSet == {CommandNames[i] : i \in DOMAIN CommandNames}
Alias == [c |-> "", h |-> "help", f |-> "fractional", r |-> "radix", p |-> "precision",
          comma |-> "commas"]
Aliases == {"h", "f", "r", "p", "comma"}
\* the command a typed name stands for, or "" if there is none
Resolve(name) == IF name \in NameSet THEN name ELSE IF name \in Aliases THEN Alias[name] ELSE ""

\* what a command needs in order to be available
Needs(c) == CASE c = "reloadvar" -> {"db", "vars"} [] c = "purgevar" -> {"vars"}
              [] c = "histcap" -> {"db"} [] OTHER -> {}

(* ---- arguments -------------------------------------------------------------- *)
MaxI64 == "9223372036854775807"
BadList == [ok |-> FALSE]
\* integers, each with an optional minus sign; neg says that one has just been read
RECURSIVE IntsFrom(_, _, _, _)
IntsFrom(t, i, neg, acc) ==
    IF i > Len(t) THEN IF neg THEN BadList ELSE [ok |-> TRUE, v |-> acc]
    ELSE IF t[i] = <<"op", "-">> THEN IF neg THEN BadList ELSE IntsFrom(t, i + 1, TRUE, acc)
    ELSE IF t[i][1] = "num" /\ RIsInt(t[i][2]) /\ BCmp(t[i][2][1], MaxI64) <= 0
    THEN IntsFrom(t, i + 1, FALSE, Append(acc, IF neg THEN BNeg(t[i][2][1]) ELSE t[i][2][1]))
    ELSE BadList
\* a list of integers is always read in radix 10
IntList(args) ==
    IF IsCommand(args) THEN BadList
    ELSE LET t == Tokens(args, 10) IN IF BadTokens(t) THEN BadList ELSE IntsFrom(t, 1, FALSE, <<>>)
VarList(args) ==
    IF IsCommand(args) THEN BadList
    ELSE LET t == Tokens(args, 10)
         IN IF \A i \in DOMAIN t : t[i][1] = "var" THEN [ok |-> TRUE, v |-> VarsOf(t)] ELSE BadList
BoolArg(args) == ToLower(StripBlank(args))
\* value of a canonical integer that lies in lo..hi, else -1
InRange(x, lo, hi) == LET n == BSmall(x) IN IF n >= lo /\ n <= hi THEN n ELSE -1

(* ---- effects ------------------------------------------------------------------ *)
Refuse == [c |-> "err"]
Say(lines) == [c |-> "say", out |-> lines]
Set(cfg) == [c |-> "set", cfg |-> cfg]

Toggle(args, cfg, current, on, off) ==
    LET b == BoolArg(args) IN
    IF b = "" THEN Say(<<IF current THEN "true" ELSE "false">>)
    ELSE IF b \in {"t", "true"} THEN Set(on)
    ELSE IF b \in {"f", "false"} THEN Set(off)
    ELSE Refuse

Effect(c, args, cfg) ==
    LET ints == IntList(args) IN
    CASE c = "commas" -> Toggle(args, cfg, cfg.commas, [cfg EXCEPT !.commas = TRUE],
                                [cfg EXCEPT !.commas = FALSE])
      [] c = "upper" -> Toggle(args, cfg, cfg.upper, [cfg EXCEPT !.upper = TRUE],
                               [cfg EXCEPT !.upper = FALSE])
      [] c = "fractional" -> Toggle(args, cfg, cfg.frac, [cfg EXCEPT !.frac = TRUE],
                                    [cfg EXCEPT !.frac = FALSE])
      [] c = "radix" ->
            IF ~ints.ok \/ Len(ints.v) > 1 THEN Refuse
            ELSE IF ints.v = <<>> THEN Say(<<ToString(cfg.radix)>>)
            ELSE LET n == InRange(ints.v[1], 2, 16)
                 IN IF n < 0 THEN Refuse ELSE Set([cfg EXCEPT !.radix = n])
      [] c = "converttoradix" ->
            IF ToLower(StripBlank(args)) = "none" THEN Set([cfg EXCEPT !.out = 0])
            ELSE IF ~ints.ok \/ Len(ints.v) > 1 THEN Refuse
            ELSE IF ints.v = <<>> THEN Say(<<IF cfg.out = 0 THEN "None" ELSE ToString(cfg.out)>>)
            ELSE LET n == InRange(ints.v[1], 2, 16)
                 IN IF n < 0 THEN Refuse ELSE Set([cfg EXCEPT !.out = n])
      [] c = "precision" ->
            IF ~ints.ok \/ Len(ints.v) > 2 THEN Refuse
            ELSE IF ints.v = <<>> THEN Say(<<"Precision = " \o ToString(cfg.prec),
                                             "Extra Precision = " \o ToString(cfg.extra)>>)
            ELSE LET p == InRange(ints.v[1], 0, 255)
                     x == IF Len(ints.v) = 2 THEN InRange(ints.v[2], 0, 255) ELSE cfg.extra
                 IN IF p < 0 \/ x < 0 \/ p + x > 255 THEN Refuse
                    ELSE Set([cfg EXCEPT !.prec = p, !.extra = x])
      [] c = "help" ->
            LET n == StripBlank(args) IN
            IF n = "" THEN [c |-> "help"]
            ELSE IF Resolve(n) = "" THEN Refuse ELSE [c |-> "helpon", name |-> Resolve(n)]
      [] c = "histcap" ->
            IF ~ints.ok \/ Len(ints.v) > 1 THEN Refuse
            ELSE IF ints.v = <<>> THEN [c |-> "getcap"]
            ELSE IF BSign(ints.v[1]) <= 0 THEN Refuse ELSE [c |-> "setcap", n |-> ints.v[1]]
      [] c = "reloadvar" -> LET v == VarList(args)
                            IN IF v.ok THEN [c |-> "reload", vs |-> v.v] ELSE Refuse
      [] c = "purgevar" -> LET v == VarList(args)
                           IN IF v.ok THEN [c |-> "purge", vs |-> v.v] ELSE Refuse
\* has: what is available, a subset of {"db", "vars"}
CommandEffect(line, cfg, has) ==
    LET c == Resolve(CommandName(line)) IN
    IF c = "" THEN [c |-> "unknown", name |-> CommandName(line)]
    ELSE LET e == Effect(c, CommandArgs(line), cfg)
         IN IF e.c # "err" /\ ~(Needs(c) \subseteq has) THEN [c |-> "missing"] ELSE e
=============================================================================

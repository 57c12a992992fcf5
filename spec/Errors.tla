------------------------------- MODULE Errors -------------------------------
(***************************************************************************)
(* What an error message may say: only what is the case.  Where several     *)
(* things are wrong with a line, any of those that can be said at the same  *)
(* stage will do: a word that is no number keeps the line from being read   *)
(* at all; a line that does not follow the grammar is not evaluated; the    *)
(* first failing operation from left to right ends an evaluation.           *)
(***************************************************************************)
EXTENDS Calc

OpName == [c \in OpChars |->
    CASE c = "+" -> "Addition Operator (+)" [] c = "-" -> "Subtraction Operator (-)"
      [] c = "*" -> "Multiplication Operator (*)" [] c = "/" -> "Division Operator (/)"
      [] c = "%" -> "Modulus Operator (%)" [] c = "^" -> "Exponentiation Operator (^)"]
NameOf(tok) ==
    CASE tok[1] = "num" -> "Number (" \o RText(tok[2]) \o ")"
      [] tok[1] = "var" -> "Variable '" \o tok[2] \o "'"
      [] tok[1] = "op" -> OpName[tok[2]]
      [] tok[1] = "pre" -> IF tok[2] = "sqrt" THEN "Square Root Operator (sqrt)" ELSE "Absolute Value Operator (abs)"
      [] tok[1] = "fn" -> IF tok[2] = "max" THEN "Max Function" ELSE "Min Function"
      [] tok[1] = "(" -> "Open Parenthesis" [] tok[1] = ")" -> "Close Parenthesis"
      [] tok[1] = "," -> "Comma" [] tok[1] = "=" -> "Assignment Operator (=)"

(* ---- lines that do not follow the grammar ------------------------------------ *)
KindAt(t, i) == IF i \in DOMAIN t THEN t[i][1] ELSE ""
EndsOperand(t, i) == KindAt(t, i) \in {"num", "var", ")"}
StartsOperand(t, i) == KindAt(t, i) \in {"num", "var", "pre", "fn", "("}
RECURSIVE SkipMinus(_, _)
SkipMinus(t, i) == IF IsOp(t, i, {"-"}) THEN SkipMinus(t, i + 1) ELSE i
\* no operand begins at i
NoOperandAt(t, i) == ~StartsOperand(t, SkipMinus(t, i))

\* Opens[i]: where the parentheses that are open just before token i were opened, the innermost last
RECURSIVE OpensFrom(_, _, _)
OpensFrom(t, i, acc) ==
    IF i > Len(t) THEN acc
    ELSE LET o == acc[i]
         IN OpensFrom(t, i + 1, Append(acc, CASE t[i][1] = "(" -> Append(o, i)
                                              [] t[i][1] = ")" /\ o # <<>> -> SubSeq(o, 1, Len(o) - 1)
                                              [] OTHER -> o))
Opens(t) == OpensFrom(t, 1, <<<<>>>>)

\* what can be said about the tokens t of an expression
SyntaxSayings(t) ==
    LET opens == Opens(t)
        D == DOMAIN t
        inCall(i) == opens[i] # <<>> /\ KindAt(t, opens[i][Len(opens[i])] - 1) = "fn"
        ops == {i \in D : t[i][1] = "op"}
    IN  (IF t = <<>> THEN {"No input"} ELSE {})
   \cup (IF opens[Len(t) + 1] # <<>> THEN {"Mismatched open parenthesis"} ELSE {})
   \cup (IF \E i \in D : t[i][1] = ")" /\ opens[i] = <<>> THEN {"Mismatched close parenthesis"} ELSE {})
   \cup (IF \E i \in D : t[i][1] = "(" /\ KindAt(t, i + 1) = ")" /\ KindAt(t, i - 1) # "fn"
         THEN {"Empty parentheses"} ELSE {})
   \cup {"Unexpected token encountered: " \o NameOf(t[i]) :
            i \in {j \in D : \/ t[j][1] = "="
                             \/ t[j][1] = "," /\ ~inCall(j)
                             \/ t[j][1] = "op" /\ t[j][2] # "-" /\ ~EndsOperand(t, j - 1)}}
   \cup {NameOf(t[i]) \o " is missing a required operand" :
            i \in {j \in D : \/ t[j][1] \in {"op", "pre"} /\ NoOperandAt(t, j + 1)
                             \/ t[j][1] = "op" /\ t[j][2] # "-" /\ ~EndsOperand(t, j - 1)}}
   \cup (IF \E i \in ops : t[i][2] = "-" /\ ~EndsOperand(t, i - 1) /\ NoOperandAt(t, i + 1)
         THEN {"Negation Operator (-) is missing a required operand"} ELSE {})
   \cup (IF \E i \in D : EndsOperand(t, i) /\ StartsOperand(t, i + 1)
         THEN {"Missing an operator between two consecutive operands"} ELSE {})
   \cup (IF \E i \in D : t[i][1] = "," /\ KindAt(t, i - 1) = "(" THEN {"Comma must follow an operand"} ELSE {})
   \cup (IF \E i \in D : t[i][1] = "," /\ KindAt(t, i + 1) \in {",", ")", ""}
         THEN {"Comma must be followed by an operand"} ELSE {})
   \cup {"Functions without parentheses are assumed to have a single argument, but none was found for " \o NameOf(t[i]) :
            i \in {j \in D : t[j][1] = "fn" /\ KindAt(t, j + 1) # "(" /\ NoOperandAt(t, j + 1)}}
LineSyntaxSayings(t) ==
    SyntaxSayings(IF Is(t, 1, "var") /\ Is(t, 2, "=") THEN SubSeq(t, 3, Len(t)) ELSE t)
BadWordSayings(t, say) == {say \o ": '" \o t[i][2] \o "'" : i \in {j \in DOMAIN t : t[j][1] = "bad"}}

(* ---- evaluations ------------------------------------------------------------------ *)
NoVars == "Variable store unavailable"
EvalSaying(r, has) ==
    IF r.t = "need" THEN IF "vars" \in has THEN "Unknown variable: " \o r.n ELSE NoVars
    ELSE CASE r.e = "div" -> "Cannot divide by 0"
           [] r.e = "imag" -> "Unable to take the root of a negative number except unless the degree is an odd integer"
           [] r.e = "max" -> "Max Function has no arguments but requires them"
           [] r.e = "min" -> "Min Function has no arguments but requires them"
\* does some part of the tree depend on how a root was rounded, or is it too long for the specification?
RECURSIVE Uncertain(_, _, _)
Uncertain(e, env, cfg) ==
    IF e[1] \in {"num", "var"} THEN FALSE
    ELSE LET parts == IF e[1] \in {"max", "min"} THEN {e[2][i] : i \in DOMAIN e[2]} ELSE {e[i] : i \in 2..Len(e)}
         IN Eval(e, env, Digits(cfg), OutRadix(cfg)).t = "any" \/ \E x \in parts : Uncertain(x, env, cfg)
\* then it is not known whether, or why, the evaluation fails there
AnySayings(t, has) ==
    {EvalSaying(Err(e), has) : e \in {"div", "imag", "max", "min"}}
    \cup {EvalSaying([t |-> "need", n |-> n], has) : n \in VarsOf(t)}
    \cup {"Unable to use such a long fractional exponent"}

(* ---- commands --------------------------------------------------------------------------- *)
\* what can be said about a list of integers
IntSayings(args) ==
    IF IsCommand(args) THEN {"Unable to parse number: '/" \o CommandName(args) \o "'"}
    ELSE LET t == Tokens(args, 10) IN
         IF BadTokens(t) THEN BadWordSayings(t, "Unable to parse number")
         ELSE UNION {
                LET tok == t[i] IN
                CASE tok[1] = "num" /\ ~RIsInt(tok[2]) -> {"Expected an integer, found decimal: " \o RText(tok[2])}
                  [] tok[1] = "num" /\ BCmp(tok[2][1], MaxI64) > 0 -> {"Value must be representable as a 64-bit signed integer"}
                  [] tok = <<"op", "-">> -> IF IsOp(t, i + 1, {"-"}) THEN {"Two negative signs in a row"}
                                            ELSE IF i = Len(t) THEN {"Found negative sign without value"} ELSE {}
                  [] tok[1] # "num" /\ tok # <<"op", "-">> -> {"Expected integer, found " \o NameOf(tok)}
                  [] OTHER -> {} : i \in DOMAIN t}
VarSayings(args) ==
    IF IsCommand(args) THEN {"Invalid variable name: '/" \o CommandName(args) \o "'"}
    ELSE LET t == Tokens(args, 10) IN
         IF BadTokens(t) THEN BadWordSayings(t, "Invalid variable name")
         ELSE {"Expected variable, found " \o NameOf(t[i]) : i \in {j \in DOMAIN t : t[j][1] # "var"}}
TooMany == {"Too many arguments"}
\* what can be said about the arguments of command c that Effect refuses
Sayings(c, args, cfg) ==
    LET ints == IntList(args)
        v(i) == ints.v[i]
        below(x, n) == BCmp(x, n) < 0
        byte == " must be representable as an 8-bit unsigned integer"
    IN CASE c \in {"commas", "upper", "fractional"} -> {"Invalid argument"}
         [] c = "help" -> {"No such command: '" \o StripBlank(args) \o "'"}
         [] c \in {"reloadvar", "purgevar"} -> VarSayings(args)
         [] c \in {"radix", "converttoradix", "precision", "histcap"} /\ ~ints.ok -> IntSayings(args)
         [] c \in {"radix", "converttoradix"} ->
              IF Len(ints.v) > 1 THEN TooMany
              ELSE IF below(v(1), "2") THEN {"Radix cannot be less than 2"} ELSE {"Radix cannot be greater than 16"}
         [] c = "histcap" -> IF Len(ints.v) > 1 THEN TooMany ELSE {"Maximum history size must be at least 1"}
         [] c = "precision" ->
              IF Len(ints.v) > 2 THEN TooMany
              ELSE LET bad == (IF InRange(v(1), 0, 255) < 0 THEN {"Precision" \o byte} ELSE {})
                         \cup (IF Len(ints.v) = 2 /\ InRange(v(2), 0, 255) < 0 THEN {"Extra" \o byte} ELSE {})
                   IN IF bad # {} THEN bad ELSE {"Sum of precision and extra" \o byte}
MissingSayings(c, has) ==
    (IF "db" \in Needs(c) /\ "db" \notin has THEN {"Database unavailable"} ELSE {})
    \cup (IF "vars" \in Needs(c) /\ "vars" \notin has THEN {NoVars} ELSE {})

(* ---- a line -------------------------------------------------------------------------------- *)
\* what an error message for this line may say; {} if there is nothing wrong with it
LineSayings(line, cfg, env, has) ==
    IF ~IsAscii(line, 1) THEN {"Non-ASCII data in input"}
    ELSE IF IsCommand(line) THEN
        LET e == CommandEffect(line, cfg, has)
            c == Resolve(CommandName(line))
        IN CASE e.c = "unknown" -> {"No such command: '" \o e.name \o "'"}
             [] e.c = "err" -> Sayings(c, CommandArgs(line), cfg)
             [] e.c = "missing" -> MissingSayings(c, has)
             [] OTHER -> {}
    ELSE LET t == Tokens(line, cfg.radix) IN
        IF BadTokens(t) THEN BadWordSayings(t, "Unable to parse number")
        ELSE IF t = <<>> THEN {}
        ELSE LET p == ParseLine(t) IN
             IF ~p.ok THEN LineSyntaxSayings(t)
             ELSE LET r == Eval(p.e, IF "vars" \in has THEN env ELSE <<>>, Digits(cfg), OutRadix(cfg)) IN
                  IF r.t # "val" /\ Uncertain(p.e, IF "vars" \in has THEN env ELSE <<>>, cfg) THEN AnySayings(t, has)
                  ELSE IF Stops(r) THEN {EvalSaying(r, has)}
                  ELSE (IF p.target # "" /\ "vars" \notin has THEN {NoVars} ELSE {})
Truthful(out, sayings) == IsError(out) => Len(out) = 1 /\ \E m \in sayings : out[1] = "Error: " \o m
=============================================================================

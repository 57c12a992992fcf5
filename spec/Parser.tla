------------------------------- MODULE Parser -------------------------------
(***************************************************************************)
(* From tokens to a tree, by the documented grammar:                        *)
(*                                                                          *)
(*   line    ::= variable = expr | expr                                     *)
(*   expr    ::= sum                                                        *)
(*   sum     ::= product  { '+' or '-'  product }      left to right          *)
(*   product ::= rest     { '*' or '/'  rest }                              *)
(*   rest    ::= power    { '%'         power }                                *)
(*   power   ::= operand  { '^'         operand }                              *)
(*   operand ::= number | variable | ( expr )                               *)
(*             | - operand | sqrt operand | abs operand                     *)
(*             | (max|min) ( [expr {, expr}] )                              *)
(*             | (max|min) operand         where operand does not start with ( *)
(*                                                                          *)
(* A tree is <<"num", v>>, <<"var", n>>, <<"neg"|"sqrt"|"abs", e>>,         *)
(* <<"max"|"min", args>> or <<operator, left, right>>.                      *)
(***************************************************************************)
EXTENDS Lexer

Fail == [ok |-> FALSE]
Got(e, p) == [ok |-> TRUE, e |-> e, p |-> p]
Is(t, p, k) == p <= Len(t) /\ t[p][1] = k
IsOp(t, p, ops) == p <= Len(t) /\ t[p][1] = "op" /\ t[p][2] \in ops
Level == <<{"^"}, {"%"}, {"*", "/"}, {"+", "-"}>>

RECURSIVE Operand(_, _)
RECURSIVE Chain(_, _, _)
RECURSIVE ChainRest(_, _, _)
RECURSIVE Arguments(_, _, _)

Operand(t, p) ==
    IF p > Len(t) THEN Fail
    ELSE LET k == t[p][1] IN
    CASE k = "num" -> Got(<<"num", t[p][2]>>, p + 1)
      [] k = "var" -> Got(<<"var", t[p][2]>>, p + 1)
      [] k = "pre" \/ IsOp(t, p, {"-"}) ->
            LET r == Operand(t, p + 1)
            IN IF r.ok THEN Got(<<IF k = "pre" THEN t[p][2] ELSE "neg", r.e>>, r.p) ELSE Fail
      [] k = "(" ->
            LET r == Chain(t, p + 1, 4)
            IN IF r.ok /\ Is(t, r.p, ")") THEN Got(r.e, r.p + 1) ELSE Fail
      [] k = "fn" ->
            IF Is(t, p + 1, "(")
            THEN IF Is(t, p + 2, ")") THEN Got(<<t[p][2], <<>>>>, p + 3)
                 ELSE LET r == Arguments(t, p + 2, <<>>)
                      IN IF r.ok THEN Got(<<t[p][2], r.e>>, r.p) ELSE Fail
            ELSE LET r == Operand(t, p + 1)
                 IN IF r.ok THEN Got(<<t[p][2], <<r.e>>>>, r.p) ELSE Fail
      [] OTHER -> Fail

Arguments(t, p, acc) ==
    LET r == Chain(t, p, 4) IN
    IF ~r.ok THEN Fail
    ELSE IF Is(t, r.p, ",") THEN Arguments(t, r.p + 1, Append(acc, r.e))
    ELSE IF Is(t, r.p, ")") THEN Got(Append(acc, r.e), r.p + 1)
    ELSE Fail

\* operands joined by operators of level l and tighter
Chain(t, p, l) ==
    IF l = 0 THEN Operand(t, p)
    ELSE LET r == Chain(t, p, l - 1) IN IF r.ok THEN ChainRest(t, r, l) ELSE Fail
ChainRest(t, left, l) ==
    IF ~IsOp(t, left.p, Level[l]) THEN left
    ELSE LET r == Chain(t, left.p + 1, l - 1)
         IN IF r.ok THEN ChainRest(t, Got(<<t[left.p][2], left.e, r.e>>, r.p), l) ELSE Fail

ParseExpr(t) == LET r == Chain(t, 1, 4) IN IF r.ok /\ r.p = Len(t) + 1 THEN r ELSE Fail
\* [ok, e, target]: target is "" unless the line is an assignment
ParseLine(t) ==
    IF Is(t, 1, "var") /\ Is(t, 2, "=")
    THEN LET r == ParseExpr(SubSeq(t, 3, Len(t)))
         IN IF r.ok THEN [ok |-> TRUE, e |-> r.e, target |-> t[1][2]] ELSE Fail
    ELSE LET r == ParseExpr(t)
         IN IF r.ok THEN [ok |-> TRUE, e |-> r.e, target |-> ""] ELSE Fail
=============================================================================

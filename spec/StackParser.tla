---------------------------- MODULE StackParser -----------------------------
(***************************************************************************)
(* The way the program parses: it splits an expression into operands and     *)
(* operators first, then turns minus signs into negations from the right,   *)
(* then joins operands, one level of operators after the other.  MC_Parser  *)
(* checks that this is Parser, and that what it says about a line that it   *)
(* cannot parse is the case.                                                *)
(*                                                                          *)
(* Results: [ok, e (or None), end, p], where end is the kind of the token   *)
(* that ended the expression ("" at the end of the input) and p is the      *)
(* position after it; or [ok |-> FALSE, say].                               *)
(***************************************************************************)
EXTENDS Errors

None == <<"none">>
Bad(say) == [ok |-> FALSE, say |-> say]
Some1(e, p) == [ok |-> TRUE, c |-> "operand", e |-> e, p |-> p]
Missing(name) == Bad(name \o " is missing a required operand")
Unexpected(name) == Bad("Unexpected token encountered: " \o name)
MinusTok == <<"op", "-">>

RECURSIVE ReadItem(_, _)
RECURSIVE ReadItems(_, _, _)
RECURSIVE ReadOperand(_, _)
RECURSIVE ReadArguments(_, _, _, _)

\* ---- from items to a tree.  An item is <<"operand", e>> or <<"operator", c>>.
RECURSIVE Negations(_, _)
Negations(items, done) ==
    IF items = <<>> THEN done
    ELSE LET n == Len(items) last == items[n] IN
         IF last[1] = "operand" /\ n >= 2 /\ items[n - 1] = <<"operator", "-">>
            /\ (n < 3 \/ items[n - 2][1] = "operator")
         THEN Negations(Append(SubSeq(items, 1, n - 2), <<"operand", <<"neg", last[2]>>>>), done)
         ELSE Negations(SubSeq(items, 1, n - 1), <<last>> \o done)
RECURSIVE Join(_, _, _)
Join(items, l, done) ==
    IF items = <<>> THEN done
    ELSE IF /\ items[1][1] = "operand" /\ Len(items) >= 3
            /\ items[2][1] = "operator" /\ items[2][2] \in Level[l] /\ items[3][1] = "operand"
         THEN Join(<<<<"operand", <<items[2][2], items[1][2], items[3][2]>>>>>> \o SubSeq(items, 4, Len(items)), l, done)
         ELSE Join(Tail(items), l, Append(done, items[1]))
Joined(items) == Join(Join(Join(Join(Negations(items, <<>>), 1, <<>>), 2, <<>>), 3, <<>>), 4, <<>>)
\* -> [ok, e] or an error
Tree(items) ==
    LET j == Joined(items)
        kind(i) == IF i <= Len(j) THEN j[i][1] ELSE "" IN
    IF j = <<>> THEN [ok |-> TRUE, e |-> None]
    ELSE IF kind(1) = "operator" THEN Missing(OpName[j[1][2]])
    ELSE IF kind(2) = "" THEN [ok |-> TRUE, e |-> j[1][2]]
    ELSE IF kind(2) = "operand" THEN Bad("Missing an operator between two consecutive operands")
    ELSE IF kind(3) = "operand" THEN Bad("!all levels are joined")       \* cannot happen
    ELSE Missing(OpName[j[2][2]])

ReadExpression(t, p) ==
    LET r == ReadItems(t, p, <<>>) IN
    IF ~r.ok THEN r
    ELSE LET e == Tree(r.items)
         IN IF ~e.ok THEN e ELSE [ok |-> TRUE, e |-> e.e, end |-> r.end, p |-> r.p]
ReadItems(t, p, items) ==
    LET r == ReadItem(t, p) IN
    IF ~r.ok THEN r
    ELSE IF r.c = "end" THEN [ok |-> TRUE, items |-> items, end |-> r.end, p |-> r.p]
    ELSE ReadItems(t, r.p, Append(items, <<r.c, r.e>>))
ReadItem(t, p) ==
    LET k == KindAt(t, p)
        end == [ok |-> TRUE, c |-> "end", end |-> k, p |-> p + 1]
    IN CASE k = "" -> [end EXCEPT !.p = p]
         [] k = "=" -> Unexpected(NameOf(t[p]))
         [] k = "," \/ k = ")" -> end
         [] k = "op" -> [ok |-> TRUE, c |-> "operator", e |-> t[p][2], p |-> p + 1]
         [] k = "num" \/ k = "var" -> Some1(<<k, t[p][2]>>, p + 1)
         [] k = "pre" -> LET r == ReadOperand(t, p + 1)
                         IN IF ~r.ok THEN r
                            ELSE IF r.c = "end" THEN Missing(NameOf(t[p]))
                            ELSE Some1(<<t[p][2], r.e>>, r.p)
         [] k = "(" -> LET r == ReadExpression(t, p + 1)
                       IN IF ~r.ok THEN r
                          ELSE IF r.end = "," THEN Unexpected("Comma")
                          ELSE IF r.end = "" THEN Bad("Mismatched open parenthesis")
                          ELSE IF r.e = None THEN Bad("Empty parentheses")
                          ELSE Some1(r.e, r.p)
         [] k = "fn" ->
              IF KindAt(t, p + 1) = "("
              THEN LET r == ReadArguments(t, p + 2, <<>>, FALSE)
                   IN IF ~r.ok THEN r ELSE Some1(<<t[p][2], r.e>>, r.p)
              ELSE LET r == ReadOperand(t, p + 1)
                   IN IF ~r.ok THEN r
                      ELSE IF r.c = "end"
                      THEN Bad("Functions without parentheses are assumed to have a single argument, but none was found for " \o NameOf(t[p]))
                      ELSE Some1(<<t[p][2], <<r.e>>>>, r.p)
ReadOperand(t, p) ==
    LET r == ReadItem(t, p) IN
    IF ~r.ok \/ r.c # "operator" THEN r
    ELSE IF r.e # "-" THEN Unexpected(OpName[r.e])
    ELSE LET a == ReadOperand(t, r.p)
         IN IF ~a.ok THEN a
            ELSE IF a.c = "end" THEN Missing("Negation Operator (-)")
            ELSE Some1(<<"neg", a.e>>, a.p)
\* after: a comma has been read
ReadArguments(t, p, args, after) ==
    LET r == ReadExpression(t, p) IN
    IF ~r.ok THEN r
    ELSE IF r.e = None THEN
        IF after THEN Bad("Comma must be followed by an operand")
        ELSE IF r.end = "," THEN Bad("Comma must follow an operand")
        ELSE IF r.end = "" THEN Bad("Mismatched open parenthesis")
        ELSE [ok |-> TRUE, e |-> args, p |-> r.p]
    ELSE IF r.end = "," THEN ReadArguments(t, r.p, Append(args, r.e), TRUE)
    ELSE IF r.end = "" THEN Bad("Mismatched open parenthesis")
    ELSE [ok |-> TRUE, e |-> Append(args, r.e), p |-> r.p]

ReadLine(t) ==
    LET assigns == Is(t, 1, "var") /\ Is(t, 2, "=")
        u == IF assigns THEN SubSeq(t, 3, Len(t)) ELSE t
        r == ReadExpression(u, 1)
    IN IF ~r.ok THEN r
       ELSE IF r.end = "," THEN Unexpected("Comma")
       ELSE IF r.end = ")" THEN Bad("Mismatched close parenthesis")
       ELSE IF r.e = None THEN Bad("No input")
       ELSE [ok |-> TRUE, e |-> r.e, target |-> IF assigns THEN t[1][2] ELSE ""]
=============================================================================

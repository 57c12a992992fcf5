----------------------------- MODULE MC_Parser ------------------------------
(***************************************************************************)
(* Over all token sequences up to a length: the program's way of parsing    *)
(* is the grammar, and what it says about the others is the case.           *)
(***************************************************************************)
EXTENDS StackParser

CONSTANTS MaxTokens, Small
VARIABLE t
Alphabet == {<<"num", ROne>>, <<"op", "-">>, <<"op", "*">>, <<"pre", "abs">>, <<"fn", "max">>,
             <<"(">>, <<")">>, <<",">>}
    \cup IF Small THEN {} ELSE {<<"op", "+">>, <<"op", "^">>, <<"op", "%">>, <<"var", "$a">>, <<"=">>}
Init == t = <<>>
Next == Len(t) < MaxTokens /\ \E a \in Alphabet : t' = Append(t, a)
Spec == Init /\ [][Next]_t
Same == LET g == ParseLine(t) r == ReadLine(t) IN
        /\ g.ok = r.ok
        /\ g.ok => g = r
Honest == LET r == ReadLine(t) IN ~r.ok => r.say \in LineSyntaxSayings(t)
\* there is something to say about every sequence that is not a line, and nothing about the others
Complete == (t # <<>> /\ ~ParseLine(t).ok) = (t # <<>> /\ LineSyntaxSayings(t) # {})
=============================================================================

------------------------------- MODULE Lexer --------------------------------
(***************************************************************************)
(* From the text of a line to its tokens.                                   *)
(*                                                                          *)
(* A token is <<"num", rational>>, <<"var", name>>, <<"op", character>>,    *)
(* <<"pre", "sqrt" or "abs">>, <<"fn", "max" or "min">>, or one of          *)
(* <<"(">>, <<")">>, <<",">>, <<"=">>.                                      *)
(***************************************************************************)
EXTENDS Rat, FiniteSets

Ch(s, i) == SubSeq(s, i, i)

\* Characters.  `All` are the 128 ASCII characters as far as a line of input can hold them.
Blank == {" ", "\t", "\n", "\r", "\f"}
OpChars == {"+", "-", "*", "/", "%", "^"}
Single == OpChars \cup {"(", ")", ",", "="}
Lower == "abcdefghijklmnopqrstuvwxyz"
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~\t\n\r\f"
AsciiSet == {Ch(Ascii, i) : i \in 1..Len(Ascii)}
\* what a digit is worth, in either case
DigitOf == [c \in {DigitStr(d) : d \in 0..15} \cup {"A", "B", "C", "D", "E", "F"} |->
              IF c \in DOMAIN DigitVal THEN DigitVal[c]
              ELSE CASE c = "A" -> 10 [] c = "B" -> 11 [] c = "C" -> 12
                     [] c = "D" -> 13 [] c = "E" -> 14 [] c = "F" -> 15]
UpperOf == [c \in {Ch(Lower, i) : i \in 1..26} |->
              LET i == CHOOSE j \in 1..26 : Ch(Lower, j) = c IN Ch(Upper, i)]
LowerOf == [c \in {Ch(Upper, i) : i \in 1..26} |->
              LET i == CHOOSE j \in 1..26 : Ch(Upper, j) = c IN Ch(Lower, i)]

RECURSIVE MapStr(_, _, _)
MapStr(s, m, i) == IF i > Len(s) THEN ""
                   ELSE LET c == Ch(s, i) IN (IF c \in DOMAIN m THEN m[c] ELSE c) \o MapStr(s, m, i + 1)
ToUpper(s) == MapStr(s, UpperOf, 1)
ToLower(s) == MapStr(s, LowerOf, 1)

RECURSIVE IsAscii(_, _)
IsAscii(s, i) == i > Len(s) \/ (Ch(s, i) \in AsciiSet /\ IsAscii(s, i + 1))

RECURSIVE SkipBlank(_, _)
SkipBlank(s, i) == IF i <= Len(s) /\ Ch(s, i) \in Blank THEN SkipBlank(s, i + 1) ELSE i
RECURSIVE LastNonBlank(_, _)
LastNonBlank(s, i) == IF i >= 1 /\ Ch(s, i) \in Blank THEN LastNonBlank(s, i - 1) ELSE i
StripBlank(s) == LET a == SkipBlank(s, 1) IN SubSeq(s, a, LastNonBlank(s, Len(s)))
\* the end of the word or blank-free stretch that starts at i
RECURSIVE WordEnd(_, _)
WordEnd(s, i) == IF i <= Len(s) /\ Ch(s, i) \notin Blank /\ Ch(s, i) \notin Single
                 THEN WordEnd(s, i + 1) ELSE i
RECURSIVE BlankAt(_, _)
BlankAt(s, i) == IF i <= Len(s) /\ Ch(s, i) \notin Blank THEN BlankAt(s, i + 1) ELSE i

(* ---- number literals ---------------------------------------------------- *)
\* Reads w from i on, having seen `digits` (without underscores and points), with `frac` of
\* them after the point, or frac = -1 if there has been no point yet.
RECURSIVE Literal(_, _, _, _, _)
Literal(w, radix, i, digits, frac) ==
    IF i > Len(w) THEN [ok |-> digits # "", digits |-> digits, frac |-> IF frac < 0 THEN 0 ELSE frac]
    ELSE LET c == Ch(w, i) IN
         IF c = "_" THEN Literal(w, radix, i + 1, digits, frac)
         ELSE IF c = "." /\ frac < 0 THEN Literal(w, radix, i + 1, digits, 0)
         ELSE IF c \in DOMAIN DigitOf /\ DigitOf[c] < radix
              THEN Literal(w, radix, i + 1, digits \o DigitStr(DigitOf[c]),
                           IF frac < 0 THEN frac ELSE frac + 1)
         ELSE [ok |-> FALSE]
LiteralValue(l, radix) == RNorm(BParse(l.digits, radix), BPow(BInt(radix), l.frac))

(* ---- tokens -------------------------------------------------------------- *)
WordToken(w, radix) ==
    IF Ch(w, 1) = "$" THEN <<"var", w>>
    ELSE IF w \in {"sqrt", "abs"} THEN <<"pre", w>>
    ELSE IF w \in {"max", "min"} THEN <<"fn", w>>
    ELSE LET l == Literal(w, radix, 1, "", -1)
         IN IF l.ok THEN <<"num", LiteralValue(l, radix)>> ELSE <<"bad", w>>
CharToken(c) == IF c \in OpChars THEN <<"op", c>> ELSE <<c>>

RECURSIVE TokensFrom(_, _, _, _)
TokensFrom(s, radix, i, acc) ==
    IF i > Len(s) THEN acc
    ELSE LET c == Ch(s, i) IN
         IF c \in Blank THEN TokensFrom(s, radix, i + 1, acc)
         ELSE IF c \in Single THEN TokensFrom(s, radix, i + 1, Append(acc, CharToken(c)))
         ELSE LET e == WordEnd(s, i)
              IN TokensFrom(s, radix, e, Append(acc, WordToken(SubSeq(s, i, e - 1), radix)))
Tokens(s, radix) == TokensFrom(s, radix, 1, <<>>)
BadTokens(t) == \E i \in DOMAIN t : t[i][1] = "bad"
VarsOf(t) == {t[i][2] : i \in {j \in DOMAIN t : t[j][1] = "var"}}

(* ---- commands ------------------------------------------------------------ *)
IsCommand(s) == LET i == SkipBlank(s, 1) IN i <= Len(s) /\ Ch(s, i) = "/"
CommandName(s) == LET i == SkipBlank(s, 1) IN SubSeq(s, i + 1, BlankAt(s, i + 1) - 1)
CommandArgs(s) == LET i == SkipBlank(s, 1) e == BlankAt(s, i + 1) IN SubSeq(s, e + 1, Len(s))
=============================================================================

------------------------------- MODULE Editor --------------------------------
(***************************************************************************)
(* The line editor of a session: the line being composed, the walk through  *)
(* earlier lines, and what the screen shows.                                *)
(*                                                                          *)
(* An editor is a record                                                    *)
(*   own      the lines submitted in this session, oldest first             *)
(*   loaded   the saved lines the walk has reached so far, newest first     *)
(*   last     the identity of the last of them (or, before the first, one   *)
(*            more than the newest line that was saved when the session     *)
(*            started)                                                      *)
(*   at       0: the new line; 1, 2, ...: that many lines back              *)
(*   edits    at -> text, for the lines edited since the last submission    *)
(*   pos      characters to the left of the cursor                          *)
(* Keys are named by strings: a single character stands for itself.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Maps

NewEditor(front) == [own |-> <<>>, loaded |-> <<>>, last |-> front + 1, at |-> 0, edits |-> <<>>, pos |-> 0]

Recorded(e, i) == IF i = 0 THEN ""
                  ELSE IF i <= Len(e.own) THEN e.own[Len(e.own) + 1 - i]
                  ELSE e.loaded[i - Len(e.own)]
TextAt(e, i) == IF i \in DOMAIN e.edits THEN e.edits[i] ELSE Recorded(e, i)
Text(e) == TextAt(e, e.at)
Sub(s, i, j) == IF i > j THEN "" ELSE SubSeq(s, i, j)
Edit(e, t, p) == [e EXCEPT !.edits = Put(@, e.at, t), !.pos = p]

Insert(e, c) == LET t == Text(e) IN Edit(e, Sub(t, 1, e.pos) \o c \o Sub(t, e.pos + 1, Len(t)), e.pos + 1)
\* removes the i-th character
Without(t, i) == Sub(t, 1, i - 1) \o Sub(t, i + 1, Len(t))
Backspace(e) == IF e.pos = 0 THEN e ELSE Edit(e, Without(Text(e), e.pos), e.pos - 1)
Delete(e) == IF e.pos = Len(Text(e)) THEN e ELSE Edit(e, Without(Text(e), e.pos + 1), e.pos)
Within0(p, n) == IF p < 0 THEN 0 ELSE IF p > n THEN n ELSE p
Move(e, d) == [e EXCEPT !.pos = Within0(@ + d, Len(Text(e)))]

(* ---- the matching parenthesis --------------------------------------------- *)
\* the first i from `i` on, in steps of d, where as many parentheses have been closed as opened
RECURSIVE Balance(_, _, _, _)
Balance(t, i, d, open) ==
    IF i < 1 \/ i > Len(t) THEN 0
    ELSE LET c == SubSeq(t, i, i)
             o == IF c = "(" THEN open + d ELSE IF c = ")" THEN open - d ELSE open
         IN IF o = 0 THEN i ELSE Balance(t, i + d, d, o)
\* the cursor is on a character, or behind the last one, which then counts
Match(e) ==
    LET t == Text(e)
        i == IF e.pos = Len(t) THEN Len(t) ELSE e.pos + 1
        c == IF Len(t) = 0 THEN "" ELSE SubSeq(t, i, i)
        m == IF c = "(" THEN Balance(t, i, 1, 0) ELSE IF c = ")" THEN Balance(t, i, -1, 0) ELSE 0
    IN IF m = 0 THEN e ELSE [e EXCEPT !.pos = m - 1]

(* ---- the walk through earlier lines ----------------------------------------- *)
AtEnd(e) == [e EXCEPT !.pos = Len(Text(e))]
\* hist: the saved lines as they are now, [id, text], oldest first (none without saved data)
Older(e, hist) == {i \in DOMAIN hist : hist[i].id < e.last}
Up(e, hist) ==
    IF e.at < Len(e.own) + Len(e.loaded) THEN AtEnd([e EXCEPT !.at = @ + 1])
    ELSE LET S == Older(e, hist) IN
         IF S = {} THEN e
         ELSE LET i == CHOOSE x \in S : \A y \in S : y <= x
              IN AtEnd([e EXCEPT !.loaded = Append(@, hist[i].text), !.last = hist[i].id, !.at = @ + 1])
Down(e) == IF e.at = 0 THEN e ELSE AtEnd([e EXCEPT !.at = @ - 1])
Submitted(e) == [e EXCEPT !.own = Append(@, Text(e)), !.at = 0, !.edits = <<>>, !.pos = 0]

QuitKeys == {"c-d", "c-c", "c-z", "u-c-d", "u-c-c", "u-c-z"}
Far == 15
\* a key with modifiers, "m5-home": the digit is 1, and 1 more for Shift, 2 more for Alt, 4 more for Control
Modified(k) == Len(k) > 3 /\ Sub(k, 1, 1) = "m" /\ Sub(k, 3, 3) = "-"
Smalls == "abcdefghijklmnopqrstuvwxyz"
Capitals == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Capital(c) == LET S == {i \in 1..26 : SubSeq(Smalls, i, i) = c}
              IN IF S = {} THEN c ELSE LET i == CHOOSE j \in S : TRUE IN SubSeq(Capitals, i, i)
RECURSIVE Key(_, _, _)
Key(e, k, hist) ==
    IF Len(k) = 1 THEN Insert(e, k)
    ELSE IF Modified(k)
    THEN LET mods == SubSeq(k, 2, 2)
             base == SubSeq(k, 4, Len(k))
         IN CASE base \in {"left", "right"} ->
                     IF mods = "1" THEN Key(e, base, hist)
                     ELSE IF mods \in {"2", "5"} THEN Key(e, "c-" \o base, hist) ELSE e
              [] base \in {"home", "end", "up", "down", "del", "bs"} -> Key(e, base, hist)
              [] Len(base) = 1 -> IF mods = "1" THEN Insert(e, base)
                                  ELSE IF mods = "2" THEN Insert(e, Capital(base))
                                  ELSE IF mods = "5" /\ base \in {"n", "m"} THEN Match(e) ELSE e
              [] OTHER -> e
    ELSE CASE k = "bs" -> Backspace(e)
           [] k = "del" -> Delete(e)
           [] k = "left" -> Move(e, -1)
           [] k = "right" -> Move(e, 1)
           [] k \in {"c-left", "s-left"} -> Move(e, -Far)
           [] k \in {"c-right", "s-right"} -> Move(e, Far)
           [] k \in {"home", "c-home"} -> [e EXCEPT !.pos = 0]
           [] k \in {"end", "c-end"} -> [e EXCEPT !.pos = Len(Text(e))]
           [] k \in {"up", "c-up", "a-up"} -> Up(e, hist)
           [] k \in {"down", "c-down"} -> Down(e)
           [] k \in {"c-del", "a-del"} -> Delete(e)
           [] k \in {"c-n", "c-m", "u-c-n"} -> Match(e)
           \* keys that the terminal reports by number, with shift where it is named
           [] k = "u-a" -> Insert(e, "a")
           [] k \in {"u-s-a", "u-s-A"} -> Insert(e, "A")
           [] k = "u-s-1" -> Insert(e, "1")
           [] k = "u-(" -> Insert(e, "(")
           [] k = "u-bs" -> Backspace(e)
           [] OTHER -> e
RECURSIVE Keys(_, _, _)
Keys(e, ks, hist) == IF ks = <<>> THEN e ELSE Keys(Key(e, Head(ks), hist), Tail(ks), hist)

EditorOk(e) == /\ e.pos \in 0..Len(Text(e))
               /\ e.at \in 0..(Len(e.own) + Len(e.loaded))

(* ---- the screen ---------------------------------------------------------------- *)
RECURSIVE Trim(_, _)
Trim(s, n) == IF n = 0 THEN "" ELSE IF SubSeq(s, n, n) = " " THEN Trim(s, n - 1) ELSE SubSeq(s, 1, n)
RTrim(s) == Trim(s, Len(s))
Last(s, n) == SubSeq(s, Len(s) - n + 1, Len(s))

\* inline: `row` shows part of the text t and the cursor, behind p characters, is in column c (from 0).  The row starts with "< " if
\* text is hidden on the left and ends with " >" if text is hidden on the right.
ShowsPart(row, c, t, p, cols) ==
    LET off == p - (c - 2)          \* characters hidden on the left
        full == (IF off = 0 THEN "# " ELSE "< ") \o Sub(t, off + 1, Len(t))
        e == off + Len(row) - 4     \* characters that end at the right indicator
    IN /\ c >= 2 /\ off >= 0 /\ c < cols
       /\ \/ row = RTrim(full) /\ Len(full) <= cols
          \/ /\ e > p /\ e < Len(t) /\ Len(row) <= cols
             /\ row = (IF off = 0 THEN "# " ELSE "< ") \o Sub(t, off + 1, e) \o " >"
\* wrapped: the rows of the text, with two columns to the left of it
RECURSIVE Chunks(_, _)
Chunks(t, w) == IF Len(t) <= w THEN <<t>> ELSE <<SubSeq(t, 1, w)>> \o Chunks(SubSeq(t, w + 1, Len(t)), w)
Wrapped(t, cols) ==
    LET c == Chunks(t, cols - 2)
    IN [i \in DOMAIN c |-> RTrim((IF i = 1 THEN "# " ELSE "  ") \o c[i])]
RECURSIVE Outputs(_, _)
Outputs(out, cols) == IF out = <<>> THEN <<>>
                      ELSE LET c == Chunks(Head(out), cols) IN [i \in DOMAIN c |-> RTrim(c[i])] \o Outputs(Tail(out), cols)
Narrow(alt, cols) == IF alt THEN cols <= 2 ELSE cols <= 4
\* blank rows at the bottom do not count
RECURSIVE DropBlank(_)
DropBlank(s) == IF s # <<>> /\ s[Len(s)] = "" THEN DropBlank(SubSeq(s, 1, Len(s) - 1)) ELSE s
Bottom(s, h) == IF Len(s) <= h THEN s ELSE Last(s, h)
=============================================================================

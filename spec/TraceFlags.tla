----------------------------- MODULE TraceFlags ------------------------------
(***************************************************************************)
(* Starting the program (one-shot, line `1`) with one numeric flag.         *)
(***************************************************************************)
EXTENDS Calc, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1
\* a flag's value is a plain decimal number, possibly with a plus sign
RECURSIVE AllDigits(_, _)
AllDigits(s, i) == i > Len(s) \/ (Ch(s, i) \in {DigitStr(d) : d \in 0..9} /\ AllDigits(s, i + 1))
Plain(v) == IF Starts(v, "+") THEN SubSeq(v, 2, Len(v)) ELSE v
Range(f) == IF f \in {"-r", "--radix", "--convert-to-radix"} THEN <<2, 16>> ELSE <<0, 255>>
Accepts(f, v) == LET p == Plain(v) IN
    /\ p # "" /\ AllDigits(p, 1)
    /\ InRange(BParse(p, 10), Range(f)[1], Range(f)[2]) >= 0
Flag(ev) ==
    IF Accepts(ev.flag, ev.value) THEN ev.code = 0 /\ ev.out = "1\n" /\ ~ev.err
    ELSE ev.code # 0 /\ ev.code # 101 /\ ev.code > 0 /\ ev.out = "" /\ ev.err
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ IF Flag(Trace[l]) THEN TRUE
           ELSE PrintT(ToJson([reject |-> l, expected |-> Accepts(Trace[l].flag, Trace[l].value)])) /\ FALSE
Spec == Init /\ [][Next]_l
Accepted == PrintT(ToJson([accepted |-> TLCGet("stats").diameter - 1, of |-> Len(Trace)]))
=============================================================================

------------------------------- MODULE Render -------------------------------
(***************************************************************************)
(* Settings, and the text of a number under them.                           *)
(***************************************************************************)
EXTENDS Eval

\* out = 0 stands for "as the input radix"
DefaultCfg == [radix |-> 10, out |-> 0, prec |-> 5, extra |-> 10,
               frac |-> FALSE, commas |-> FALSE, upper |-> FALSE]
OutRadix(cfg) == IF cfg.out = 0 THEN cfg.radix ELSE cfg.out
Digits(cfg) == cfg.prec + cfg.extra

RECURSIVE Grouped(_)
Grouped(s) == IF Len(s) <= 3 THEN s
              ELSE Grouped(SubSeq(s, 1, Len(s) - 3)) \o "," \o SubSeq(s, Len(s) - 2, Len(s))
RECURSIVE Zeros(_)
Zeros(n) == IF n <= 0 THEN "" ELSE IF n = 1 THEN "0"
            ELSE LET h == Zeros(n \div 2) IN IF n % 2 = 1 THEN h \o h \o "0" ELSE h \o h
RECURSIVE Trimmed(_)
Trimmed(s) == IF s # "" /\ Ch(s, Len(s)) = "0" THEN Trimmed(SubSeq(s, 1, Len(s) - 1)) ELSE s

Cased(s, cfg) == IF cfg.upper /\ OutRadix(cfg) > 10 THEN ToUpper(s) ELSE s
IntText(x, cfg) ==      \* of a natural number
    LET s == Cased(BDigits(x, OutRadix(cfg)), cfg) IN IF cfg.commas THEN Grouped(s) ELSE s
SignText(v) == IF RSign(v) < 0 THEN "-" ELSE ""

DecimalText(v, cfg) ==
    LET k == BPow(BInt(OutRadix(cfg)), cfg.prec)
        num == BMul(BAbs(v[1]), k)
        exact == BRem(num, v[2]) = "0"
        \* the nearest integer to num / v[2], halves upward
        rounded == BQuot(BAdd(BMul(num, "2"), v[2]), BMul(v[2], "2"))
        whole == BQuot(rounded, k)
        part == Cased(BDigits(BRem(rounded, k), OutRadix(cfg)), cfg)
        full == IF cfg.prec = 0 THEN "" ELSE Zeros(cfg.prec - Len(part)) \o part
        shown == IF exact THEN Trimmed(full) ELSE full
    IN SignText(v) \o IntText(whole, cfg) \o (IF shown = "" THEN "" ELSE "." \o shown)

FractionText(v, cfg) ==
    SignText(v) \o IntText(BAbs(v[1]), cfg)
    \o (IF RIsInt(v) THEN "" ELSE "/" \o IntText(v[2], cfg))

NumberText(v, cfg) == IF cfg.frac THEN FractionText(v, cfg) ELSE DecimalText(v, cfg)

(* ---- reading a printed number back ------------------------------------------ *)
RECURSIVE Without(_, _, _)
Without(s, c, i) == IF i > Len(s) THEN ""
                    ELSE (IF Ch(s, i) = c THEN "" ELSE Ch(s, i)) \o Without(s, c, i + 1)
RECURSIVE Find(_, _, _)
Find(s, c, i) == IF i > Len(s) \/ Ch(s, i) = c THEN i ELSE Find(s, c, i + 1)

\* [ok, v] for any text that looks like a number
ReadNumber(text, cfg) ==
    LET neg == text # "" /\ Ch(text, 1) = "-"
        body == Without(IF neg THEN SubSeq(text, 2, Len(text)) ELSE text, ",", 1)
        slash == Find(body, "/", 1)
        a == Literal(SubSeq(body, 1, slash - 1), OutRadix(cfg), 1, "", -1)
        b == IF slash > Len(body) THEN [ok |-> TRUE, digits |-> "1", frac |-> 0]
             ELSE Literal(SubSeq(body, slash + 1, Len(body)), OutRadix(cfg), 1, "", -1)
    IN IF ~a.ok \/ ~b.ok THEN [ok |-> FALSE]
       ELSE LET n == LiteralValue(a, OutRadix(cfg)) d == LiteralValue(b, OutRadix(cfg))
            IN IF RSign(d) = 0 THEN [ok |-> FALSE]
               ELSE [ok |-> TRUE, v |-> LET q == RDiv(n, d) IN IF neg THEN RNeg(q) ELSE q]

\* Is the text what a value within lo..hi may look like?
HalfUnit(cfg) == IF cfg.frac THEN RZero ELSE RNorm("1", BMul("2", BPow(BInt(OutRadix(cfg)), cfg.prec)))
WithinText(text, lo, hi, cfg) ==
    LET r == ReadNumber(text, cfg) h == HalfUnit(cfg)
    IN r.ok /\ RCmp(r.v, RSub(lo, h)) >= 0 /\ RCmp(r.v, RAdd(hi, h)) <= 0
=============================================================================

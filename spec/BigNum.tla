------------------------------- MODULE BigNum -------------------------------
(***************************************************************************)
(* Integers of any size, as canonical decimal strings ("0", "17", "-4"),    *)
(* because TLC's own integers have 32 bits.  A string is what the saved     *)
(* data stores and what a trace carries, so values can be compared as they  *)
(* are.                                                                     *)
(*                                                                          *)
(* The definitions below are complete: TLC can evaluate them as they stand  *)
(* (on sequences of limbs base 10^4, least significant first).  For speed   *)
(* the operators named B... are normally overridden by java/BcalcOverrides, *)
(* and MC_BigNum checks the two against each other and against the laws of  *)
(* arithmetic.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

LOCAL BASE == 10000

DigitChars == "0123456789abcdef"
DigitStr(d) == SubSeq(DigitChars, d + 1, d + 1)
DigitVal == [c \in {DigitStr(d) : d \in 0..15} |->
               CHOOSE d \in 0..15 : DigitStr(d) = c]

RECURSIVE Trim(_)
Trim(s) == IF s # <<>> /\ s[Len(s)] = 0 THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s

(* ---- naturals as limbs ------------------------------------------------- *)
LOCAL At(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
LOCAL Max2(a, b) == IF a > b THEN a ELSE b

RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, c) ==
    IF i > Max2(Len(a), Len(b)) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
    ELSE LET t == TLCEval(At(a, i) + At(b, i) + c)
         IN <<t % BASE>> \o AddFrom(a, b, i + 1, t \div BASE)
NAdd(a, b) == AddFrom(a, b, 1, 0)

RECURSIVE SubFrom(_, _, _, _)
SubFrom(a, b, i, c) ==    \* requires a >= b
    IF i > Len(a) THEN <<>>
    ELSE LET t == TLCEval(a[i] - At(b, i) - c)
         IN IF t < 0 THEN <<t + BASE>> \o SubFrom(a, b, i + 1, 1)
                     ELSE <<t>> \o SubFrom(a, b, i + 1, 0)
NSub(a, b) == Trim(SubFrom(a, b, 1, 0))

RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) ==
    IF i = 0 THEN 0
    ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpFrom(a, b, i - 1)
NCmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1
              ELSE CmpFrom(a, b, Len(a))

RECURSIVE MulLimb(_, _, _, _)
MulLimb(a, k, i, c) ==
    IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
    ELSE LET t == TLCEval(a[i] * k + c) IN <<t % BASE>> \o MulLimb(a, k, i + 1, t \div BASE)
RECURSIVE MulFrom(_, _, _)
MulFrom(a, b, j) ==
    IF j > Len(b) THEN <<>>
    ELSE LET rest == TLCEval(MulFrom(a, b, j + 1))
         IN NAdd(TLCEval(MulLimb(a, b[j], 1, 0)), IF rest = <<>> THEN <<>> ELSE <<0>> \o rest)
NMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE Trim(MulFrom(a, b, 1))

\* the largest q in lo..hi with q * b <= r
RECURSIVE QDigit(_, _, _, _)
QDigit(r, b, lo, hi) ==
    IF lo = hi THEN lo
    ELSE LET m == TLCEval((lo + hi + 1) \div 2)
         IN IF NCmp(TLCEval(Trim(MulLimb(b, m, 1, 0))), r) <= 0 THEN QDigit(r, b, m, hi)
                                                      ELSE QDigit(r, b, lo, m - 1)
RECURSIVE DivFrom(_, _, _, _, _)
DivFrom(a, b, i, q, r) ==
    IF i = 0 THEN [q |-> Trim(q), r |-> r]
    ELSE LET r1 == TLCEval(Trim(<<a[i]>> \o r))
             d == TLCEval(IF NCmp(r1, b) < 0 THEN 0 ELSE QDigit(r1, b, 1, BASE - 1))
         IN DivFrom(a, b, i - 1, TLCEval(<<d>> \o q),
                    TLCEval(IF d = 0 THEN r1 ELSE NSub(r1, Trim(MulLimb(b, d, 1, 0)))))
NDivMod(a, b) == DivFrom(a, b, Len(a), <<>>, <<>>)      \* requires b # <<>>

(* ---- strings ----------------------------------------------------------- *)
RECURSIVE NFromDigits(_, _, _, _)
NFromDigits(s, i, radix, acc) ==
    IF i > Len(s) THEN acc
    ELSE NFromDigits(s, i + 1, radix,
             TLCEval(Trim(MulLimb(acc, radix, 1, DigitVal[SubSeq(s, i, i)]))))

\* the value of the decimal digits i..j (at most four of them)
RECURSIVE LimbOf(_, _, _)
LimbOf(s, i, j) == IF i > j THEN 0
                   ELSE LimbOf(s, i, j - 1) * 10 + DigitVal[SubSeq(s, j, j)]
RECURSIVE NFromDecimal(_, _)
NFromDecimal(s, n) ==           \* the first n characters of s
    IF n <= 0 THEN <<>>
    ELSE <<LimbOf(s, Max2(1, n - 3), n)>> \o NFromDecimal(s, n - 4)

RECURSIVE ShortDiv(_, _, _, _, _)
ShortDiv(a, k, i, q, r) ==      \* a divided by a number k < 17
    IF i = 0 THEN [q |-> Trim(q), r |-> r]
    ELSE LET t == TLCEval(r * BASE + a[i])
         IN ShortDiv(a, k, i - 1, TLCEval(<<t \div k>> \o q), TLCEval(t % k))
RECURSIVE NToDigits(_, _)
NToDigits(a, radix) ==
    IF a = <<>> THEN ""
    ELSE LET d == TLCEval(ShortDiv(a, radix, Len(a), <<>>, 0))
         IN NToDigits(d.q, radix) \o DigitStr(d.r)

Pad4(n) == IF n < 10 THEN "000" \o ToString(n) ELSE IF n < 100 THEN "00" \o ToString(n)
           ELSE IF n < 1000 THEN "0" \o ToString(n) ELSE ToString(n)
RECURSIVE NToDecimal(_, _)
NToDecimal(a, i) ==             \* limbs i-1..1, padded
    IF i = 1 THEN "" ELSE Pad4(a[i - 1]) \o NToDecimal(a, i - 1)

IsNeg(x) == SubSeq(x, 1, 1) = "-"
Mag(x) == LET s == IF IsNeg(x) THEN SubSeq(x, 2, Len(x)) ELSE x
          IN Trim(TLCEval(NFromDecimal(s, Len(s))))
Signed(neg, a) == IF a = <<>> THEN "0" ELSE (IF neg THEN "-" ELSE "")
                                               \o ToString(a[Len(a)]) \o NToDecimal(a, Len(a))

(* ---- the operators used by the specification --------------------------- *)
BNeg(x) == IF x = "0" THEN x ELSE IF IsNeg(x) THEN SubSeq(x, 2, Len(x)) ELSE "-" \o x
BAbs(x) == IF IsNeg(x) THEN BNeg(x) ELSE x
BSign(x) == IF x = "0" THEN 0 ELSE IF IsNeg(x) THEN -1 ELSE 1
BAdd(x, y) ==
    LET a == TLCEval(Mag(x)) b == TLCEval(Mag(y)) IN
    IF IsNeg(x) = IsNeg(y) THEN Signed(IsNeg(x), NAdd(a, b))
    ELSE IF NCmp(a, b) >= 0 THEN Signed(IsNeg(x), NSub(a, b))
    ELSE Signed(IsNeg(y), NSub(b, a))
BSub(x, y) == BAdd(x, BNeg(y))
BMul(x, y) == Signed(IsNeg(x) # IsNeg(y), TLCEval(NMul(TLCEval(Mag(x)), TLCEval(Mag(y)))))
BQuot(x, y) == Signed(IsNeg(x) # IsNeg(y), TLCEval(NDivMod(TLCEval(Mag(x)), TLCEval(Mag(y)))).q)   \* toward zero
BRem(x, y) == Signed(IsNeg(x), TLCEval(NDivMod(TLCEval(Mag(x)), TLCEval(Mag(y)))).r)      \* sign of the dividend
BCmp(x, y) == BSign(BSub(x, y))
RECURSIVE BGcd(_, _)
BGcd(x, y) == IF y = "0" THEN BAbs(x) ELSE BGcd(y, TLCEval(BRem(x, y)))
RECURSIVE BPow(_, _)
BPow(x, n) == IF n = 0 THEN "1"
              ELSE LET h == TLCEval(BPow(x, n \div 2)) hh == TLCEval(BMul(h, h))
                   IN IF n % 2 = 1 THEN BMul(hh, x) ELSE hh
\* the largest r in lo..hi-1 with r^n <= x
RECURSIVE RootBetween(_, _, _, _)
RootBetween(x, n, lo, hi) ==
    LET m == TLCEval(BQuot(BAdd(lo, hi), "2")) IN
    IF m = lo THEN lo
    ELSE IF BCmp(BPow(m, n), x) <= 0 THEN RootBetween(x, n, m, hi)
                                    ELSE RootBetween(x, n, lo, m)
BIRoot(x, n) == RootBetween(x, n, "0", BAdd(x, "1"))           \* x >= 0, n >= 1
\* digits of |x| in a radix, lower case; and back
BDigits(x, radix) == IF x = "0" THEN "0" ELSE NToDigits(Mag(x), radix)
BParse(s, radix) == Signed(FALSE, TLCEval(NFromDigits(s, 1, radix, <<>>)))
\* a small integer as a TLC integer; -1 if it is negative or does not fit
RECURSIVE SmallVal(_, _, _)
SmallVal(s, i, acc) == IF i > Len(s) THEN acc
                       ELSE SmallVal(s, i + 1, acc * 10 + DigitVal[SubSeq(s, i, i)])
BSmall(x) == IF IsNeg(x) \/ Len(x) > 9 THEN -1 ELSE SmallVal(x, 1, 0)
BInt(n) == ToString(n)         \* from a TLC integer
=============================================================================

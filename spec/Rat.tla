-------------------------------- MODULE Rat ---------------------------------
(***************************************************************************)
(* Exact rational numbers: <<numerator, denominator>> in lowest terms with  *)
(* a positive denominator, both as the canonical strings of BigNum.  That   *)
(* is also what the saved data holds.                                       *)
(***************************************************************************)
EXTENDS BigNum

RNorm(n, d) ==
    LET g == BGcd(n, d)
        s == IF BSign(d) < 0 THEN BNeg(g) ELSE g
    IN IF s = "1" THEN <<n, d>> ELSE <<BQuot(n, s), BQuot(d, s)>>
RInt(x) == <<x, "1">>
RZero == RInt("0")
ROne == RInt("1")

RNeg(a) == <<BNeg(a[1]), a[2]>>
RAbs(a) == <<BAbs(a[1]), a[2]>>
RSign(a) == BSign(a[1])
RIsInt(a) == a[2] = "1"
RAdd(a, b) == IF a[2] = "1" /\ b[2] = "1" THEN <<BAdd(a[1], b[1]), "1">>
              ELSE RNorm(BAdd(BMul(a[1], b[2]), BMul(b[1], a[2])), BMul(a[2], b[2]))
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == RNorm(BMul(a[1], b[1]), BMul(a[2], b[2]))
RInv(a) == IF BSign(a[1]) < 0 THEN <<BNeg(a[2]), BNeg(a[1])>> ELSE <<a[2], a[1]>>   \* a # 0
RDiv(a, b) == RMul(a, RInv(b))                                                      \* b # 0
RCmp(a, b) == BCmp(BMul(a[1], b[2]), BMul(b[1], a[2]))
RTrunc(a) == BQuot(a[1], a[2])
RRem(a, b) == RSub(a, RMul(b, RInt(RTrunc(RDiv(a, b)))))                            \* b # 0
\* a to a power that is a natural number of TLC
RPow(a, n) == <<BPow(a[1], n), BPow(a[2], n)>>
RMax(a, b) == IF RCmp(a, b) >= 0 THEN a ELSE b
RMin(a, b) == IF RCmp(a, b) <= 0 THEN a ELSE b
RHalf == <<"1", "2">>
\* the text `numerator/denominator`, or just the numerator of an integer
RText(a) == IF RIsInt(a) THEN a[1] ELSE a[1] \o "/" \o a[2]
=============================================================================

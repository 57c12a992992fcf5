----------------------------- MODULE MC_BigNum ------------------------------
(***************************************************************************)
(* The laws of integer arithmetic on a set of values around the limb        *)
(* boundaries.  Run twice: on the definitions of BigNum as they stand, and  *)
(* with the operators overridden; each run also prints the table of results *)
(* it computed, and the two tables have to be equal.                        *)
(***************************************************************************)
EXTENDS BigNum, Json

Pos == {"0", "1", "2", "3", "7", "9", "10", "16", "9999", "10000", "10001", "65536", "99999999", "100000000",
        "123456789", "2147483648", "99999999999999999999", "100000000000000000000",
        "340282366920938463463374607431768211456"}
Vals == Pos \cup {BNeg(a) : a \in Pos}
Nats == Pos

Laws(a, b) ==
    /\ BAdd(a, b) = BAdd(b, a)
    /\ BSub(BAdd(a, b), b) = a
    /\ BMul(a, b) = BMul(b, a)
    /\ BMul(a, BAdd(b, "1")) = BAdd(BMul(a, b), a)
    /\ BCmp(a, b) = -BCmp(b, a)
    /\ (BCmp(a, b) = 0) <=> (a = b)
    /\ BSign(a) = BCmp(a, "0")
    /\ BAdd(a, BNeg(a)) = "0"
    /\ b # "0" =>
         /\ BAdd(BMul(BQuot(a, b), b), BRem(a, b)) = a
         /\ BCmp(BAbs(BRem(a, b)), BAbs(b)) < 0
         /\ BSign(BRem(a, b)) \in {0, BSign(a)}
         /\ LET g == BGcd(a, b) IN
              /\ BSign(g) = 1 /\ BRem(a, g) = "0" /\ BRem(b, g) = "0"
              /\ BGcd(BQuot(a, g), BQuot(b, g)) = "1"
Roots(a) == a \in Nats => \A n \in 1..4 :
            LET r == BIRoot(a, n) IN
            BCmp(BPow(r, n), a) <= 0 /\ BCmp(BPow(BAdd(r, "1"), n), a) > 0
Radix(a) == a \in Nats => \A r \in 2..16 :
            /\ BParse(BDigits(a, r), r) = a
            /\ BDigits(BNeg(a), r) = BDigits(a, r)
Powers(a) == BPow(a, 0) = "1" /\ BPow(a, 3) = BMul(a, BMul(a, a))
Small == \A n \in {0, 1, 12, 999, 10000, 999999999} : BSmall(BInt(n)) = n
         /\ BSmall(BInt(-n)) = (IF n = 0 THEN 0 ELSE -1)

Row(a, b) == <<a, b, BAdd(a, b), BSub(a, b), BMul(a, b), BCmp(a, b),
               IF b = "0" THEN "" ELSE BQuot(a, b), IF b = "0" THEN "" ELSE BRem(a, b),
               BGcd(a, b), BAbs(a), BNeg(a), BSign(a)>>
Row1(a) == <<a, [r \in 2..16 |-> BDigits(a, r)], BSmall(a), BPow(a, 3),
             IF a \in Nats THEN <<BIRoot(a, 1), BIRoot(a, 2), BIRoot(a, 3), BIRoot(a, 5)>> ELSE <<>>>>

VARIABLES x, y, done
Init == x \in Vals /\ y \in Vals /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE /\ UNCHANGED <<x, y>>
        /\ PrintT(ToJson(Row(x, y)))
        /\ y = "0" => PrintT(ToJson(Row1(x)))
        /\ Assert(Laws(x, y), <<"law", x, y>>)
        /\ Assert(y = "0" => Roots(x) /\ Radix(x) /\ Powers(x), <<"law", x>>)
        /\ Assert(Small, "small")
Spec == Init /\ [][Next]_<<x, y, done>>
=============================================================================

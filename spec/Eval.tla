-------------------------------- MODULE Eval --------------------------------
(***************************************************************************)
(* The value of a tree.  A result is                                        *)
(*   [t |-> "val", v]       exactly v                                       *)
(*   [t |-> "iv", lo, hi]   some value from lo to hi (an irrational root,   *)
(*                          or computed from one)                           *)
(*   [t |-> "any"]          a value or an error that depends on how an      *)
(*                          irrational root was rounded                     *)
(*   [t |-> "err", e]       an error                                        *)
(*   [t |-> "need", n]      the variable n has to be looked up first        *)
(* Operands are evaluated from left to right.                               *)
(***************************************************************************)
EXTENDS Parser

Val(v) == [t |-> "val", v |-> v]
Err(e) == [t |-> "err", e |-> e]
AnyR == [t |-> "any"]
Iv(lo, hi) == IF lo = hi THEN Val(lo) ELSE [t |-> "iv", lo |-> lo, hi |-> hi]
IsNum(r) == r.t \in {"val", "iv"}
Stops(r) == r.t \in {"err", "need"}
Lo(r) == IF r.t = "val" THEN r.v ELSE r.lo
Hi(r) == IF r.t = "val" THEN r.v ELSE r.hi

(* ---- roots --------------------------------------------------------------- *)
MaxPower == 100000      \* larger whole exponents are outside of what the specification computes,
MaxDigits == 300000     \* and so are powers of about this many digits
MaxDegree == 1000
\* The root of degree d of the rational r > 0, to within one unit of the last of `digits` digits
\* in `radix`; a millionth of such a unit is used to locate the root.
RootOf(r, d, digits, radix) ==
    LET fine == BMul(BPow(BInt(radix), digits), "1000000")
        f == BIRoot(BQuot(BMul(r[1], BPow(fine, d)), r[2]), d)       \* floor(root * fine)
        unit == RNorm("1", BPow(BInt(radix), digits))
        lo == RSub(RNorm(f, fine), unit)
        hi == RAdd(RNorm(BAdd(f, "1"), fine), unit)
        whole == BIRoot(BQuot(r[1], r[2]), d)
    IN IF RIsInt(r) /\ BPow(whole, d) = r[1] THEN Val(RInt(whole))
       ELSE [t |-> "iv", lo |-> lo, hi |-> hi]
NegR(r) == IF r.t = "val" THEN Val(RNeg(r.v))
           ELSE IF r.t = "iv" THEN [t |-> "iv", lo |-> RNeg(r.hi), hi |-> RNeg(r.lo)] ELSE r

\* base ^ exponent for exact operands; digits and radix say how precise a root has to be
Power(base, ex, digits, radix) ==
    IF RSign(ex) < 0 /\ RSign(base) = 0 THEN Err("div")
    ELSE LET b == IF RSign(ex) < 0 THEN RInv(base) ELSE base
             n == BAbs(ex[1])
             d == ex[2]
             unit == b \in {RZero, ROne, <<"-1", "1">>}
         IN IF ~unit /\ (BSmall(n) < 0 \/ BSmall(n) > MaxPower \/ Len(b[1]) + Len(b[2]) > MaxDigits \div (BSmall(n) + 1)) THEN AnyR
            ELSE LET rad == IF b = <<"-1", "1">> THEN (IF BRem(n, "2") = "0" THEN ROne ELSE b)
                            ELSE IF unit THEN (IF n = "0" THEN ROne ELSE b)
                            ELSE RPow(b, BSmall(n))
                 IN IF d = "1" THEN Val(rad)
                    ELSE IF RSign(rad) < 0 /\ BRem(d, "2") = "0" THEN Err("imag")
                    ELSE IF rad \in {RZero, ROne, <<"-1", "1">>} THEN Val(rad)
                    ELSE IF BSmall(d) < 0 \/ BSmall(d) > MaxDegree THEN AnyR
                    ELSE IF RSign(rad) < 0
                         THEN NegR(RootOf(RNeg(rad), BSmall(d), digits, radix))
                         ELSE RootOf(rad, BSmall(d), digits, radix)

(* ---- operators on results ------------------------------------------------- *)
Products(a, b) == {RMul(Lo(a), Lo(b)), RMul(Lo(a), Hi(b)), RMul(Hi(a), Lo(b)), RMul(Hi(a), Hi(b))}
Least(S) == CHOOSE x \in S : \A y \in S : RCmp(x, y) <= 0
Most(S) == CHOOSE x \in S : \A y \in S : RCmp(x, y) >= 0
HasZero(a) == RSign(Lo(a)) <= 0 /\ RSign(Hi(a)) >= 0
MulR(a, b) == IF a.t = "val" /\ b.t = "val" THEN Val(RMul(a.v, b.v))
              ELSE LET P == Products(a, b) IN Iv(Least(P), Most(P))
InvR(a) == Iv(RInv(Hi(a)), RInv(Lo(a)))         \* not across zero

\* for operands that are numbers
Binary(op, a, b, digits, radix) ==
    CASE op = "+" -> IF a.t = "val" /\ b.t = "val" THEN Val(RAdd(a.v, b.v))
                     ELSE Iv(RAdd(Lo(a), Lo(b)), RAdd(Hi(a), Hi(b)))
      [] op = "-" -> IF a.t = "val" /\ b.t = "val" THEN Val(RSub(a.v, b.v))
                     ELSE Iv(RSub(Lo(a), Hi(b)), RSub(Hi(a), Lo(b)))
      [] op = "*" -> MulR(a, b)
      [] op = "/" -> IF b.t = "val" /\ RSign(b.v) = 0 THEN Err("div")
                     ELSE IF b.t = "val" /\ a.t = "val" THEN Val(RDiv(a.v, b.v))
                     ELSE IF HasZero(b) THEN AnyR
                     ELSE MulR(a, InvR(b))
      [] op = "%" -> IF b.t = "val" /\ RSign(b.v) = 0 THEN Err("div")
                     ELSE IF a.t = "val" /\ b.t = "val" THEN Val(RRem(a.v, b.v))
                     ELSE AnyR
      [] op = "^" -> IF a.t = "val" /\ b.t = "val" THEN Power(a.v, b.v, digits, radix)
                     ELSE IF b.t = "val" /\ b.v = ROne THEN a
                     ELSE IF b.t = "val" /\ b.v = RZero THEN Val(ROne)
                     ELSE IF b.t = "val" /\ b.v = RInt("2") /\ ~HasZero(a) THEN MulR(a, a)
                     ELSE AnyR

Unary(op, a, digits, radix) ==
    CASE op = "neg" -> NegR(a)
      [] op = "abs" -> IF a.t = "val" THEN Val(RAbs(a.v))
                       ELSE IF ~HasZero(a) THEN Iv(Least({RAbs(Lo(a)), RAbs(Hi(a))}), Most({RAbs(Lo(a)), RAbs(Hi(a))}))
                       ELSE Iv(RZero, Most({RAbs(Lo(a)), RAbs(Hi(a))}))
      [] op = "sqrt" -> IF a.t = "val" THEN Power(a.v, RHalf, digits, radix)
                        ELSE AnyR

Pick(op, a, b) == IF op = "max" THEN Iv(RMax(Lo(a), Lo(b)), RMax(Hi(a), Hi(b)))
                  ELSE Iv(RMin(Lo(a), Lo(b)), RMin(Hi(a), Hi(b)))

(* ---- trees ------------------------------------------------------------------ *)
\* env maps names to results; digits and radix as above
RECURSIVE Eval(_, _, _, _)
RECURSIVE EvalArgs(_, _, _, _, _, _)
Eval(e, env, digits, radix) ==
    LET k == e[1] IN
    IF k = "num" THEN Val(e[2])
    ELSE IF k = "var" THEN IF e[2] \in DOMAIN env THEN env[e[2]] ELSE [t |-> "need", n |-> e[2]]
    ELSE IF k \in {"max", "min"} THEN
        IF e[2] = <<>> THEN Err(k) ELSE EvalArgs(k, e[2], 1, env, digits, radix)
    ELSE IF Len(e) = 2 THEN
        LET a == Eval(e[2], env, digits, radix)
        IN IF IsNum(a) THEN Unary(k, a, digits, radix) ELSE a
    ELSE LET a == Eval(e[2], env, digits, radix) IN
         IF Stops(a) THEN a
         ELSE LET b == Eval(e[3], env, digits, radix) IN
              IF Stops(b) THEN (IF a.t = "any" /\ b.t = "err" THEN AnyR ELSE b)
              ELSE IF a.t = "any" \/ b.t = "any" THEN AnyR
              ELSE Binary(k, a, b, digits, radix)
EvalArgs(k, args, i, env, digits, radix) ==
    LET a == Eval(args[i], env, digits, radix) IN
    IF Stops(a) \/ i = Len(args) THEN a
    ELSE LET b == EvalArgs(k, args, i + 1, env, digits, radix) IN
         IF Stops(b) THEN (IF a.t = "any" /\ b.t = "err" THEN AnyR ELSE b)
         ELSE IF a.t = "any" \/ b.t = "any" THEN AnyR
         ELSE Pick(k, a, b)
=============================================================================

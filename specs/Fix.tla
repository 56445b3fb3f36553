-------------------------------- MODULE Fix --------------------------------
(* Exact fixed-point numbers.  A number x stands for x/4096.  A result that  *)
(* cannot be represented exactly (or is too big for the 24-bit mantissa of a *)
(* single-precision number) is Bad; Bad is contagious.  Whether something is *)
(* Bad is decided here, by the specification, not by the implementation.     *)
EXTENDS Integers
S    == 4096
Bad  == 1999999998
Lim  == 8388607
MaxC == 2000000000      \* code of the largest counter value (2^63-1 or 2^64-1); MaxC - k is k below it

FAbs(x) == IF x < 0 THEN -x ELSE x
Fx(x) == IF FAbs(x) > Lim THEN Bad ELSE x     \* a logged number: too big or inexact ones are Bad
FAdd(a, b) == IF a = Bad \/ b = Bad THEN Bad ELSE Fx(a + b)
FNeg(a) == IF a = Bad THEN Bad ELSE -a
FSub(a, b) == FAdd(a, FNeg(b))
FMul(a, b) ==
    IF a = Bad \/ b = Bad THEN Bad
    ELSE IF a = 0 \/ b = 0 THEN 0
    ELSE IF FAbs(a) > 2000000000 \div FAbs(b) THEN Bad
    ELSE LET p == a * b IN IF p % S # 0 THEN Bad ELSE Fx(p \div S)
\* truncation towards zero, to a whole number (not scaled)
FTrunc(a) == IF a >= 0 THEN a \div S ELSE -((-a) \div S)
\* rounding half away from zero (scaled)
FRound(a) == IF a = Bad THEN Bad
             ELSE IF a >= 0 THEN ((a + S \div 2) \div S) * S ELSE -(((-a + S \div 2) \div S) * S)
FMax(a, b) == IF a >= b THEN a ELSE b
FMin(a, b) == IF a <= b THEN a ELSE b
=============================================================================

------------------------------- MODULE Fine -------------------------------
(* Fixed-point numbers with 16 fractional bits for learning quantities that *)
(* are not exact in binary: quotients, powers and exponentials.  Comparisons *)
(* against the implementation allow a few units in the last place.           *)
EXTENDS Integers, Sequences
U    == 65536
Huge == 1999999999              \* a number too large to be written down (for instance "no threshold")
Abs(x) == IF x < 0 THEN -x ELSE x
Close(a, b, tol) == (a = Huge /\ b = Huge) \/ (a # Huge /\ b # Huge /\ Abs(a - b) <= tol)
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b

\* a * b \div c and the remainder, without leaving 32 bits, for 0 <= a, c < 2^29
RECURSIVE MD(_, _, _)
MD(a, b, c) ==
    IF b = 0 THEN <<0, 0>>
    ELSE IF a <= 2000000000 \div b THEN <<(a * b) \div c, (a * b) % c>>
    ELSE LET x == MD(a, b \div 2, c)
             y == 2 * x[2] + (b % 2) * a
         IN <<2 * x[1] + y \div c, y % c>>
MulDiv(a, b, c) ==
    LET p == MD(Abs(a), Abs(b), Abs(c))[1]
        neg == ((IF a < 0 THEN 1 ELSE 0) + (IF b < 0 THEN 1 ELSE 0) + (IF c < 0 THEN 1 ELSE 0)) % 2 = 1
    IN IF neg THEN -p ELSE p
Mul(a, b) == MulDiv(a, b, U)

\* 2^-s in units of 2^-26, at most 1
One == 67108864
Roots == <<47453133, 56431603, 61539100, 64263668, 65670859, 66385968, 66746437, 66927405, 67018073,
           67063453, 67086155, 67097508, 67103186, 67106025, 67107444, 67108154>>
RECURSIVE Frac(_, _, _)
Frac(x, f, k) == IF k > 16 \/ f = 0 THEN x
                 ELSE LET b == 2 ^ (16 - k)
                      IN IF f >= b THEN Frac(MulDiv(x, Roots[k], One), f - b, k + 1) ELSE Frac(x, f, k + 1)
Exp2Neg(s) == IF s <= 0 THEN One
              ELSE IF s \div U >= 26 THEN 0
              ELSE Frac(One \div (2 ^ (s \div U)), s % U, 1)
\* e^-(n/d) in units of 2^-16, for whole n >= 0 and d > 0 in units of 2^-16
ExpNeg(n, d) == IF n = 0 THEN U
                ELSE IF n > 30 * (d \div U + 1) THEN 0
                ELSE Exp2Neg(MulDiv(n * 94548, U, d)) \div 1024
=============================================================================

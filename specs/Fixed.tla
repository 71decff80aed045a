-------------------------------- MODULE Fixed --------------------------------
(* Fixed point arithmetic in units of 0.00001; numbers up to about 14.      *)
EXTENDS Integers, Sequences, SequencesExt
One == 100000
FAbs(x) == IF x < 0 THEN -x ELSE x
MulPos(a, b) == ((a \div 1000) * b) \div 100 + ((a % 1000) * b) \div One
Mul(a, b) == IF (a < 0) = (b < 0) THEN MulPos(FAbs(a), FAbs(b)) ELSE -MulPos(FAbs(a), FAbs(b))
DivPos(a, b) == LET r1 == (a % b) * 1000
                    r2 == (r1 % b) * 100
                IN  (a \div b) * One + (r1 \div b) * 100 + r2 \div b
Div(a, b) == IF (a < 0) = (b < 0) THEN DivPos(FAbs(a), FAbs(b)) ELSE -DivPos(FAbs(a), FAbs(b))
\* The integer square root, one bit after another.
Isqrt(n) == IF n = 0 THEN 0 ELSE
    FoldLeft(LAMBDA r, k : IF r + 2^k <= n \div (r + 2^k) THEN r + 2^k ELSE r, 0, [i \in 1..16 |-> 16 - i])
Sqrt(x) == IF x <= 20000 THEN Isqrt(x * One)
           ELSE IF x <= 2000000 THEN Isqrt(x * 1000) * 10
           ELSE Isqrt(x * 10) * 100
Ln2 == 69315
\* exp(x) for x <= 0.
Exp(x) == IF x < -1150000 THEN 0 ELSE
    LET n == (-x) \div Ln2
        r == (-x) % Ln2
        t == FoldLeft(LAMBDA a, k : One - Mul(r \div k, a), One, [i \in 1..8 |-> 9 - i])
    IN  t \div 2^n
\* Natural logarithm of x > 0.
Ln(x) ==
    LET down == FoldLeft(LAMBDA a, k : IF a[1] > 140000 THEN <<a[1] \div 2, a[2] + 1>> ELSE a, <<x, 0>>, [i \in 1..16 |-> i])
        up == FoldLeft(LAMBDA a, k : IF a[1] < 70000 THEN <<a[1] * 2, a[2] - 1>> ELSE a, down, [i \in 1..18 |-> i])
        y == Div(up[1] - One, up[1] + One)
        q == Mul(y, y)
        series == 2 * Mul(y, One + Mul(q, 33333 + Mul(q, 20000 + Mul(q, 14286 + Mul(q, 11111)))))
    IN  series + up[2] * Ln2
\* ln(1 + exp(x)).
Softplus(x) == IF x <= 0 THEN Ln(One + Exp(x)) ELSE x + Ln(One + Exp(-x))
=============================================================================

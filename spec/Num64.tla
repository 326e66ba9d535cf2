------------------------------- MODULE Num64 -------------------------------
(* 64 bit numbers, which TLC cannot hold: triples of 22 bit digits.        *)
EXTENDS Integers
Digit == 4194304
Zero == <<0, 0, 0>>
Top == <<1048575, 4194303, 4194303>>
Num(n) == <<0, n \div Digit, n % Digit>>
Less(x, y) == \/ x[1] < y[1]
              \/ x[1] = y[1] /\ x[2] < y[2]
              \/ x[1] = y[1] /\ x[2] = y[2] /\ x[3] < y[3]
LessEq(x, y) == x = y \/ Less(x, y)
Plus(x, y) == LET a == x[3] + y[3]
                  b == x[2] + y[2] + a \div Digit IN <<x[1] + y[1] + b \div Digit, b % Digit, a % Digit>>
Minus(x, y) == LET a == x[3] - y[3]
                   b == x[2] - y[2] + (IF a < 0 THEN -1 ELSE 0)
               IN <<x[1] - y[1] + (IF b < 0 THEN -1 ELSE 0), (b + 2 * Digit) % Digit, (a + Digit) % Digit>>
Least(x, y) == IF Less(x, y) THEN x ELSE y
=============================================================================

------------------------------- MODULE PPRat -------------------------------
(***************************************************************************)
(* Exact rational arithmetic on 32-bit integers and its comparison with    *)
(* the floating point numbers recorded from the implementation.            *)
(*                                                                         *)
(* A recorded number is <<i, f>>, meaning i + f * 10^-9 with 0 <= f < 10^9 *)
(* and i its floor; anything which is not a finite number is a tuple of    *)
(* length one, e.g. <<"nan">>.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Abs(x) == IF x < 0 THEN -x ELSE x
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b
Idx(n) == [i \in 1..n |-> i]

SumTo(n, F(_)) == FoldLeft(LAMBDA a, i : a + F(i), 0, Idx(n))
SumRange(lo, hi, F(_)) ==
    IF hi < lo THEN 0 ELSE FoldLeft(LAMBDA a, i : a + F(lo + i - 1), 0, Idx(hi - lo + 1))
SumSeq(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
SumOver(s, F(_)) == FoldLeft(LAMBDA a, x : a + F(x), 0, s)
SumIn(S, F(_)) == FoldSet(LAMBDA x, a : a + F(x), 0, S)

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

\* A rational in lowest terms, positive denominator
Rat(n, d) == LET g == Gcd(Abs(n), Abs(d))
                 s == IF d < 0 THEN -1 ELSE 1
             IN IF n = 0 THEN <<0, 1>> ELSE <<s * (n \div g), s * (d \div g)>>
RatAdd(a, b) == LET g == Gcd(a[2], b[2])
                IN Rat(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
RatMul(a, b) == LET g == Gcd(Abs(a[1]), b[2])
                    h == Gcd(Abs(b[1]), a[2])
                    gg == IF g = 0 THEN 1 ELSE g
                    hh == IF h = 0 THEN 1 ELSE h
                IN Rat((a[1] \div gg) * (b[1] \div hh), (a[2] \div hh) * (b[2] \div gg))

IsNum(x) == Len(x) = 2

\* First nine decimal digits of r / d, for 0 <= r < d < 2 * 10^8
RECURSIVE Digits(_, _, _)
Digits(r, d, w) == IF w = 0 THEN 0
                   ELSE ((r * 10) \div d) * w + Digits((r * 10) % d, d, w \div 10)

\* Fixed point representation of n / d (floor, nine digits).  TLC's \div
\* and % round towards minus infinity for a positive divisor.
Fix(n, d) == IF d < 0 THEN LET m == -n  e == -d
                           IN <<m \div e, Digits(m % e, e, 100000000)>>
             ELSE <<n \div d, Digits(n % d, d, 100000000)>>

\* Difference of two fixed point numbers in units of 10^-9, saturated
FixDiff(x, y) == LET di == x[1] - y[1]
                 IN IF di > 1 THEN 2000000000
                    ELSE IF di < -1 THEN -2000000000
                    ELSE di * 1000000000 + (x[2] - y[2])

Tol == 30
NearTol(x, n, d, tol) == Len(x) = 2 /\ Abs(FixDiff(x, Fix(n, d))) <= tol
Near(x, n, d) == NearTol(x, n, d, Tol)
NearFix(x, y, tol) == Len(x) = 2 /\ Len(y) = 2 /\ Abs(FixDiff(x, y)) <= tol

FixAdd(x, y) == LET f == x[2] + y[2]
                IN IF f >= 1000000000 THEN <<x[1] + y[1] + 1, f - 1000000000>>
                   ELSE <<x[1] + y[1], f>>
FixNeg(x) == IF x[2] = 0 THEN <<-x[1], 0>> ELSE <<-x[1] - 1, 1000000000 - x[2]>>
FixSub(x, y) == FixAdd(x, FixNeg(y))

\* x / n for a fixed point x and a small positive integer n (n < 2 * 10^8):
\* long division, three digits at a time would overflow, one at a time does not
RECURSIVE FixDivD(_, _, _, _)
FixDivD(r, f, n, w) ==  \* r: remainder, f: remaining digits, w: weight of the next digit
    IF w = 0 THEN 0
    ELSE LET dig == (f \div w) % 10
             t == r * 10 + dig
         IN (t \div n) * w + FixDivD(t % n, f, n, w \div 10)
FixDiv(x, n) == <<x[1] \div n, FixDivD(x[1] % n, x[2], n, 100000000)>>

\* x * n for |n| up to 20: add repeatedly
RECURSIVE FixMulN(_, _)
FixMulN(x, n) == IF n = 0 THEN <<0, 0>>
                 ELSE IF n < 0 THEN FixNeg(FixMulN(x, -n))
                 ELSE IF n % 2 = 0 THEN LET y == FixMulN(x, n \div 2) IN FixAdd(y, y)
                 ELSE FixAdd(x, FixMulN(x, n - 1))

\* Sequences of recorded numbers equal up to tolerance
SameSeq(a, b, tol) == /\ Len(a) = Len(b)
                      /\ \A i \in 1..Len(a) : \/ a[i] = b[i]
                                              \/ NearFix(a[i], b[i], tol)
=============================================================================

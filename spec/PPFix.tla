-------------------------------- MODULE PPFix -------------------------------
(***************************************************************************)
(* Products, roots and circular functions of fixed point numbers           *)
(* <<i, f>> = i + f * 10^-9, see PPRat.                                    *)
(***************************************************************************)
EXTENDS PPRat

FixAbs(x) == IF x[1] < 0 THEN FixNeg(x) ELSE x
FixZero == <<0, 0>>
FixOne == <<1, 0>>
FixInt(n) == <<n, 0>>

\* x <= y
FixLe(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])

\* Product of non-negative numbers: limbs in base 1000
FixMulP(x, y) ==
    LET xi == x[1]  xa == x[2] \div 1000000  xb == (x[2] \div 1000) % 1000  xc == x[2] % 1000
        yi == y[1]  ya == y[2] \div 1000000  yb == (y[2] \div 1000) % 1000  yc == y[2] % 1000
        c4 == xa * yc + xb * yb + xc * ya
        c3 == xi * yc + xa * yb + xb * ya + xc * yi + c4 \div 1000
        c2 == xi * yb + xa * ya + xb * yi + c3 \div 1000
        c1 == xi * ya + xa * yi + c2 \div 1000
    IN <<xi * yi + c1 \div 1000, (c1 % 1000) * 1000000 + (c2 % 1000) * 1000 + (c3 % 1000)>>
FixMul(x, y) ==
    LET p == FixMulP(FixAbs(x), FixAbs(y))
    IN IF (x[1] < 0) = (y[1] < 0) THEN p ELSE FixNeg(p)
FixSqr(x) == LET a == FixAbs(x) IN FixMulP(a, a)

\* Square root of a non-negative fixed point number, digit by digit
RECURSIVE FixRootI(_, _, _)
FixRootI(x, lo, hi) == \* lo^2 <= x < hi^2
    IF hi = lo + 1 THEN lo
    ELSE LET m == (lo + hi) \div 2
         IN IF m * m <= x THEN FixRootI(x, m, hi) ELSE FixRootI(x, lo, m)
RECURSIVE FixRootD(_, _, _)
FixRootD(x, r, w) ==
    IF w = 0 THEN r
    ELSE LET ok(d) == FixLe(FixMulP(<<r[1], r[2] + d * w>>, <<r[1], r[2] + d * w>>), x)
             RECURSIVE top(_, _)
             top(lo, hi) == IF hi = lo + 1 THEN lo
                            ELSE LET m == (lo + hi) \div 2 IN IF ok(m) THEN top(m, hi) ELSE top(lo, m)
         IN FixRootD(x, <<r[1], r[2] + top(0, 10) * w>>, w \div 10)
FixSqrt(x) == IF x = FixZero THEN x ELSE FixRootD(x, <<FixRootI(x[1], 0, MinI(x[1] + 2, 46340)), 0>>, 100000000)

FixSum(s) == FoldLeft(LAMBDA a, x : FixAdd(a, x), FixZero, s)
FixSumTo(n, F(_)) == FoldLeft(LAMBDA a, i : FixAdd(a, F(i)), FixZero, Idx(n))
FixSumIn(S, F(_)) == FoldSet(LAMBDA x, a : FixAdd(a, F(x)), FixZero, S)

\* n times x, and x * n / d
FixScale(x, n) == IF n = 1 THEN x ELSE IF n = 0 THEN FixZero ELSE FixMul(x, FixInt(n))
FixFrac(x, n, d) == FixDiv(FixScale(x, n), d)

TwoPi == <<6, 283185307>>

\* sin and cos of an angle 0 <= a <= pi/4
FixSin8(a) ==
    LET q == FixMulP(a, a)
        h(x, n) == FixSub(FixOne, FixDiv(FixMul(q, x), n))
    IN FixMul(a, h(h(h(h(h(FixOne, 110), 72), 42), 20), 6))
FixCos8(a) ==
    LET q == FixMulP(a, a)
        h(x, n) == FixSub(FixOne, FixDiv(FixMul(q, x), n))
    IN h(h(h(h(h(h(FixOne, 132), 90), 56), 30), 12), 2)
\* in the first quadrant, of r turns, r = 0.f
FixSinQ(f) == IF f <= 125000000 THEN FixSin8(FixMulP(TwoPi, <<0, f>>))
              ELSE FixCos8(FixMulP(TwoPi, <<0, 250000000 - f>>))
\* of any number of turns
FixSinT(y) ==
    LET q == y[2] \div 250000000
        r == y[2] % 250000000
    IN CASE q = 0 -> FixSinQ(r)
         [] q = 1 -> FixSinQ(250000000 - r)
         [] q = 2 -> FixNeg(FixSinQ(r))
         [] q = 3 -> FixNeg(FixSinQ(250000000 - r))
FixCosT(y) == FixSinT(FixAdd(y, <<0, 250000000>>))

\* |x - y| <= a + 10^-6 |y|, a in units of 10^-9
NearRel(x, y, a) ==
    IsNum(x) /\ Abs(FixDiff(x, y)) <= a + 1000 * MinI(1000000, FixAbs(y)[1])
=============================================================================

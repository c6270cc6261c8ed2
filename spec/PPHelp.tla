-------------------------------- MODULE PPHelp ------------------------------
(***************************************************************************)
(* Derived quantities (C17): roots, extrema, linear fits, grids, and the   *)
(* results of the analysis of the correlations.                            *)
(*                                                                         *)
(* Data are pairs (x, y): x is an integer X[i] times the rational scale    *)
(* xs = <<p, q>>, y a recorded number.  The results are characterised by   *)
(* the equations they satisfy, so that no division is needed: these are    *)
(* linear in the y's with integer coefficients.                            *)
(***************************************************************************)
EXTENDS PPLife

\* x in units of the scale
Unscale(x, xs) == FixFrac(x, xs[2], xs[1])
\* a rational, as a recorded number
FixRat(r) == Fix(r[1], r[2])
\* |x - y| <= tol, in units of 10^-9, tol saturated
Within9(x, y, tol) == IsNum(x) /\ Abs(FixDiff(x, y)) <= MinI(tol, 500000000)
EqTol == 20
\* 1 / e
EInv == <<0, 367879441>>

FixLt(x, y) == ~FixLe(y, x)
FixMaxOf(y) == FoldLeft(LAMBDA a, x : IF FixLe(a, x) THEN x ELSE a, y[1], y)
FixMinOf(y) == FoldLeft(LAMBDA a, x : IF FixLe(x, a) THEN x ELSE a, y[1], y)
Negated(y) == [i \in 1..Len(y) |-> FixNeg(y[i])]
AllNum(y) == \A i \in 1..Len(y) : IsNum(y[i])

(***************************************************************************)
(* Maximum: the vertex of the parabola through the highest point and its   *)
(* neighbours, or the point itself at the boundaries.                      *)
(* t, h: recorded position and height                                      *)
(***************************************************************************)
VertexOk(X, xs, y, i, t, h) ==
    LET T == FixSub(Unscale(t, xs), FixInt(X[i]))  \* from the highest point
        u == X[i] - X[i - 1]
        v == X[i + 1] - X[i]
        m == u + v
        e1 == FixSub(y[i - 1], y[i])
        e3 == FixSub(y[i + 1], y[i])
        \* curvature times u v m / 2, and derivative, at the highest point
        a == FixAdd(FixScale(e3, u), FixScale(e1, v))
        b == FixDiv(FixSub(FixFrac(e3, u, v), FixFrac(e1, v, u)), m)
    IN /\ FixLe(FixInt(-u), FixAdd(T, <<0, 1000>>)) /\ FixLe(T, FixAdd(FixInt(v), <<0, 1000>>))
       /\ Within9(FixMul(FixScale(T, 2), a), FixNeg(FixSub(FixScale(e3, u * u), FixScale(e1, v * v))), 60 * m * m + (60 * xs[2] * m) \div xs[1])
       /\ Within9(FixSub(h, y[i]), FixDiv(FixMul(b, T), 2), 100 * (1 + u \div v + v \div u) * (1 + m))
MaxOk1(X, xs, y, i, t, h) ==
    IF i = 1 \/ i = Len(y) THEN Within9(Unscale(t, xs), FixInt(X[i]), 40 + (40 * xs[2]) \div xs[1]) /\ Within9(h, y[i], EqTol)
    ELSE VertexOk(X, xs, y, i, t, h)
\* Data which are constant up to round-off have no maximum to speak of
Flat(y) == Within9(FixMaxOf(y), FixMinOf(y), 200)
MaxOk(X, xs, y, t, h) ==
    \/ Flat(y)
    \/ /\ IsNum(t) /\ IsNum(h)
       /\ LET top == FixMaxOf(y)
              I == {i \in 1..Len(y) : Within9(y[i], top, EqTol)}
          IN \E i \in I : MaxOk1(X, xs, y, i, t, h)
\* The first of the highest points, for exact data
MaxOkStrict(X, xs, y, t, h) ==
    /\ IsNum(t) /\ IsNum(h)
    /\ LET top == FixMaxOf(y) IN MaxOk1(X, xs, y, Min({i \in 1..Len(y) : y[i] = top}), t, h)

(***************************************************************************)
(* First root of y = f: a point of the data, or linearly interpolated      *)
(* between those where the sign changes.  t: recorded position, <<>> if    *)
(* there is none                                                           *)
(***************************************************************************)
NearEq(y, f) == Within9(y, f, EqTol)
\* Index of the first root: eq(i): on the point i, neg(i): on the negative side
FirstRoot(n, eq(_), neg(_)) ==
    LET I == {i \in 1..n : eq(i) \/ neg(i) # neg(1)} IN IF I = {} THEN 0 ELSE Min(I)
RootOk(X, xs, y, f, i, on, t) ==
    IF i = 0 THEN t = <<>>
    ELSE /\ IsNum(t)
         /\ LET T == Unscale(t, xs)
            IN IF on \/ i = 1 THEN Within9(T, FixInt(X[i]), 40 + (40 * xs[2]) \div xs[1])
               ELSE LET dx == X[i] - X[i - 1]
                        dy == FixSub(y[i], y[i - 1])
                        Y == 1 + FixAbs(dy)[1]
                    IN /\ Within9(FixMul(FixSub(T, FixInt(X[i - 1])), dy), FixScale(FixSub(f, y[i - 1]), dx),
                                  60 * dx + ((20 * xs[2]) \div xs[1]) * Y + 20 * Y)
                       /\ FixLe(FixSub(FixInt(X[i - 1]), <<0, 1000>>), T) /\ FixLe(T, FixAdd(FixInt(X[i]), <<0, 1000>>))
CrossStrict(X, xs, y, f, t) ==
    LET i == FirstRoot(Len(y), LAMBDA j : y[j] = f, LAMBDA j : FixLt(y[j], f))
    IN RootOk(X, xs, y, f, i, i > 0 /\ y[i] = f, t)
\* Points close to f within round-off may be taken as equal, or on either side
CrossOk(X, xs, y, f, t) ==
    LET never(j) == FALSE
        near(j) == NearEq(y[j], f)
        below(j) == FixLt(y[j], f)
        i0 == FirstRoot(Len(y), near, below)
        i1 == FirstRoot(Len(y), never, LAMBDA j : below(j) \/ near(j))
        i2 == FirstRoot(Len(y), never, LAMBDA j : below(j) /\ ~near(j))
    IN \/ RootOk(X, xs, y, f, i0, i0 > 0 /\ near(i0), t)
       \/ RootOk(X, xs, y, f, i1, FALSE, t)
       \/ RootOk(X, xs, y, f, i2, FALSE, t)

(***************************************************************************)
(* Least-squares line                                                      *)
(***************************************************************************)
\* weights of the slope and their normalisation
FitW(X) == LET S == SumSeq(X) IN [i \in 1..Len(X) |-> Len(X) * X[i] - S]
FitD(X) == LET W == FitW(X) IN SumTo(Len(X), LAMBDA i : W[i] * X[i])
\* slope in units of the scale
FitA(X, y) == LET W == TLCEval(FitW(X)) IN FixDiv(FixSumTo(Len(X), LAMBDA i : FixScale(y[i], W[i])), FitD(X))
FitB(X, y, A) == FixDiv(FixSub(FixSum(y), FixScale(A, SumSeq(X))), Len(X))
SlopeTol(X, xs) == LET W == FitW(X) IN 60 + (60 * xs[2]) \div xs[1] + (4 * SumTo(Len(X), LAMBDA i : Abs(W[i])) * xs[2]) \div (FitD(X) * xs[1])
SlopeOk(X, xs, y, a) == IsNum(a) /\ NearRel(a, FixFrac(FitA(X, y), xs[2], xs[1]), SlopeTol(X, xs))
\* squares of the errors of the slope and of the intercept
FitOk(X, xs, y, r) ==
    LET n == Len(X)
        A == TLCEval(FitA(X, y))
        B == TLCEval(FitB(X, y, A))
        D == FitD(X)
        res == TLCEval([i \in 1..n |-> FixSub(y[i], FixAdd(B, FixScale(A, X[i])))])
        s2 == IF n > 2 THEN FixDiv(FixSumTo(n, LAMBDA i : FixSqr(res[i])), n - 2) ELSE FixZero
        sa == FixFrac(FixFrac(FixFrac(s2, n, D), xs[2], xs[1]), xs[2], xs[1])
        sb == FixFrac(s2, SumTo(n, LAMBDA i : X[i] * X[i]), D)
        big == 1 + MaxI(FixAbs(FixMaxOf(y))[1], FixAbs(FixMinOf(y))[1])
    IN (IF SlopeOk(X, xs, y, r.a) THEN {} ELSE {"slope"})
       \cup (IF IsNum(r.b) /\ NearRel(r.b, B, 100 + 10 * MaxI(Abs(X[1]), Abs(X[n]))) THEN {} ELSE {"intercept"})
       \cup (IF IsNum(r.sa2) /\ NearRel(r.sa2, sa, 200 * big) THEN {} ELSE {"slope-error"})
       \cup (IF IsNum(r.sb2) /\ NearRel(r.sb2, sb, 200 * big) THEN {} ELSE {"intercept-error"})

(***************************************************************************)
(* Grids                                                                   *)
(***************************************************************************)
RatSub(a, b) == RatAdd(a, <<-b[1], b[2]>>)
RatInv(a) == IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
RECURSIVE RatPow(_, _)
RatPow(r, n) == IF n = 0 THEN <<1, 1>> ELSE RatMul(r, RatPow(r, n - 1))
GridIs(g, E) == Len(g) = Len(E) /\ \A i \in 1..Len(E) : IsNum(g[i]) /\ NearRel(g[i], FixRat(E[i]), 30)
LinGrid(e) ==
    IF e.by = "n" THEN [i \in 1..e.num |-> IF i = 1 THEN e.a ELSE RatAdd(e.a, RatMul(<<i - 1, e.num - 1>>, RatSub(e.b, e.a)))]
    ELSE LET q == RatMul(RatSub(e.b, e.a), RatInv(e.d))
         IN [i \in 1..(q[1] \div q[2] + 1) |-> RatAdd(e.a, RatMul(<<i - 1, 1>>, e.d))]
\* n points from x1 to x2 = x1 r^n
LogGrid(e) == [i \in 1..e.num |-> IF i = 1 THEN e.x1 ELSE RatMul(e.x1, RatPow(e.r, i))]
\* n points from 0 to x2 = r^n
LogGrid0(e) == [i \in 1..e.num |-> IF i = 1 THEN <<0, 1>> ELSE RatSub(RatPow(e.r, i), <<1, 1>>)]

HelpVerdict(e) ==
    IF ~e.res.ok THEN {"raised-" \o e.res.exc}
    ELSE CASE e.fn = "linear_grid" -> IF GridIs(e.res.g, LinGrid(e)) THEN {} ELSE {"linear-grid"}
           [] e.fn = "logx_grid" ->
                IF e.x1[1] > 0 THEN IF GridIs(e.res.g, LogGrid(e)) THEN {} ELSE {"logarithmic-grid"}
                ELSE IF Len(e.res.g) = e.num /\ e.num > 1 /\ NearRel(e.res.g[e.num], FixRat(RatPow(e.r, e.num)), 30) THEN {}
                ELSE IF e.num = 1 THEN (IF GridIs(e.res.g, LogGrid0(e)) THEN {} ELSE {"logarithmic-grid-from-zero"})
                \* the last point is x2 - 1
                ELSE IF GridIs(e.res.g, LogGrid0(e)) THEN {"log-grid-from-zero-ends-early"}
                ELSE {"logarithmic-grid-from-zero"}
           [] e.fn = "ifabsmm" ->
                (IF MaxOkStrict(e.X, e.xs, e.y, e.res.tmax, e.res.hmax) THEN {} ELSE {"maximum"})
                \cup (IF MaxOkStrict(e.X, e.xs, Negated(e.y), e.res.tmin, IF IsNum(e.res.hmin) THEN FixNeg(e.res.hmin) ELSE e.res.hmin)
                      THEN {} ELSE {"minimum"})
           [] e.fn = "linear_fit" -> FitOk(e.X, e.xs, e.y, e.res)
           [] e.fn = "feqc" -> IF CrossStrict(e.X, e.xs, e.y, e.f, e.res.t) THEN {} ELSE {"root"}

(***************************************************************************)
(* Analysis of a correlation                                               *)
(***************************************************************************)
Found(an, key) == \E i \in 1..Len(an) : an[i][1] = key
Value(an, key) == IF Found(an, key) THEN (an[CHOOSE i \in 1..Len(an) : an[i][1] = key])[2] ELSE <<>>

\* Diffusion coefficient from the points where the data exceed sigma^2
Diffusion(e, keep(_)) ==
    LET I == Sorted({i \in 1..Len(e.y) : keep(i)})
        X == [k \in 1..Len(I) |-> e.X[I[k]]]
        y == [k \in 1..Len(I) |-> e.y[I[k]]]
        D == Value(e.res.an, "diffusion coefficient D")
    IN IF Len(I) < 2 THEN D = <<>>
       ELSE IsNum(D) /\ SlopeOk(X, e.xs, y, FixScale(D, 2 * e.nd))
DiffusionOk(e) ==
    LET s2 == FixRat(e.sig2)
    IN \/ Diffusion(e, LAMBDA i : FixLt(s2, e.y[i]) /\ ~NearEq(e.y[i], s2))
       \/ Diffusion(e, LAMBDA i : FixLt(s2, e.y[i]) \/ NearEq(e.y[i], s2))

TauOk(e) ==
    /\ Len(e.res.tau) = Cardinality({e.ks[i] : i \in 1..Len(e.ks)})
    /\ \A i \in 1..Len(e.ks) : \E j \in 1..Len(e.res.tau) :
         /\ NearFix(e.res.tau[j][1], e.ks[i], 1)
         /\ \E m \in 1..Len(e.ks) : /\ NearFix(e.ks[m], e.ks[i], 1)
                                    /\ CrossOk(e.X, e.xs, e.ys[m], FixMul(EInv, e.ys[m][1]),
                                               IF Len(e.res.tau[j]) = 2 THEN e.res.tau[j][2] ELSE <<>>)
    \* in the order of the grid
    /\ Len(e.res.tau) = Len(e.ks) => \A j \in 1..Len(e.ks) : NearFix(e.res.tau[j][1], e.ks[j], 1)

GridKnown(e) == Len(e.X) > 0 /\ \A i \in 1..Len(e.X) : NearRel(e.g[i], Fix(e.X[i] * e.xs[1], e.xs[2]), 30)

DeriveVerdict(e) ==
    IF ~e.res.ok THEN {"raised-" \o e.res.exc}
    ELSE IF ~GridKnown(e) THEN {"time-grid"}
    ELSE CASE e.kind = "msd" ->
                (IF CrossOk(e.X, e.xs, e.y, FixRat(e.sig2), Value(e.res.an, "diffusive time tau_D")) THEN {} ELSE {"diffusion-time"})
                \cup (IF DiffusionOk(e) THEN {} ELSE {"diffusion-coefficient"})
           [] e.kind = "qst" -> IF CrossOk(e.X, e.xs, e.y, EInv, Value(e.res.an, "tau")) THEN {} ELSE {"relaxation-time"}
           [] e.kind = "alpha2" ->
                IF ~AllNum(e.y) THEN {}
                ELSE IF MaxOk(e.X, e.xs, e.y, Value(e.res.an, "t_star"), Value(e.res.an, "a2_star")) THEN {} ELSE {"maximum"}
           [] e.kind = "chi4" ->
                IF MaxOk(e.X, e.xs, e.y, Value(e.res.an, "peak time tau_star"), Value(e.res.an, "peak height chi4_star"))
                THEN {} ELSE {"maximum"}
           [] e.kind \in {"fskt", "fkt"} ->
                IF \E i \in 1..Len(e.ys) : ~AllNum(e.ys[i]) THEN {}
                ELSE IF TauOk(e) THEN {} ELSE {"relaxation-times"}
           \* nothing to analyse
           [] OTHER -> IF Len(e.res.an) = 0 THEN {} ELSE {"unexpected-analysis"}
=============================================================================

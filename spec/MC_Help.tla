------------------------------ MODULE MC_Help -------------------------------
(***************************************************************************)
(* Design model of the derived quantities (C17): the equations by which    *)
(* the results are recognised have one solution each, the right one, for   *)
(* all the data on a small lattice.                                        *)
(*   "fit"    least-squares lines                                          *)
(*   "cross"  first roots                                                  *)
(*   "max"    extrema                                                      *)
(*   "grid"   linear and logarithmic grids                                 *)
(***************************************************************************)
EXTENDS PPHelp

CONSTANTS Areas, MaxN, MaxX, MaxY

VARIABLES area, w, log
vars == <<area, w, log>>

Scales == {<<1, 1>>, <<1, 2>>, <<3, 1>>}
Increasing(X) == \A i \in 1..(Len(X) - 1) : X[i] < X[i + 1]
Abscissae == {X \in UNION {[1..n -> 0..MaxX] : n \in 2..MaxN} : Increasing(X)}

Init == /\ area \in Areas /\ log = <<>>
        /\ CASE area \in {"fit", "cross"} -> \E X \in Abscissae, s \in Scales : w = [X |-> X, xs |-> s]
             [] area = "max" -> \E n \in 2..MaxN, s \in Scales : w = [X |-> [i \in 1..n |-> i - 1], xs |-> s]
             [] area = "grid" -> \E n \in 1..(2 * MaxN) : w = [num |-> n]
Next == /\ log = <<>> /\ UNCHANGED <<area, w>>
        /\ CASE area = "grid" -> \E p \in (-MaxY)..MaxY, d \in 1..MaxX, q \in {1, 3, 4} :
                                   log' = <<[a |-> Rat(p, q), b |-> Rat(p + d, q), d |-> Rat(d, q * w.num), num |-> w.num,
                                             r |-> Rat(q + d, q)]>>
             [] OTHER -> \E y \in [1..Len(w.X) -> 0..MaxY] : log' = <<y>>
RatEq(a, b) == RatSub(a, b)[1] = 0
Spec == Init /\ [][Next]_vars

Y == [i \in DOMAIN log[1] |-> FixInt(log[1][i])]
\* A position in units of the scale, as recorded
Pos(r) == FixRat(RatMul(r, w.xs))

(***************************************************************************)
(* Fits                                                                    *)
(***************************************************************************)
OnFit == area = "fit" /\ log # <<>>
\* Normal equations, up to round-off
Normal == OnFit => LET y == TLCEval(Y)
                       A == TLCEval(FitA(w.X, y))
                       B == TLCEval(FitB(w.X, y, A))
                       res == TLCEval([i \in DOMAIN y |-> FixSub(y[i], FixAdd(B, FixScale(A, w.X[i])))])
                   IN /\ Within9(FixSum(res), FixZero, 200)
                      /\ Within9(FixSumTo(Len(y), LAMBDA i : FixScale(res[i], w.X[i])), FixZero, 400)
\* The points of a line: slope s, intercept log[1][1], whatever the spacing
Line(s) == [i \in DOMAIN w.X |-> FixInt(log[1][1] + s * w.X[i])]
Collinear == OnFit => \A s \in (-2)..2 :
    LET y == TLCEval(Line(s))
        right == [a |-> FixFrac(FixInt(s), w.xs[2], w.xs[1]), b |-> FixInt(log[1][1]), sa2 |-> FixZero, sb2 |-> FixZero]
    IN /\ FitOk(w.X, w.xs, y, right) = {}
       /\ "slope" \in FitOk(w.X, w.xs, y, [right EXCEPT !.a = FixAdd(@, <<0, 1000000>>)])
       /\ "intercept" \in FitOk(w.X, w.xs, y, [right EXCEPT !.b = FixAdd(@, <<0, 1000000>>)])
\* No other line has a smaller sum of squares
Squares(y, A, B) == FixSumTo(Len(y), LAMBDA i : FixSqr(FixSub(y[i], FixAdd(B, FixScale(A, w.X[i])))))
Least == OnFit => LET y == TLCEval(Y)
                      A == TLCEval(FitA(w.X, y))
                      B == TLCEval(FitB(w.X, y, A))
                      best == TLCEval(Squares(y, A, B))
                  IN \A da, db \in {-1, 0, 1} : FixLe(best, FixAdd(Squares(y, FixAdd(A, Fix(da, 100)), FixAdd(B, Fix(db, 100))), <<0, 1000>>))

(***************************************************************************)
(* Roots: the values are integer, f is integer or not                      *)
(***************************************************************************)
OnCross == area = "cross" /\ log # <<>>
Levels == {<<p, q>> : p \in 0..(2 * MaxY), q \in {2}}
\* The root from its definition: <<>> or a rational
Below(i, f) == 2 * log[1][i] < f[1]
Root(f) ==
    LET y == log[1]
        on(i) == 2 * y[i] = f[1]
        I == {i \in 1..Len(y) : on(i) \/ (i > 1 /\ Below(i, f) # Below(i - 1, f))}
    IN IF I = {} THEN <<>>
       ELSE LET i == Min(I)
            IN IF on(i) THEN <<w.X[i], 1>>
               ELSE RatAdd(<<w.X[i - 1], 1>>, Rat((f[1] - 2 * y[i - 1]) * (w.X[i] - w.X[i - 1]), 2 * (y[i] - y[i - 1])))
RootFound == OnCross => \A f \in Levels :
    LET y == TLCEval(Y)  r == TLCEval(Root(f))  ff == FixRat(f)
    IN IF r = <<>> THEN CrossStrict(w.X, w.xs, y, ff, <<>>) /\ CrossOk(w.X, w.xs, y, ff, <<>>)
       ELSE /\ CrossStrict(w.X, w.xs, y, ff, Pos(r)) /\ CrossOk(w.X, w.xs, y, ff, Pos(r))
            /\ ~CrossStrict(w.X, w.xs, y, ff, <<>>)
\* and nothing else
RootOnly == OnCross => \A f \in Levels :
    LET y == TLCEval(Y)  r == TLCEval(Root(f))  ff == FixRat(f)
    IN \A x \in 0..(12 * MaxX) : LET z == Rat(x, 12) IN CrossStrict(w.X, w.xs, y, ff, Pos(z)) => r # <<>> /\ RatEq(z, r)
\* The root is where the data, interpolated, equal the level
RootMeans == OnCross => \A f \in Levels :
    LET r == Root(f) IN r # <<>> => RatLe(<<w.X[1], 1>>, r) /\ RatLe(r, <<w.X[Len(w.X)], 1>>)

(***************************************************************************)
(* Extrema                                                                 *)
(***************************************************************************)
OnMax == area = "max" /\ log # <<>>
TopOf(y) == Min({i \in 1..Len(y) : \A j \in 1..Len(y) : y[j] <= y[i]})
\* Vertex of the parabola through three points, equally spaced
VertexOf(y) ==
    LET i == TopOf(y)
        c == y[i - 1] - 2 * y[i] + y[i + 1]
        b == y[i + 1] - y[i - 1]
    IN IF i = 1 \/ i = Len(y) THEN <<<<w.X[i], 1>>, <<y[i], 1>>>>
       ELSE <<RatAdd(<<w.X[i], 1>>, Rat(-b, 2 * c)), RatAdd(<<y[i], 1>>, Rat(-b * b, 8 * c))>>
MaxFound == OnMax =>
    LET y == TLCEval(Y)  v == TLCEval(VertexOf(log[1]))
    IN MaxOkStrict(w.X, w.xs, y, Pos(v[1]), FixRat(v[2])) /\ MaxOk(w.X, w.xs, y, Pos(v[1]), FixRat(v[2]))
MaxOnly == OnMax =>
    LET y == TLCEval(Y)  v == TLCEval(VertexOf(log[1]))
    IN /\ \A x \in 0..(24 * (Len(y) - 1)) : LET z == Rat(x, 24) IN MaxOkStrict(w.X, w.xs, y, Pos(z), FixRat(v[2])) => RatEq(z, v[1])
       /\ ~MaxOkStrict(w.X, w.xs, y, Pos(v[1]), FixAdd(FixRat(v[2]), <<0, 1000000>>))
       /\ ~MaxOkStrict(w.X, w.xs, y, Pos(v[1]), FixSub(FixRat(v[2]), <<0, 1000000>>))
\* The vertex is at least as high as the data, at most half a step away from the highest point
Higher == OnMax => LET y == log[1]  v == VertexOf(y)  i == TopOf(y)
                   IN RatLe(<<y[i], 1>>, v[2]) /\ RatLe(Rat(2 * w.X[i] - 1, 2), v[1]) /\ RatLe(v[1], Rat(2 * w.X[i] + 1, 2))

(***************************************************************************)
(* Grids                                                                   *)
(***************************************************************************)
OnGrid == area = "grid" /\ log # <<>>
E == log[1]
LinearN == OnGrid => LET g == TLCEval(LinGrid([by |-> "n"] @@ E))
                     IN /\ Len(g) = E.num /\ g[1] = E.a /\ (E.num > 1 => RatEq(g[E.num], E.b))
                        /\ \A i \in 2..(E.num - 1) : RatEq(RatAdd(g[i - 1], g[i + 1]), RatMul(<<2, 1>>, g[i]))
LinearD == OnGrid => LET g == TLCEval(LinGrid([by |-> "d"] @@ E))
                     IN Len(g) = E.num + 1 /\ g[1] = E.a /\ RatEq(g[Len(g)], E.b)
\* the two ways agree
LinearBoth == OnGrid => LET g == TLCEval(LinGrid([by |-> "d"] @@ E))  h == TLCEval(LinGrid([by |-> "n"] @@ [E EXCEPT !.num = @ + 1]))
                        IN \A i \in 1..Len(g) : RatEq(g[i], h[i])
Small == E.num <= 4
Logarithmic == OnGrid /\ Small /\ E.a[1] > 0 =>
    LET g == TLCEval(LogGrid([x1 |-> E.a] @@ E))
    IN /\ Len(g) = E.num /\ g[1] = E.a
       \* from the second point on, one ratio; the last is x1 r^n
       /\ \A i \in 2..(E.num - 1) : RatEq(g[i + 1], RatMul(g[i], E.r))
       /\ (E.num > 1 => RatEq(g[E.num], RatMul(E.a, RatPow(E.r, E.num))))
FromZero == OnGrid /\ Small => LET g == TLCEval(LogGrid0(E))
                              IN g[1] = <<0, 1>> /\ \A i \in 1..(E.num - 1) : RatLe(g[i], g[i + 1]) /\ ~RatEq(g[i], g[i + 1])
=============================================================================

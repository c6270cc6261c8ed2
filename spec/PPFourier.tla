------------------------------ MODULE PPFourier -----------------------------
(***************************************************************************)
(* Correlations in Fourier space.                                          *)
(*                                                                         *)
(* All the sides of the cells of a trajectory divide tr.T: a wave-vector   *)
(* is a vector of integers n, component n[d] standing for 2 pi n[d] / L[d] *)
(* and it has components q[d] = n[d] T / L[d] in units of 2 pi / (T h),    *)
(* h being the lattice spacing.  Norms of wave-vectors and phases are      *)
(* computed in these units; a phase is an integer number of 1 / T turns.   *)
(*                                                                         *)
(* A correlation object has the extra fields                               *)
(*   kreq  how the wave-vectors are requested: "given" (list g of norms),  *)
(*         "lin" (from lin[1], or the smallest wave-vector if negative, to *)
(*         lin[2], lin[3] points), "vec" (the wave-vectors vec, as given)  *)
(*   dk    width of the shells;   nk  vectors per shell                    *)
(*   norm  normalise by the value at t = 0                                 *)
(*   wt    weight ("none" or a field), fluct: subtract its mean            *)
(*   rs    radii in units of the lattice, per unit of the field r          *)
(***************************************************************************)
EXTENDS PPReal

Periods == {12, 16, 20, 24, 30, 32, 36, 40, 45, 48, 60, 63, 72, 80, 96, 105, 120, 144}
CosTab == [T \in Periods |-> [j \in 0..(T - 1) |-> FixCosT(Fix(j, T))]]
CosP(j, T) == CosTab[T][j]
SinTab == [T \in Periods |-> [j \in 0..(T - 1) |-> FixSinT(Fix(j, T))]]
\* (no TLCEval here: constants are evaluated once, before the first state)
SinP(j, T) == SinTab[T][j]

(***************************************************************************)
(* Shells of wave-vectors                                                  *)
(***************************************************************************)
QVec(n, L, T) == [d \in DOMAIN n |-> n[d] * (T \div L[d])]
QSq(n, L, T) == Sq(QVec(n, L, T))
MaxSeq(s) == FoldLeft(LAMBDA a, x : MaxI(a, x), s[1], s)
RatLe(a, b) == a[1] * b[2] <= b[1] * a[2]

KMin(L, T) == T \div MaxSeq(L)
\* Requested norms, increasing
KRequest(c, L, T) ==
    CASE c.kreq = "given" ->
           LET s == SortSeq(c.g, LAMBDA a, b : RatLe(a, b) /\ a # b)
           IN IF s[1][1] < 0 THEN SortSeq([s EXCEPT ![1] = <<KMin(L, T), 1>>], LAMBDA a, b : RatLe(a, b) /\ ~RatLe(b, a))
              ELSE s
      [] c.kreq = "lin" ->
           LET n == c.lin[3]
               lo == IF c.lin[1] < 0 THEN KMin(L, T) ELSE c.lin[1]
           IN IF n = 1 THEN <<<<lo, 1>>>>
              ELSE [k \in 1..n |-> <<lo * (n - 1) + (k - 1) * (c.lin[2] - lo), n - 1>>]

\* |sqrt(Q) - g| < d
InShell(Q, g, d) ==
    LET den == g[2] * d[2]
        lo == g[1] * d[2] - d[1] * g[2]
        hi == g[1] * d[2] + d[1] * g[2]
    IN (lo < 0 \/ lo * lo < Q * den * den) /\ hi > 0 /\ Q * den * den < hi * hi

\* All the vectors whose norm does not exceed the last shell
NRange(L, T, kmax) == [d \in DOMAIN L |-> (kmax[1] * L[d]) \div (kmax[2] * T) + 1]
AllVectors(L, T, kmax) ==
    LET r == NRange(L, T, kmax)
    IN IF Len(L) = 2 THEN (-r[1]..r[1]) \X (-r[2]..r[2])
       ELSE (-r[1]..r[1]) \X (-r[2]..r[2]) \X (-r[3]..r[3])

\* First matching shell, 0 if there is none
ShellOf(Q, gs, ds) ==
    LET m == {i \in 1..Len(gs) : InShell(Q, gs[i], ds[i])}
    IN IF m = {} THEN 0 ELSE Min(m)

\* Shells are enlarged as long as some are empty
RECURSIVE ShellsR(_, _, _, _)
ShellsR(gs, ds, L, T) ==
    LET n == Len(gs)
        kmax == RatAdd(gs[n], ds[n])
        cand == TLCEval({v \in AllVectors(L, T, kmax) : QSq(v, L, T) * kmax[2] * kmax[2] <= kmax[1] * kmax[1]})
        sh == TLCEval([Q \in {QSq(v, L, T) : v \in cand} |-> ShellOf(Q, gs, ds)])
        empty == {i \in 1..n : \A Q \in DOMAIN sh : sh[Q] # i}
    IN IF empty = {} THEN [i \in 1..n |-> {v \in cand : sh[QSq(v, L, T)] = i}]
       ELSE ShellsR(gs, [i \in 1..n |-> IF i \in empty THEN Rat(ds[i][1] * 6, ds[i][2] * 5) ELSE ds[i]], L, T)
Shells(c, L, T) ==
    LET gs == KRequest(c, L, T) IN TLCEval(ShellsR(gs, [i \in 1..Len(gs) |-> c.dk], L, T))

\* Mean norm of a sequence of vectors, in units of 2 pi / (T h)
MeanNorm(s, L, T) ==
    FixDiv(FixSumTo(Len(s), LAMBDA i : FixSqrt(FixInt(QSq(s[i], L, T)))), Len(s))

(***************************************************************************)
(* The vectors kv (a sequence of sequences) and the grid g reported by a   *)
(* correlation object.                                                     *)
(***************************************************************************)
VariableCell(tr) == \E f \in 1..Len(tr.fr) : tr.fr[f].L # tr.fr[1].L

\* f: the frame of the reported vectors; with fluctuating cells the grid is
\* the one of the first or the last frame
KvecVerdict(tr, c, kv, g, res, f) ==
    LET L == Frame(tr, f).L
        T == tr.T
        S == IF c.kreq = "vec" THEN <<>> ELSE Shells(c, L, T)
        n == IF c.kreq = "vec" THEN Len(c.vec) ELSE Len(S)
        S0 == IF c.kreq = "vec" THEN c.vec
              ELSE IF f = 0 THEN kv
              ELSE LET X == Shells(c, tr.fr[1].L, T) IN [i \in 1..n |-> SetToSeq(X[i])]
    IN IF ~res THEN {"kvectors-not-reciprocal"}
       ELSE IF Len(kv) # n \/ Len(g) # n THEN {"kgrid-length"}
       ELSE (IF \E i \in 1..n : ~IsInjective(kv[i]) THEN {"kvectors-repeated"} ELSE {})
       \cup (IF c.kreq = "vec" THEN (IF kv = c.vec THEN {} ELSE {"kvectors-not-as-given"})
             ELSE (IF \E i \in 1..n : \E j \in 1..Len(kv[i]) : kv[i][j] \notin S[i] THEN {"kvectors-shell"} ELSE {})
                  \cup (IF \E i \in 1..n : Len(kv[i]) # MinI(c.nk, Cardinality(S[i])) THEN {"kvectors-number"} ELSE {}))
       \cup (IF \E i \in 1..n : kv[i] = <<>> THEN {"kgrid"}
             ELSE IF \/ \A i \in 1..n : NearFix(g[i], MeanNorm(S0[i], tr.fr[1].L, T), 100)
                     \/ f # 0 /\ \A i \in 1..n : NearFix(g[i], MeanNorm(kv[i], L, T), 100)
             THEN {} ELSE {"kgrid"})

(***************************************************************************)
(* Fourier densities                                                       *)
(***************************************************************************)
\* Positions are pos / M lattice units, T is a multiple of M times the sides
Phase(n, x, L, T, M) == SumTo(Len(n), LAMBDA d : n[d] * x[d] * (T \div (L[d] * M))) % T

\* sum of w[i] exp(i k.x): <<real, imaginary>>
Rho(n, X, w, L, T, M) ==
    FoldLeft(LAMBDA a, i : LET p == Phase(n, X[i], L, T, M)
                           IN <<FixAdd(a[1], FixScale(CosP(p, T), w[i])),
                                FixAdd(a[2], FixScale(SinP(p, T), w[i]))>>,
             <<FixZero, FixZero>>, Idx(Len(X)))
\* Real part of a b*
ReProd(a, b) == FixAdd(FixMul(a[1], b[1]), FixMul(a[2], b[2]))
CAdd(a, b) == <<FixAdd(a[1], b[1]), FixAdd(a[2], b[2])>>
CZero == <<FixZero, FixZero>>
Ones(n) == [i \in 1..n |-> 1]

KGroup0(fr, c) == Group(fr, Flt(c, 1))
KGroup1(fr, c) == IF Len(c.flt) = 2 THEN Group(fr, c.flt[2]) ELSE Group(fr, Flt(c, 1))

\* The vectors of frame f of the trajectory.  With fluctuating cells, all the
\* vectors in the shells are used
KVectors(tr, c, kv, f) ==
    IF ~VariableCell(tr) \/ c.kreq = "vec" THEN kv
    ELSE LET S == Shells(c, Frame(tr, f).L, tr.T)
         IN [i \in 1..Len(S) |-> SetToSeq(S[i])]
\* The frame of the vectors reported by static correlations
KFrame(tr, sel) == IF VariableCell(tr) THEN sel[Len(sel)] ELSE 0

(***************************************************************************)
(* Static structure factor.  The mean of the weights over the frames, for  *)
(* each group, is subtracted if c.fluct; with weights, the square of the   *)
(* average density is removed.                                             *)
(***************************************************************************)
WField(fr, g, wt) == IF wt = "none" THEN Ones(Len(g)) ELSE [k \in 1..Len(g) |-> Field(fr, g[k], wt)]
\* Mean over frames of the mean of the weights, a rational
MeanWeight(tr, c, G(_)) ==
    LET n == Len(tr.fr)
        s == FoldLeft(LAMBDA a, f : LET g == G(tr.fr[f]) IN RatAdd(a, Rat(SumSeq(WField(tr.fr[f], g, c.wt)), Len(g))),
                      <<0, 1>>, Idx(n))
    IN RatMul(s, <<1, n>>)
\* Integer weights: those of the trajectory times the denominator of the mean
IWeights(tr, c, G(_)) ==
    IF ~c.fluct THEN <<1, [f \in 1..Len(tr.fr) |-> WField(tr.fr[f], G(tr.fr[f]), c.wt)]>>
    ELSE LET m == MeanWeight(tr, c, G)
         IN <<m[2], [f \in 1..Len(tr.fr) |->
                LET w == WField(tr.fr[f], G(tr.fr[f]), c.wt) IN [k \in 1..Len(w) |-> w[k] * m[2] - m[1]]]>>

SkVerdict(tr, c, res) ==
    IF ~res.ok THEN {"raised-" \o res.exc}
    ELSE
    LET kb == KvecVerdict(tr, c, res.kv, res.g, res.kvok, KFrame(tr, StaticSel(tr, c)))
        sel == StaticSel(tr, c)
        n == Len(res.kv)
        G0(fr) == KGroup0(fr, c)
        G1(fr) == KGroup1(fr, c)
        w0 == TLCEval(IWeights(tr, c, G0))
        w1 == TLCEval(IF Len(c.flt) = 2 THEN IWeights(tr, c, G1) ELSE w0)
        KV == TLCEval([s \in 1..Len(sel) |-> KVectors(tr, c, res.kv, sel[s])])
        rho(f, v, G(_), w) == LET fr == Frame(tr, f)
                              IN Rho(v, Pick(fr.p, G(fr)), w[2][f + 1], fr.L, tr.T, 1)
        \* <<number of terms, sum of products, sum of rho0, sum of rho1>>
        acc(k) == FoldLeft(LAMBDA a, s :
                    FoldLeft(LAMBDA b, v :
                        LET r0 == TLCEval(rho(sel[s], v, G0, w0))
                            r1 == TLCEval(IF Len(c.flt) = 2 THEN rho(sel[s], v, G1, w1) ELSE r0)
                        IN TLCEval(<<b[1] + 1, FixAdd(b[2], ReProd(r0, r1)), CAdd(b[3], r0), CAdd(b[4], r1)>>),
                        a, KV[s][k]),
                    <<0, FixZero, CZero, CZero>>, Idx(Len(sel)))
        val(k) == LET a == TLCEval(acc(k))
                      av == FixDiv(a[2], a[1])
                      m0 == <<FixDiv(a[3][1], a[1]), FixDiv(a[3][2], a[1])>>
                      m1 == <<FixDiv(a[4][1], a[1]), FixDiv(a[4][2], a[1])>>
                      d == IF c.wt = "none" THEN av ELSE FixSub(av, ReProd(m0, m1))
                  IN FixDiv(d, w0[1] * w1[1])
        nf == Len(tr.fr)
        S0 == SumTo(nf, LAMBDA f : Len(G0(tr.fr[f])))
        S1 == SumTo(nf, LAMBDA f : Len(G1(tr.fr[f])))
        \* value * sqrt(S0 S1) / nf = val
        norm == FixDiv(FixSqrt(FixInt(S0 * S1)), nf)
    IN kb \cup
       (IF kb # {} THEN {}
        ELSE IF Len(res.v) # n \/ Len(res.vn) # n THEN {"length"}
        ELSE LET V == TLCEval([k \in 1..n |-> val(k)])
             IN (IF \E k \in 1..n : ~IsNum(res.v[k]) \/ ~NearRel(FixMul(res.v[k], norm), V[k], 3000) THEN {"value"} ELSE {})
                \cup (IF \E k \in 1..n : ~NearRel(res.vn[k], V[k], 3000) THEN {"value-without-norm"} ELSE {})
                \cup (IF Len(c.flt) < 2 /\ \E k \in 1..n : IsNum(res.v[k]) /\ res.v[k][1] < 0
                         /\ ~NearFix(res.v[k], FixZero, 100) THEN {"negative"} ELSE {}))

(***************************************************************************)
(* Intermediate scattering functions                                       *)
(***************************************************************************)
\* Positions entering the phases, in units of 1 / KScale lattice units
KPos(tr, c) ==
    LET U == TLCEval(IF c.fixcm THEN Unfold(tr) ELSE <<>>)
    IN TLCEval([f \in 1..Len(tr.fr) |-> IF c.fixcm THEN RelCM(tr.fr[f], U[f]) ELSE tr.fr[f].p])

\* Time zero is added to the grid if the function is normalised
WithZero(c) ==
    IF c.tgk = "given" /\ c.norm /\ c.tg[1][1] > 0 THEN [c EXCEPT !.tg = <<<<0, 1>>>> \o @] ELSE c

\* <<lag, set of pairs>>
LagPairs(tr, c) ==
    LET P == TLCEval(DynPairs(tr, c))
        lags == TLCEval(Sorted(LagsOf(tr, P)))
    IN TLCEval([k \in 1..Len(lags) |-> <<lags[k], PairsAt(tr, P, lags[k])>>])

FktData(tr, c, kv, g) == \* densities of all vectors at all frames of the groups g[f]
    LET X == KPos(tr, c)
        M == CMScale(tr, c)
    IN TLCEval([k \in 1..Len(kv) |-> [j \in 1..Len(kv[k]) |-> [f \in 1..Len(tr.fr) |->
           TLCEval(Rho(kv[k][j], Pick(X[f], g[f]), Ones(Len(g[f])), tr.fr[1].L, tr.T, M))]]])

\* Expected value (not normalised) for each k and each lag
FktExpected(tr, c, kv, LP) ==
    LET g0 == [f \in 1..Len(tr.fr) |-> KGroup0(tr.fr[f], c)]
        g1 == [f \in 1..Len(tr.fr) |-> KGroup1(tr.fr[f], c)]
        R0 == FktData(tr, c, kv, g0)
        R1 == IF Len(c.flt) = 2 THEN FktData(tr, c, kv, g1) ELSE R0
    IN TLCEval([k \in 1..Len(kv) |-> [q \in 1..Len(LP) |->
           FixDiv(FixSumTo(Len(kv[k]), LAMBDA j :
                      FixSumIn(LP[q][2], LAMBDA z : ReProd(R0[k][j][z[2] + 1], R1[k][j][z[1] + 1]))),
                  Len(kv[k]) * Cardinality(LP[q][2]))]])

FsktExpected(tr, c, kv, LP) ==
    LET X == KPos(tr, c)
        M == CMScale(tr, c)
        L == tr.fr[1].L
        Y == TLCEval([f \in 1..Len(tr.fr) |-> Pick(X[f], KGroup0(tr.fr[f], c))])
        N == Len(Y[1])
        ph(v) == TLCEval([f \in 1..Len(tr.fr) |-> [i \in 1..N |-> Phase(v, Y[f][i], L, tr.T, M)]])
    IN TLCEval([k \in 1..Len(kv) |->
         LET PH == TLCEval([j \in 1..Len(kv[k]) |-> ph(kv[k][j])])
         IN [q \in 1..Len(LP) |->
              FixDiv(FixSumTo(Len(kv[k]), LAMBDA j :
                        FixSumIn(LP[q][2], LAMBDA z :
                           FixSumTo(N, LAMBDA i : CosP((PH[j][z[2] + 1][i] - PH[j][z[1] + 1][i]) % tr.T, tr.T)))),
                     Len(kv[k]) * Cardinality(LP[q][2]) * N)]])

\* values of F smaller than this cannot be used to normalise
SmallNorm(x) == FixAbs(x)[1] = 0 /\ FixAbs(x)[2] < 10000000
\* Is F(k,t) defined, up to rounding?
FktRegular(tr, c, res) ==
    \/ c.kind # "fkt" \/ ~c.norm \/ ~res.ok
    \/ LET d == [c EXCEPT !.tg = <<<<0, 1>>>>, !.tgk = "given"]
           E == FktExpected(tr, d, res.kv, LagPairs(tr, d))
       IN \A k \in 1..Len(E) : ~SmallNorm(E[k][1])

FtVerdict1(tr, c, res) ==
    LET kb == KvecVerdict(tr, c, res.kv, res.g, res.kvok, 0)
        LP == LagPairs(tr, c)
        n == Len(res.kv)
        E == IF c.kind = "fskt" THEN FsktExpected(tr, c, res.kv, LP) ELSE FktExpected(tr, c, res.kv, LP)
        m == Len(LP)
        small(x) == SmallNorm(x)
        ok(k, q) ==
            IF c.kind = "fskt" \/ ~c.norm THEN NearRel(res.v[k][q], E[k][q], 3000)
            ELSE \/ small(E[k][1])
                 \/ IsNum(res.v[k][q]) /\ NearRel(FixMul(res.v[k][q], E[k][1]), E[k][q], 3000)
    IN kb \cup
       (IF kb # {} THEN {}
        ELSE IF ~GridOk(tr, [q \in 1..m |-> LP[q][1]], res.t) THEN {"time-grid"}
        ELSE IF Len(res.v) # n \/ \E k \in 1..n : Len(res.v[k]) # m THEN {"length"}
        ELSE IF \E k \in 1..n : \E q \in 1..m : ~ok(k, q) THEN {"value"} ELSE {})
FtVerdict(tr, c, res) ==
    IF ~res.ok THEN {"raised-" \o res.exc}
    ELSE LET r == [ok |-> res.ok, g |-> res.t]
         IN GridStart(c, r) \cup FtVerdict1(tr, WithOwn(tr, WithZero(c), r), res)

(***************************************************************************)
(* Spectral density: the form factor of a sphere of radius R at k is       *)
(*   4 pi / k^3 (sin(kR) - kR cos(kR))                                     *)
(* i.e., with k = 2 pi q / (T h), in units of h^3,                         *)
(*   T^3 / (2 pi^2 q^3) (sin(kR) - kR cos(kR)),   kR = 2 pi q R / T        *)
(***************************************************************************)
InvTwoPi2 == <<0, 50660592>>  \* 1 / (2 pi^2)
FormFactor(Q, R, T) == \* R = <<n, d>> in units of h
    LET q == FixSqrt(FixInt(Q))
        y == FixDiv(FixDiv(FixScale(q, R[1]), R[2]), T)
        x == FixMul(TwoPi, y)
        b == FixSub(FixSinT(y), FixMul(x, FixCosT(y)))
        \* T^3 / q^3 = T^3 q / Q^2
        a == FixDiv(FixDiv(FixScale(FixScale(FixScale(q, T), T), T), Q), Q)
    IN FixMul(FixMul(a, InvTwoPi2), b)

IkVerdict(tr, c, res) ==
    IF ~res.ok THEN {"raised-" \o res.exc}
    ELSE
    LET kb == KvecVerdict(tr, c, res.kv, res.g, res.kvok, KFrame(tr, StaticSel(tr, c)))
        sel == StaticSel(tr, c)
        n == Len(res.kv)
        T == tr.T
        KV == TLCEval([s \in 1..Len(sel) |-> KVectors(tr, c, res.kv, sel[s])])
        Qs == UNION {UNION {{QSq(v, Frame(tr, sel[s]).L, T) : v \in ToSet(KV[s][k])} : k \in 1..n} : s \in 1..Len(sel)}
        Rs == UNION {ToSet(Frame(tr, sel[s]).r) : s \in 1..Len(sel)}
        FF == TLCEval([z \in Qs \X Rs |-> FormFactor(z[1], <<z[2] * c.rs[1], c.rs[2]>>, T)])
        rho(fr, v) ==
            LET Q == QSq(v, fr.L, T)
            IN FoldLeft(LAMBDA a, i : LET p == Phase(v, fr.p[i], fr.L, T, 1)
                                          m == FF[<<Q, fr.r[i]>>]
                                      IN <<FixAdd(a[1], FixMul(m, CosP(p, T))), FixAdd(a[2], FixMul(m, SinP(p, T)))>>,
                        CZero, KGroup0(fr, c))
        acc(k) == FoldLeft(LAMBDA a, s :
                    FoldLeft(LAMBDA b, v : LET r == TLCEval(rho(Frame(tr, sel[s]), v))
                                           IN TLCEval(<<b[1] + 1, FixAdd(b[2], ReProd(r, r))>>),
                             a, KV[s][k]),
                    <<0, FixZero>>, Idx(Len(sel)))
        nf == Len(tr.fr)
        V == SumTo(nf, LAMBDA f : ProdSeq(tr.fr[f].L))
        val(k) == LET a == TLCEval(acc(k)) IN FixDiv(a[2], a[1])
        E == TLCEval([k \in 1..n |-> val(k)])
        \* tolerance: the errors on the form factors are about 10^-8 T^3 / 20 q^3
        tol == 200000
    IN kb \cup
       (IF kb # {} THEN {}
        ELSE IF Len(res.v) # n \/ Len(res.vn) # n THEN {"length"}
        ELSE (IF \E k \in 1..n : ~IsNum(res.v[k]) \/ ~NearRel(FixDiv(FixScale(res.v[k], V), nf), E[k], tol) THEN {"value"} ELSE {})
             \cup (IF \E k \in 1..n : ~NearRel(res.vn[k], E[k], tol) THEN {"value-without-norm"} ELSE {}))

\* Two objects use the same wave-vectors
SameKvecVerdict(ev) == IF \A i \in 1..Len(ev.kvs) : ev.kvs[i] = ev.kvs[1] THEN {} ELSE {"partials-vectors-differ"}

\* The report on the wave-vectors: a row for each shell (reported grid value,
\* mean and standard deviation of the norms, number of vectors) and, if it is
\* verbose, a row for each vector.  With fluctuating cells the vectors are the
\* ones of the last frame, the grid may be the one of the first.
ReportVerdict(ev) ==
    LET r == ev.rep
        n == Len(ev.kv)
        norm(i, j) == FixSqrt(FixInt(QSq(ev.kv[i][j], r.L, r.T)))
        std(i) == LET m == TLCEval(MeanNorm(ev.kv[i], r.L, r.T))
                  IN FixSqrt(FixDiv(FixSumTo(Len(ev.kv[i]), LAMBDA j : FixSqr(FixSub(norm(i, j), m))), Len(ev.kv[i])))
        all == FlattenSeq([i \in 1..n |-> [j \in 1..Len(ev.kv[i]) |-> <<i, ev.kv[i][j]>>]])
    IN IF ~r.ok THEN {"report-raised"}
       ELSE IF \/ Len(r.rows) # n
               \/ \E i \in 1..n : \/ r.rows[i].n # Len(ev.kv[i]) \/ r.rows[i].w # 4
                                  \/ ~NearFix(r.rows[i].k, ev.g[i], 200) /\ ~NearFix(r.rows[i].k, MeanNorm(ev.kv[i], r.L, r.T), 200)
                                  \/ ~NearFix(r.rows[i].m, MeanNorm(ev.kv[i], r.L, r.T), r.tol)
                                  \/ ~NearFix(r.rows[i].s, std(i), r.tol)
       THEN {"report"}
       ELSE IF \/ ~r.same \/ Len(r.vecs) # Len(all)
               \/ \E j \in 1..Len(all) : \/ ~r.vecs[j].ok \/ r.vecs[j].v # all[j][2]
                                         \/ r.vecs[j].k # r.rows[all[j][1]].k
       THEN {"report-vectors"}
       ELSE {}

\* What the wave-vectors depend on, besides the trajectory
Request(c) == IF "kreq" \in DOMAIN c /\ c.kreq # "vec" THEN <<c.kind, ToString(c.g), ToString(c.lin), c.dk, c.nk, ToString(c.o)>>
              ELSE <<c.kind, "", "", <<0, 1>>, 0, "">>
=============================================================================

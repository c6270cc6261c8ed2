-------------------------------- MODULE PPDyn -------------------------------
(***************************************************************************)
(* One-body time correlations of real-space observables.                   *)
(*                                                                         *)
(* A correlation object is a record c with fields kind, o (origins         *)
(* request), tg (requested times), nooff, fixcm, flt (sequence of filters) *)
(* and a = <<an, ad>>, the overlap distance in units of the lattice.       *)
(***************************************************************************)
EXTENDS PPSpace

Flt(c, k) == IF Len(c.flt) >= k THEN c.flt[k] ELSE TrueCond

\* Data of each frame entering the correlation, and its scale factor.
\* "pos-unf": unfolded positions, possibly relative to the centre of mass
DynData(tr, c) ==
    LET n == Len(tr.fr)
        unf == c.kind \in {"msd", "alpha2", "qst", "chi4"}
        U == TLCEval(IF unf THEN UnfoldedPos(tr) ELSE <<>>)
        full == TLCEval([f \in 1..n |->
                   CASE c.kind \in {"vacf"} -> tr.fr[f].v
                     [] c.kind = "qt" -> tr.fr[f].p
                     [] unf /\ c.fixcm -> RelCM(tr.fr[f], U[f])
                     [] OTHER -> U[f]])
    IN TLCEval([f \in 1..n |-> Pick(full[f], Group(tr.fr[f], Flt(c, 1)))])

\* Scale: an integer unit of the data is 1/CMScale lattice units
CMScale(tr, c) == IF c.fixcm THEN TotalMass(tr.fr[1]) ELSE 1

SqDisp(x, y) == [i \in DOMAIN x |-> Sq(VecSub(x[i], y[i]))]
Within(d2, c, sc) == d2 * c.a[2] * c.a[2] < c.a[1] * c.a[1] * sc * sc

\* Number of particles displaced by less than a
SelfCount(x, y, c, sc) ==
    LET d == TLCEval(SqDisp(x, y))
    IN Cardinality({i \in DOMAIN d : Within(d[i], c, sc)})
\* Number of pairs closer than a
CollCount(x, y, c, sc) ==
    Cardinality({z \in (DOMAIN x) \X (DOMAIN y) : Within(Sq(VecSub(x[z[1]], y[z[2]])), c, sc)})

\* Integer sum over particles of the observable of a pair of frames
PairSum(c, x, y, sc) ==
    CASE c.kind = "msd"  -> SumSeq(SqDisp(x, y))
      [] c.kind = "vacf" -> SumTo(Len(x), LAMBDA i : Dot(x[i], y[i]))
      [] c.kind = "qst"  -> SelfCount(x, y, c, sc)
      [] c.kind = "qt"   -> CollCount(x, y, c, sc)
      [] c.kind = "chi4" -> SelfCount(x, y, c, sc)

\* The mean over pairs is PairSum * ScaleNum / (N * cnt * ScaleDen)
ScaleNum(tr, c) == IF c.kind \in {"msd", "vacf"} THEN tr.hn * tr.hn ELSE 1
ScaleDen(tr, c) == IF c.kind \in {"msd", "vacf"}
                   THEN tr.hd * tr.hd * CMScale(tr, c) * CMScale(tr, c) ELSE 1

\* Non-Gaussian parameter of a pair of frames as a fixed point number
Alpha2Pair(tr, x, y, same) ==
    IF same THEN <<0, 0>>
    ELSE LET d == TLCEval(SqDisp(x, y))
             s2 == SumSeq(d)
             s4 == SumTo(Len(d), LAMBDA i : d[i] * d[i])
             r == RatMul(Rat(tr.nd * Len(x), tr.nd + 2), RatMul(Rat(s4, s2), Rat(1, s2)))
         IN FixAdd(Fix(r[1], r[2]), <<-1, 0>>)

\* tr.nx: particles of the trajectory that no correlation selects (they are
\* not recorded, but count for the heuristic number of origins)
DynSkip(tr, c) == Skip(NFrames(tr), tr.blk, NPart(tr.fr[1]) + tr.nx, c.o)

\* Requested times.  Default grids: c.lin = <<p, q, n>> stands for n equally
\* spaced times from 0 to p/q of the total time.
\* With tgk = "rmsd", c.lin = <<p, q, n>> stands for n times up to the one at which
\* the root mean square displacement would be p/q, estimated from the displacement
\* between the first and last frame, assuming it grows linearly.
TotalSteps(tr) == tr.steps[Len(tr.steps)] - tr.steps[1]
RmsdTimes(tr, c) ==
    LET D == TLCEval(DynData(tr, c))
        sc == CMScale(tr, c)
        x == PairSum(c, D[Len(D)], D[1], sc) * c.lin[2] * c.lin[2]
        y == c.lin[1] * c.lin[1] * Len(D[1]) * sc * sc
    IN IF y >= x THEN <<1, 1, c.lin[3]>> ELSE <<y, x, c.lin[3]>>
LinTimes(tr, l) == [k \in 1..l[3] |-> <<(k - 1) * TotalSteps(tr) * l[1], l[2] * (l[3] - 1)>>]
Requested(tr, c) ==
    CASE c.tgk = "lin" -> LinTimes(tr, c.lin)
      [] c.tgk = "rmsd" -> LinTimes(tr, RmsdTimes(tr, c))
      [] OTHER -> c.tg
DynPairs(tr, c) ==
    PairsOf(TLCEval(DiscreteGrid(tr, Requested(tr, c), UseOffsets(c.o, c.nooff))), NFrames(tr), DynSkip(tr, c))

\* Expected result: sequence of <<lag, number of pairs, integer sum>>
DynExpected(tr, c) ==
    LET D == TLCEval(DynData(tr, c))
        sc == CMScale(tr, c)
        pairs == TLCEval(DynPairs(tr, c))
        lags == TLCEval(Sorted(LagsOf(tr, pairs)))
    IN TLCEval([k \in 1..Len(lags) |->
            LET P == TLCEval(PairsAt(tr, pairs, lags[k]))
            IN <<lags[k], Cardinality(P),
                 SumIn(P, LAMBDA z : PairSum(c, D[z[2] + 1], D[z[1] + 1], sc)),
                 Len(D[1])>>])

Alpha2Expected(tr, c) ==
    LET D == TLCEval(DynData(tr, c))
        pairs == TLCEval(DynPairs(tr, c))
        lags == TLCEval(Sorted(LagsOf(tr, pairs)))
    IN TLCEval([k \in 1..Len(lags) |->
            LET P == TLCEval(PairsAt(tr, pairs, lags[k]))
            IN <<lags[k], Cardinality(P),
                 FixDiv(FoldSet(LAMBDA z, a : FixAdd(a, Alpha2Pair(tr, D[z[2] + 1], D[z[1] + 1], z[1] = z[2])),
                                <<0, 0>>, P), Cardinality(P))>>])

(***************************************************************************)
(* Verdicts: the set of names of the clauses that the recorded result      *)
(* [ok, g, v] violates.                                                    *)
(***************************************************************************)
GridOk(tr, lags, g) ==
    /\ Len(g) = Len(lags)
    /\ \A k \in 1..Len(lags) : Near(g[k], lags[k] * tr.tn, tr.td)

DynVerdict1(tr, c, res) ==
    IF ~res.ok THEN {"raised-" \o res.exc}
    ELSE IF c.kind = "alpha2" THEN
        LET E == Alpha2Expected(tr, c)
        IN IF ~GridOk(tr, [k \in 1..Len(E) |-> E[k][1]], res.g) THEN {"time-grid"}
           ELSE IF Len(res.v) # Len(E) THEN {"length"}
           ELSE IF \E k \in 1..Len(E) : ~NearFix(res.v[k], E[k][3], 200) THEN {"value"}
           ELSE {}
    ELSE
        LET E == DynExpected(tr, c)
        IN IF ~GridOk(tr, [k \in 1..Len(E) |-> E[k][1]], res.g) THEN {"time-grid"}
           ELSE IF Len(res.v) # Len(E) THEN {"length"}
           ELSE IF \E k \in 1..Len(E) :
                    ~Near(res.v[k], E[k][3] * ScaleNum(tr, c),
                          E[k][2] * E[k][4] * ScaleDen(tr, c)) THEN {"value"}
           ELSE {}

\* Default logarithmic grids: the requested times are irrational numbers, only
\* the lags that are reported are checked to be available ones, from zero on.
OwnLags(tr, c, g) ==
    LET lags == {z[1] : z \in LagTable(tr, UseOffsets(c.o, c.nooff))}
        own == {x \in lags : \E k \in 1..Len(g) : Near(g[k], x * tr.tn, tr.td)}
    IN LET s == Sorted(own) IN [k \in 1..Len(s) |-> <<s[k], 1>>]
WithOwn(tr, c, res) == IF c.tgk = "log" THEN [c EXCEPT !.tg = OwnLags(tr, c, res.g)] ELSE c
GridStart(c, res) ==
    IF c.tgk # "log" THEN {}
    ELSE IF Len(res.g) > 0 /\ Near(res.g[1], 0, 1) THEN {} ELSE {"default-grid-start"}
DynVerdict(tr, c, res) ==
    IF ~res.ok THEN {"raised-" \o res.exc}
    ELSE GridStart(c, res) \cup DynVerdict1(tr, WithOwn(tr, c, res), res)

(***************************************************************************)
(* Dynamic susceptibility: variance over the origins of each entry of the  *)
(* discrete grid of the number of particles displaced by less than a       *)
(***************************************************************************)
Chi4Expected(tr, c) ==
    LET D == TLCEval(DynData(tr, c))
        n == NFrames(tr)
        sk == DynSkip(tr, c)
        disc == TLCEval(SetToSortSeq(DiscreteGrid(tr, Requested(tr, c), UseOffsets(c.o, c.nooff)),
                     LAMBDA a, b : Step(tr, a[1] + a[2]) - Step(tr, a[1])
                                 < Step(tr, b[1] + b[2]) - Step(tr, b[1])))
    IN TLCEval([k \in 1..Len(disc) |->
         LET z == disc[k]
             P == TLCEval(PairsOf({z}, n, sk))
             A == SumIn(P, LAMBDA y : PairSum(c, D[y[1] + 1], D[y[2] + 1], CMScale(tr, c)))
             A2 == SumIn(P, LAMBDA y : LET q == PairSum(c, D[y[1] + 1], D[y[2] + 1], CMScale(tr, c)) IN q * q)
         IN <<Step(tr, z[1] + z[2]) - Step(tr, z[1]), Cardinality(P), A, A2, Len(D[1])>>])

Chi4Verdict1(tr, c, res) ==
    IF ~res.ok THEN {"raised-" \o res.exc}
    ELSE LET E == Chi4Expected(tr, c)
             ok(F(_, _), s) == Len(s) = Len(E) /\ \A k \in 1..Len(E) : F(E[k], s[k])
         IN (IF GridOk(tr, [k \in 1..Len(E) |-> E[k][1]], res.g) THEN {} ELSE {"time-grid"})
            \cup (IF ok(LAMBDA e, x : Near(x, e[2] * e[4] - e[3] * e[3], e[2] * e[2] * e[5]), res.v)
                  THEN {} ELSE {"variance"})
            \cup (IF ok(LAMBDA e, x : Near(x, e[3], e[2]), res.av) THEN {} ELSE {"first-moment"})
            \cup (IF ok(LAMBDA e, x : Near(x, e[4], e[2]), res.va) THEN {} ELSE {"second-moment"})

Chi4Verdict(tr, c, res) ==
    IF ~res.ok THEN {"raised-" \o res.exc}
    ELSE GridStart(c, res) \cup Chi4Verdict1(tr, WithOwn(tr, c, res), res)

(***************************************************************************)
(* Susceptibility of an arbitrary one-body correlation: the correlation is *)
(* computed from single time origins, the variance over origins of the     *)
(* extensive correlation is divided by the number of particles.            *)
(***************************************************************************)
SliceFrom(tr, i) == [tr EXCEPT !.steps = SubSeq(tr.steps, i + 1, Len(tr.steps)),
                               !.fr = SubSeq(tr.fr, i + 1, Len(tr.fr)),
                               !.blk = 1]
\* Requested last time over total time, both in steps: the origins are the
\* multiples of skip below int(n * frac) - skip
SuscOrigins(tr, c) ==
    LET n == NFrames(tr)
        T == Step(tr, n - 1) - Step(tr, 0)
        t == c.tg[Len(c.tg)]
        sk == DynSkip(tr, c)
        top == (n * t[1]) \div (T * t[2]) - sk
    IN {i \in 0..(n - 1) : i < top /\ i % sk = 0}
\* <<lag, sequence of integer sums>> over origins
SuscExpected(tr, c) ==
    LET sub(i) == [c EXCEPT !.kind = c.sub, !.o = [k |-> "one", p |-> 0, q |-> 1]]
        O == Sorted(SuscOrigins(tr, c))
        E == TLCEval([k \in 1..Len(O) |-> DynExpected(SliceFrom(tr, O[k]), sub(O[k]))])
        lags == TLCEval(Sorted(UNION {{E[k][j][1] : j \in 1..Len(E[k])} : k \in 1..Len(O)}))
    IN TLCEval([q \in 1..Len(lags) |->
         <<lags[q],
           FoldLeft(LAMBDA acc, k : acc \o [j \in 1..Cardinality({j \in 1..Len(E[k]) : E[k][j][1] = lags[q]}) |->
                        (CHOOSE e \in {E[k][j2] : j2 \in 1..Len(E[k])} : e[1] = lags[q])[3]],
                    <<>>, Idx(Len(O)))>>])
SuscVerdict(tr, c, res) ==
    IF ~res.ok THEN {"raised-" \o res.exc}
    ELSE LET E == SuscExpected(tr, c)
             cs == [c EXCEPT !.kind = c.sub]
             sn == ScaleNum(tr, cs)
             sd == ScaleDen(tr, cs)
             N == NPart(tr.fr[1])
             \* (n sum y^2 - (sum y)^2) / (n^2 N) * (sn / sd)^2
             ok(e, x) == LET y == e[2]
                             n == Len(y)
                             S1 == SumSeq(y)
                             S2 == SumTo(n, LAMBDA i : y[i] * y[i])
                             r == RatMul(Rat(n * S2 - S1 * S1, n * n * N), RatMul(Rat(sn, sd), Rat(sn, sd)))
                         IN Near(x, r[1], r[2])
         IN IF ~GridOk(tr, [k \in 1..Len(E) |-> E[k][1]], res.g) THEN {"time-grid"}
            ELSE IF Len(res.v) # Len(E) \/ \E k \in 1..Len(E) : ~ok(E[k], res.v[k]) THEN {"variance"}
            ELSE {}

(***************************************************************************)
(* Generic correlators on scalar user data x and steps t.                  *)
(*   gcf, gcf_offset: f(y, x) = y x + 2 y;   acf: fluctuations             *)
(***************************************************************************)
GcfPairs(ev) ==
    LET n == Len(ev.x)
        disc == IF ev.fn = "gcf_offset" THEN {<<ev.disc[k][1], ev.disc[k][2]>> : k \in 1..Len(ev.disc)}
                ELSE {<<0, ev.lags[k]>> : k \in 1..Len(ev.lags)}
    IN PairsOf(disc, n, ev.skip)
GcfVerdict(ev) ==
    IF ~ev.res.ok THEN {"raised-" \o ev.res.exc}
    ELSE LET n == Len(ev.x)
             S == SumSeq(ev.x)
             P == TLCEval(GcfPairs(ev))
             dt(z) == ev.steps[z[2] + 1] - ev.steps[z[1] + 1]
             lags == TLCEval(Sorted({dt(z) : z \in P}))
             val(z) == LET y == ev.x[z[2] + 1]
                           x == ev.x[z[1] + 1]
                       IN IF ev.fn = "acf" THEN (n * y - S) * (n * x - S) ELSE y * x + 2 * y
             den == IF ev.fn = "acf" THEN n * n ELSE 1
             at(k) == {z \in P : dt(z) = lags[k]}
         IN IF Len(ev.res.g) # Len(lags) \/ \E k \in 1..Len(lags) : ~Near(ev.res.g[k], lags[k], 1)
            THEN {"time-grid"}
            ELSE (IF Len(ev.res.v) # Len(lags) \/ \E k \in 1..Len(lags) :
                       ~Near(ev.res.v[k], SumIn(at(k), val), Cardinality(at(k)) * den)
                  THEN {"value"} ELSE {})
                 \cup (IF ev.fn # "gcf_offset" /\ ev.res.cnt # [k \in 1..Len(lags) |-> Cardinality(at(k))]
                       THEN {"count"} ELSE {})

\* Particles of the trajectory as seen by the user: still those of tr
FramesVerdict(tr, res) ==
    IF ~res.ok THEN {"raised-" \o res.exc}
    ELSE IF res.n # Len(tr.fr) THEN {"number-of-frames"}
    ELSE IF \E f \in 1..Len(tr.fr) :
              \/ Len(res.p[f]) # NPart(tr.fr[f])
              \/ \E i \in 1..NPart(tr.fr[f]) : \E d \in 1..tr.nd :
                    ~Near(res.p[f][i][d], tr.fr[f].p[i][d], 1)
         THEN {"particles-moved"} ELSE {}

\* N_a f_a + N_b f_b + ... = N f, on the recorded numbers
SumRuleVerdict(ev) ==
    LET n == Len(ev.total)
        N == SumSeq(ev.np)
    IN IF \E k \in 1..Len(ev.vals) : Len(ev.vals[k]) # n THEN {"sum-rule-length"}
       ELSE IF \E j \in 1..n : \E k \in 1..Len(ev.vals) : ~IsNum(ev.vals[k][j]) THEN {"sum-rule-nan"}
       ELSE IF \E j \in 1..n :
              ~NearFix(FoldLeft(LAMBDA a, k : FixAdd(a, FixMulN(ev.vals[k][j], ev.np[k])), <<0, 0>>, Idx(Len(ev.vals))),
                       FixMulN(ev.total[j], N), 100 * N)
            THEN {"sum-rule"} ELSE {}
=============================================================================

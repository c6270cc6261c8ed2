------------------------------- MODULE MC_Time ------------------------------
(***************************************************************************)
(* Design model of time averages (C01, C02, C03): all the trajectories     *)
(* with up to MaxN frames in blocks of up to MaxBlk frames, all the kinds  *)
(* of origins and grids of one or two requested times.  The laws stated by *)
(* the properties hold for the operators of PPTime, which are those that   *)
(* judge the implementation.                                               *)
(***************************************************************************)
EXTENDS PPTime

CONSTANTS MaxN, MaxBlk, MaxGap

VARIABLES w, stage
vars == <<w, stage>>

Gaps == UNION {[1..b -> 1..MaxGap] : b \in 1..MaxBlk}
StepsOf(d, n) == [i \in 1..n |-> SumTo(i - 1, LAMBDA k : d[((k - 1) % Len(d)) + 1])]
Req(k, p, q) == [k |-> k, p |-> p, q |-> q]
Origins == {Req("none", 0, 1), Req("all", 0, 1), Req("one", 0, 1), Req("num", 2, 1), Req("num", 3, 1), Req("num", 5, 2),
            Req("frac", 1, 2), Req("frac", 1, 3), Req("frac", 3, 4)}

Trajectory(d, n) == [nd |-> 3, steps |-> StepsOf(d, n), blk |-> Len(d), tn |-> 1, td |-> 1]
Times(T) == {<<x, 2>> : x \in 0..(2 * T + 1)}

Init == /\ stage = 0
        /\ \E d \in Gaps, n \in 1..MaxN :
               w = [tr |-> Trajectory(d, n), o |-> Req("all", 0, 1), nooff |-> FALSE, tg |-> <<>>, np |-> 3]
Next == /\ stage = 0 /\ stage' = 1
        /\ LET T == w.tr.steps[Len(w.tr.steps)]
           IN \E o \in Origins, no \in BOOLEAN, np \in {3, 30000}, a \in Times(T), b \in Times(T) :
                 /\ (a[1] <= b[1]) /\ (o.k = "none" \/ np = 3)
                 /\ w' = [w EXCEPT !.o = o, !.nooff = no, !.np = np, !.tg = IF a = b THEN <<a>> ELSE <<a, b>>]
Spec == Init /\ [][Next]_vars

N == NFrames(w.tr)
Sk == Skip(N, w.tr.blk, w.np, w.o)
Off == UseOffsets(w.o, w.nooff)
Tab == LagTable(w.tr, Off)
Disc == DiscreteGrid(w.tr, w.tg, Off)
Pairs == PairsOf(Disc, N, Sk)
EntryLag(z) == Step(w.tr, z[1] + z[2]) - Step(w.tr, z[1])
LagsAll == {z[1] : z \in Tab}
Done == stage = 1

\* C02: at least one origin, aligned with the blocks
SkipBounds == Done => Sk \in 1..N
OriginsStart == Done => 0 \in StaticOrigins(N, Sk)
Aligned == Done => (w.o.k = "none" /\ w.tr.blk = 1) \/ Sk = N \/ Sk % w.tr.blk = 0
AlignedStatic == Done => \A i \in StaticOrigins(N, Sk) : i % w.tr.blk = 0
OneIsOne == Done /\ w.o.k = "one" => StaticOrigins(N, Sk) = {0}
AllIsAll == Done /\ w.o.k = "all" => StaticOrigins(N, Sk) = {i \in 0..(N - 1) : i % w.tr.blk = 0}
NumIsAbout == Done /\ w.o.k = "num" =>
    LET nb == N \div w.tr.blk
        p == w.o.p \div w.o.q
    IN nb >= p => Cardinality(StaticOrigins(N, Sk)) >= p
FracIsSubset == Done /\ w.o.k = "frac" =>
    \A i \in StaticOrigins(N, Sk) : i % (w.tr.blk * (w.o.q \div w.o.p)) = 0

\* C03: available differences, the closest ones, once each
OneEntryPerLag == Done => \A y, z \in Tab : y[1] = z[1] => y = z
LagsReal == Done => \A z \in Tab : z[1] = EntryLag(<<z[2], z[3]>>) /\ z[2] < w.tr.blk
LagsComplete == Done =>
    LagsAll = {Step(w.tr, p[2]) - Step(w.tr, p[1]) :
                  p \in {q \in (0..(N - 1)) \X (0..(N - 1)) : q[1] <= q[2] /\ q[1] \in Offsets(w.tr, Off)}}
\* periodicity: any block start can replace the first one
LagsOfBlocks == Done /\ Off =>
    \A p \in (0..(N - 1)) \X (0..(N - 1)) : p[1] <= p[2] => (Step(w.tr, p[2]) - Step(w.tr, p[1])) \in LagsAll
Matched == Done =>
    LET own == {EntryLag(z) : z \in Disc}
    IN /\ Cardinality(own) = Cardinality(Disc)
       /\ Cardinality(own) \in 1..Len(w.tg)
       /\ \A k \in 1..Len(w.tg) :
             LET t == w.tg[k]
                 dist(x) == Abs(x * t[2] - t[1])
             \* the rounding of the requested time may only matter within half a step
             IN \E x \in own : \A y \in LagsAll : dist(x) <= dist(y) + t[2]
       /\ \A k \in 1..Len(w.tg) : \A x \in LagsAll : x * w.tg[k][2] = w.tg[k][1] => x \in own

\* C01: exactly the pairs of frames at that lag
PairsInside == Done => \A p \in Pairs : 0 <= p[1] /\ p[1] <= p[2] /\ p[2] <= N - 1
PairsLag == Done => \A z \in Disc : \A p \in PairsOf({z}, N, Sk) : Lag(w.tr, p) = EntryLag(z) \/ Sk % w.tr.blk # 0
NotEmpty == Done => \A z \in Disc : <<z[1], z[1] + z[2]>> \in PairsOf({z}, N, Sk)
Once == Done => \A y, z \in Disc : y = z \/ PairsOf({y}, N, Sk) \cap PairsOf({z}, N, Sk) = {}
NothingLeft == Done /\ w.o.k = "all" =>
    \A z \in Disc : \A p \in (0..(N - 1)) \X (0..(N - 1)) :
        (p[2] - p[1] = z[2] /\ p[1] % w.tr.blk = z[1]) => p \in Pairs
FromFirst == Done /\ w.o.k = "one" => \A p \in Pairs : p[1] = 0
StaticAtZero == Done /\ <<0, 0>> \in Disc =>
    {p[1] : p \in PairsOf({<<0, 0>>}, N, Sk)} = StaticOrigins(N, Sk)
=============================================================================

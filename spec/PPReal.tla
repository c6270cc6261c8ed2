------------------------------- MODULE PPReal -------------------------------
(***************************************************************************)
(* Static correlations in real space: pair distances, radial distribution  *)
(* function, neighbour lists from linked cells, bond angles.               *)
(***************************************************************************)
EXTENDS PPDyn, PPFix

\* Squared minimum-image distance; directions which are not periodic (per is
\* a sequence of booleans) are left alone.
Dist2P(a, b, L, per) ==
    SumTo(Len(a), LAMBDA d : LET x == a[d] - b[d]
                                 y == IF per[d] THEN MI(x, L[d]) ELSE x
                             IN y * y)
AllPer(nd) == [d \in 1..nd |-> TRUE]
Dist2(a, b, L) == Dist2P(a, b, L, AllPer(Len(a)))

ProdSeq(s) == FoldLeft(LAMBDA a, x : a * x, 1, s)
MinSeq(s) == FoldLeft(LAMBDA a, x : MinI(a, x), s[1], s)

StaticSel(tr, c) == Sorted(StaticOrigins(NFrames(tr), DynSkip(tr, c)))

(***************************************************************************)
(* Radial distribution function.  Extra fields of a correlation:           *)
(*   dr = <<dn, dd>>     bin width in lattice units                        *)
(*   rmax = <<p, q>>     maximum distance in lattice units, 0 if not given *)
(*   nb                  number of points of the user's grid, 0 if default *)
(*   per                 periodic boundaries (FALSE: open boundaries)      *)
(*   fast                the f90 backend                                   *)
(* Filters: none or one, the pairs are those within the group; two, those  *)
(* between the groups.  A particle is never paired with itself.            *)
(***************************************************************************)
Distinct(c) == Len(c.flt) = 2 \/ ~c.per

\* With open boundaries, only particles farther than rmax from the surface
\* are centres
Bulk(fr, c, i) ==
    c.per \/ \A d \in DOMAIN fr.L : 2 * Abs(fr.p[i][d]) * c.rmax[2] <= fr.L[d] * c.rmax[2] - 2 * c.rmax[1]
Group0(fr, c) == SelectSeq(Group(fr, Flt(c, 1)), LAMBDA i : Bulk(fr, c, i))
Group1(fr, c) == IF Len(c.flt) = 2 THEN Group(fr, c.flt[2]) ELSE Group(fr, Flt(c, 1))

\* Squared distances of all the pairs of a frame, by the first particle
FrameD2Rows(fr, c) ==
    LET G0 == TLCEval(Group0(fr, c))
        G1 == TLCEval(Group1(fr, c))
        per == [d \in DOMAIN fr.L |-> c.per]
        n == Len(G1)
        of(i) == IF Distinct(c) THEN SelectSeq(G1, LAMBDA k : k # G0[i]) ELSE SubSeq(G1, i + 1, n)
    IN [i \in 1..Len(G0) |->
          LET K == TLCEval(of(i)) IN [k \in 1..Len(K) |-> Dist2P(fr.p[G0[i]], fr.p[K[k]], fr.L, per)]]
FrameD2(fr, c) == FoldLeft(LAMBDA a, r : a \o r, <<>>, FrameD2Rows(fr, c))
\* Number of particles in both groups
Common(fr, c) == Cardinality({i \in 1..NPart(fr) : /\ Contains(Group0(fr, c), i)
                                                  /\ Contains(Group1(fr, c), i)})

InBin(d2, c, j) == /\ (j - 1) * (j - 1) * c.dr[1] * c.dr[1] <= d2 * c.dr[2] * c.dr[2]
                   /\ d2 * c.dr[2] * c.dr[2] < j * j * c.dr[1] * c.dr[1]

\* Number of reported bins: centres up to rmax or half the shortest side
GrBins(tr, c, sel) ==
    LET L == Frame(tr, sel[Len(sel)]).L
        crop == IF c.rmax[1] > 0 THEN c.rmax ELSE <<MinSeq(L), 2>>
        \* (2 j - 1) dn / (2 dd) <= p / q
        top == (2 * c.dr[2] * crop[1] + c.dr[1] * crop[2]) \div (2 * c.dr[1] * crop[2])
    IN IF c.nb > 0 THEN MinI(top, IF c.fast THEN c.nb - 1 ELSE c.nb) ELSE top

\* Volume of the shell of bin j, relative to that of the ball of unit radius
Pow4(j) == j * j * j * j
GrShell(nd, dr, j) ==
    CASE nd = 1 -> dr
      [] nd = 2 -> <<dr[1] * dr[1] * (2 * j - 1), dr[2] * dr[2]>>
      [] nd = 3 -> <<dr[1] * dr[1] * dr[1] * (3 * j * j - 3 * j + 1), dr[2] * dr[2] * dr[2]>>
      [] nd = 4 -> <<Pow4(dr[1]) * (Pow4(j) - Pow4(j - 1)), Pow4(dr[2])>>
\* The value of bin j as a fraction, times the volume of the ball of unit radius: 2, pi,
\* 4 pi / 3, pi^2 / 2
GrVal(tr, c, cnt, S0, S1, nsel, V, j) ==
    LET nd == tr.nd
        f == IF Distinct(c) THEN 1 ELSE 2
        shell == GrShell(nd, c.dr, j)
    IN RatMul(RatMul(Rat(cnt * f, S0), Rat(nsel, S1)), RatMul(Rat(V, shell[1]), Rat(shell[2], 1)))

\* Frames in which one group has no particles do not enter the average
GrSel(tr, c) ==
    SelectSeq(StaticSel(tr, c), LAMBDA f : Len(Group(Frame(tr, f), Flt(c, 1))) > 0 /\ Len(Group1(Frame(tr, f), c)) > 0)

GrVerdict(tr, c, res) ==
    IF ~res.ok THEN {"raised-" \o res.exc}
    ELSE
    LET sel == TLCEval(GrSel(tr, c))
        nsel == Len(sel)
        nb == GrBins(tr, c, sel)
        d2 == TLCEval(FoldLeft(LAMBDA a, f : a \o FrameD2Rows(Frame(tr, f), c), <<>>, sel))
        within(s, j) == Cardinality({k \in 1..Len(s) : InBin(s[k], c, j)})
        S0 == SumOver(sel, LAMBDA f : Len(Group0(Frame(tr, f), c)))
        S1 == SumOver(sel, LAMBDA f : Len(Group1(Frame(tr, f), c)))
        V == ProdSeq(Frame(tr, sel[nsel]).L)
        cnt == TLCEval([j \in 1..nb |-> SumOver(d2, LAMBDA s : within(s, j))])
        com == SumOver(sel, LAMBDA f : Common(Frame(tr, f), c))
        eq(j, n) == LET r == GrVal(tr, c, n, S0, S1, nsel, V, j) IN Near(res.v[j], r[1], r[2])
        lo == IF c.per THEN 1 ELSE 2
    IN IF Len(res.g) # nb \/ \E j \in 1..nb : ~Near(res.g[j], c.dr[1] * (2 * j - 1) * tr.hn, 2 * c.dr[2] * tr.hd)
       THEN {"grid"}
       ELSE IF Len(res.v) # nb THEN {"length"}
       ELSE IF \E j \in (lo + 1)..nb : ~eq(j, cnt[j]) THEN {"value"}
       ELSE IF nb < lo \/ eq(lo, cnt[lo]) THEN (IF lo = 2 /\ nb > 1 /\ res.v[1] # res.v[2] THEN {"first-bin"} ELSE {})
       ELSE IF lo = 1 /\ Distinct(c) /\ com > 0 /\ eq(1, cnt[1] + com) THEN {"self-pairs-at-zero"}
       ELSE {"value"}

(***************************************************************************)
(* Linked cells: ev has box, pos, oth (empty: none), per, newton,          *)
(* rc = <<p, q>> and res.lists, the neighbour lists (0-based indices).     *)
(***************************************************************************)
CellsVerdict(ev) ==
    IF ~ev.res.ok THEN {"raised-" \o ev.res.exc}
    ELSE
    LET two == ev.two
        A == ev.pos
        B == IF two THEN ev.oth ELSE ev.pos
        n == Len(A)
        m == Len(B)
        lists == ev.res.lists
        within == TLCEval([i \in 1..n |-> [j \in 1..m |->
                     Dist2P(A[i], B[j], ev.box, ev.per) * ev.rc[2] * ev.rc[2] < ev.rc[1] * ev.rc[1]]])
    IN IF Len(lists) # n THEN {"number-of-lists"}
       ELSE IF \E i \in 1..n : \E k \in 1..Len(lists[i]) : lists[i][k] \notin 0..(m - 1) THEN {"wrong-index"}
       ELSE
       LET times == TLCEval([i \in 1..n |-> [j \in 1..m |->
                       Cardinality({k \in 1..Len(lists[i]) : lists[i][k] = j - 1})]])
           half == ~two /\ ev.newton
           seen(i, j) == IF half THEN times[i][j] + times[j][i] ELSE times[i][j]
           pairs == IF two THEN (1..n) \X (1..m) ELSE {z \in (1..n) \X (1..m) : z[1] # z[2]}
       IN (IF \E z \in pairs : within[z[1]][z[2]] /\ seen(z[1], z[2]) = 0 THEN {"missing-pair"} ELSE {})
          \cup (IF \E z \in pairs : seen(z[1], z[2]) > 1 THEN {"duplicate-pair"} ELSE {})
          \cup (IF ~two /\ \E i \in 1..n : times[i][i] > 0 THEN {"own-neighbour"} ELSE {})

(***************************************************************************)
(* Bond angles.  Extra fields: dth (and dthq, if given), the numerator     *)
(* (denominator) of the bin width in degrees; rc, matrix                   *)
(* of cutoffs <<p, q>> in lattice units between species, in sorted order   *)
(* (sp, the sequence of species).                                          *)
(***************************************************************************)
Cos2 == <<<<1, 0>>, <<0, 999695413>>, <<0, 998782025>>, <<0, 997260947>>, <<0, 995134034>>, <<0, 992403876>>, <<0, 989073800>>,
     <<0, 985147863>>, <<0, 980630847>>, <<0, 975528258>>, <<0, 969846310>>, <<0, 963591927>>, <<0, 956772728>>, <<0, 949397023>>,
     <<0, 941473796>>, <<0, 933012701>>, <<0, 924024048>>, <<0, 914518786>>, <<0, 904508497>>, <<0, 894005376>>, <<0, 883022221>>,
     <<0, 871572412>>, <<0, 859669900>>, <<0, 847329185>>, <<0, 834565303>>, <<0, 821393804>>, <<0, 807830737>>, <<0, 793892626>>,
     <<0, 779596451>>, <<0, 764959632>>, <<0, 750000000>>, <<0, 734735781>>, <<0, 719185573>>, <<0, 703368321>>, <<0, 687303296>>,
     <<0, 671010071>>, <<0, 654508497>>, <<0, 637818677>>, <<0, 620960947>>, <<0, 603955845>>, <<0, 586824088>>, <<0, 569586550>>,
     <<0, 552264231>>, <<0, 534878236>>, <<0, 517449748>>, <<0, 500000000>>, <<0, 482550251>>, <<0, 465121763>>, <<0, 447735768>>,
     <<0, 430413449>>, <<0, 413175911>>, <<0, 396044154>>, <<0, 379039052>>, <<0, 362181322>>, <<0, 345491502>>, <<0, 328989928>>,
     <<0, 312696703>>, <<0, 296631678>>, <<0, 280814426>>, <<0, 265264218>>, <<0, 250000000>>, <<0, 235040367>>, <<0, 220403548>>,
     <<0, 206107373>>, <<0, 192169262>>, <<0, 178606195>>, <<0, 165434696>>, <<0, 152670814>>, <<0, 140330099>>, <<0, 128427587>>,
     <<0, 116977778>>, <<0, 105994623>>, <<0, 95491502>>, <<0, 85481213>>, <<0, 75975951>>, <<0, 66987298>>, <<0, 58526203>>,
     <<0, 50602976>>, <<0, 43227271>>, <<0, 36408072>>, <<0, 30153689>>, <<0, 24471741>>, <<0, 19369152>>, <<0, 14852136>>,
     <<0, 10926199>>, <<0, 7596123>>, <<0, 4865965>>, <<0, 2739052>>, <<0, 1217974>>, <<0, 304586>>, <<0, 0>>>>

\* Squared cosine of e = n / d degrees, 0 <= e <= 90
CosSq(n, d) == IF n % d = 0 THEN Cos2[n \div d + 1] ELSE FixSqr(FixCosT(Fix(n, 360 * d)))
\* Is the angle at least e = n / d degrees (e not a multiple of 180)?  dot and the
\* fixed-point cosine squared q are given
AtLeast(dot, q, n, d) ==
    LET c2 == CosSq(IF n <= 90 * d THEN n ELSE 180 * d - n, d)
    IN IF n <= 90 * d THEN ~(dot > 0 /\ FixDiff(q, c2) > 0)
       ELSE ~(dot >= 0 \/ FixDiff(q, c2) < 0)

DthQ(c) == IF "dthq" \in DOMAIN c THEN c.dthq ELSE 1
SpIndex(c, s) == CHOOSE k \in 1..Len(c.sp) : c.sp[k] = s
\* Vectors to the neighbours of particle i
BaVecs(fr, c, i) ==
    LET G1 == Group1(fr, c)
        isp == SpIndex(c, fr.s[i])
        V == TLCEval([k \in 1..Len(G1) |-> MIVec(fr.p[i], fr.p[G1[k]], fr.L)])
        ok(k) == LET rc == c.rc[isp][SpIndex(c, fr.s[G1[k]])]
                 IN G1[k] # i /\ Sq(V[k]) * rc[2] * rc[2] < rc[1] * rc[1]
    IN Pick(V, SelectSeq(Idx(Len(G1)), ok))
\* Bins (from 1) of the angles between unordered pairs of vectors
AngleBin(c, a, b) ==
    LET dot == Dot(a, b)
        q == TLCEval(Fix(dot * dot, Sq(a) * Sq(b)))
        w == DthQ(c)
        nb == (180 * w) \div c.dth
    IN 1 + Cardinality({k \in 1..nb : k * c.dth < 180 * w /\ AtLeast(dot, q, k * c.dth, w)})
BaBins(tr, c) ==
    LET sel == StaticSel(tr, c)
    IN FoldLeft(LAMBDA acc, f :
          LET fr == Frame(tr, f)
          IN FoldLeft(LAMBDA a, i :
                LET V == TLCEval(BaVecs(fr, c, i))
                IN FoldSet(LAMBDA z, s : Append(s, AngleBin(c, V[z[1]], V[z[2]])), a,
                           {z \in (1..Len(V)) \X (1..Len(V)) : z[1] < z[2]}),
                acc, Group0(fr, c)),
          <<>>, sel)
BaVerdict(tr, c, res) ==
    IF ~res.ok THEN {"raised-" \o res.exc}
    ELSE
    LET w == DthQ(c)
        nb == (180 * w) \div c.dth
        bins == TLCEval(BaBins(tr, c))
        cnt == TLCEval([j \in 1..nb |-> Cardinality({k \in 1..Len(bins) : bins[k] = j})])
        norm == SumSeq(cnt)
    IN IF Len(res.g) # nb \/ \E j \in 1..nb : ~Near(res.g[j], (2 * j - 1) * c.dth, 2 * w) THEN {"grid"}
       \* the distribution is not defined if there is no angle
       ELSE IF Len(res.v) # nb \/ (norm > 0 /\ \E j \in 1..nb : ~Near(res.v[j], cnt[j] * w, norm * c.dth)) THEN {"value"}
       ELSE {}
=============================================================================

------------------------------- MODULE MC_Real ------------------------------
(***************************************************************************)
(* Design model of static correlations in real space (C04, C05, C13): all  *)
(* the configurations of three particles of two species on a lattice in a  *)
(* cell with different sides.  The laws hold for the operators of PPReal   *)
(* that judge the implementation.                                          *)
(***************************************************************************)
EXTENDS PPReal

CONSTANTS LX, LY, Xs, Dth, Kinds

VARIABLES pos, sp, kind, stage
vars == <<pos, sp, kind, stage>>

L == <<LX, LY>>
Points == (0..(LX - 1)) \X (0..(LY - 1))
Init == stage = 0 /\ sp \in [1..3 -> {"A", "B"}] /\ kind \in Kinds /\ \E x \in Xs : pos = <<<<x, 0>>>>
Next == /\ stage < 2 /\ stage' = stage + 1
        /\ \E x \in Points : pos' = Append(pos, x)
        /\ UNCHANGED <<sp, kind>>
Spec == Init /\ [][Next]_vars
Done == stage = 2

FrameOf(p, s, l) == [p |-> p, s |-> s, m |-> [i \in DOMAIN p |-> 1], L |-> l]
Fr == FrameOf(pos, sp, L)
Eq(x) == [op |-> "eq", f |-> "species", x |-> x]
Ne(x) == [op |-> "ne", f |-> "species", x |-> x]
C(flt) == [flt |-> flt, per |-> TRUE, dr |-> <<1, 2>>, rmax |-> <<0, 1>>, nb |-> 0, fast |-> FALSE, dth |-> Dth, sp |-> <<"A", "B">>,
           rc |-> <<<<<<5, 2>>, <<3, 2>>>>, <<<<3, 2>>, <<7, 4>>>>>>]
Bag(s) == [x \in {s[k] : k \in 1..Len(s)} |-> Cardinality({k \in 1..Len(s) : s[k] = x})]
SameBag(a, b) == Bag(a) = Bag(b)
Perm == <<2, 3, 1>>
Permuted == FrameOf(Pick(pos, Perm), Pick(sp, Perm), L)
Moved == FrameOf([i \in 1..3 |-> <<pos[i][1] + 3 - (IF i = 2 THEN LX ELSE 0), pos[i][2] - 7 + (IF i = 3 THEN 2 * LY ELSE 0)>>], sp, L)
Turned == FrameOf([i \in 1..3 |-> <<pos[i][2], pos[i][1]>>], sp, <<LY, LX>>)
Mirror == FrameOf([i \in 1..3 |-> <<-pos[i][1], pos[i][2]>>], sp, L)
Groups == {<<>>, <<Eq("A")>>, <<Eq("A"), Eq("B")>>, <<Eq("B"), Eq("A")>>, <<Ne("A"), Eq("A")>>}

(***************************************************************************)
(* Pairs                                                                   *)
(***************************************************************************)
Pairs == Done /\ kind = "gr"
\* The pairs of the species are those of the system
PairSum0 == Pairs => SameBag(FrameD2(Fr, C(<<>>)),
                 FrameD2(Fr, C(<<Eq("A")>>)) \o FrameD2(Fr, C(<<Eq("B")>>)) \o FrameD2(Fr, C(<<Eq("A"), Eq("B")>>)))
PairNumber == Pairs => LET n(x) == Cardinality({i \in 1..3 : sp[i] = x})
                       IN /\ Len(FrameD2(Fr, C(<<>>))) = 3
                          /\ Len(FrameD2(Fr, C(<<Eq("A")>>))) = (n("A") * (n("A") - 1)) \div 2
                          /\ Len(FrameD2(Fr, C(<<Eq("A"), Eq("B")>>))) = n("A") * n("B")
Symmetric == Pairs => SameBag(FrameD2(Fr, C(<<Eq("A"), Eq("B")>>)), FrameD2(Fr, C(<<Eq("B"), Eq("A")>>)))
\* The same group twice: every pair is counted from both sides, nobody with itself
Overlapping == Pairs => LET one == FrameD2(Fr, C(<<Eq("A")>>))
                        IN SameBag(FrameD2(Fr, C(<<Eq("A"), Eq("A")>>)), one \o one)
Invariant0 == Pairs => \A g \in Groups : \A f \in {Permuted, Moved, Turned, Mirror} :
                 SameBag(FrameD2(f, C(g)), FrameD2(Fr, C(g)))
\* Distances are never larger than half the diagonal
Shortest == Pairs => \A k \in 1..3 : 4 * FrameD2(Fr, C(<<>>))[k] <= LX * LX + LY * LY
\* Bins do not overlap and leave nothing out
Partition == Pairs => \A k \in 1..3 :
    Cardinality({j \in 1..(2 * (LX + LY)) : InBin(FrameD2(Fr, C(<<>>))[k], C(<<>>), j)}) = 1

\* The shells fill the ball, in one to four dimensions
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)
ASSUME \A nd \in 1..4 : \A dr \in {<<1, 1>>, <<1, 2>>, <<5, 4>>} : \A n \in 1..9 :
    /\ \A j \in 1..n : GrShell(nd, dr, j)[2] = Pow(dr[2], nd)
    /\ SumTo(n, LAMBDA j : GrShell(nd, dr, j)[1]) = IF nd = 1 THEN n * dr[1] ELSE Pow(n * dr[1], nd)

(***************************************************************************)
(* Angles                                                                  *)
(***************************************************************************)
Angles == Done /\ kind = "ba"
Tr(f) == [nd |-> 2, steps |-> <<0>>, blk |-> 1, tn |-> 1, td |-> 1, nx |-> 0, fr |-> <<f>>]
Ba(f, g) == BaBins(Tr(f), C(g) @@ [o |-> [k |-> "all", p |-> 0, q |-> 1]])
NB == 180 \div Dth
\* Coinciding particles have no direction and are left out of the domain
Apart == \A i, j \in 1..3 : i # j => MIVec(pos[i], pos[j], L) # <<0, 0>>
NotHalf == \A i, j \in 1..3 : \A d \in 1..2 : 2 * ((pos[i][d] - pos[j][d]) % L[d]) # L[d]
Dom == Angles /\ Apart /\ NotHalf
NumAngles == Dom => \A g \in {<<>>, <<Eq("A")>>, <<Eq("A"), Eq("B")>>, <<Eq("B"), Eq("A")>>} :
    Len(Ba(Fr, g)) = SumOver(Group0(Fr, C(g)), LAMBDA i : LET n == Len(BaVecs(Fr, C(g), i)) IN (n * (n - 1)) \div 2)
InRange == Dom => \A b \in ToSet(Ba(Fr, <<>>)) : b \in 1..NB
AngleInv == Dom => \A g \in {<<>>, <<Eq("A"), Eq("B")>>} : \A f \in {Permuted, Moved, Turned, Mirror} : SameBag(Ba(f, g), Ba(Fr, g))
\* cutoffs depend on the pair of species, in any order
Mutual == Dom => \A i, j \in 1..3 : i # j =>
    LET sees(a, b) == \E k \in 1..Len(BaVecs(Fr, C(<<>>), a)) : BaVecs(Fr, C(<<>>), a)[k] = MIVec(pos[a], pos[b], L)
    IN sees(i, j) <=> sees(j, i)
\* Three particles close to each other: the angles of a triangle add up to 180 degrees
Triangle == Dom => LET B == Ba(Fr, <<>>)
                       small == \A i \in 1..3 : \A d \in 1..2 : pos[i][d] <= LX \div 4
                   IN (Len(B) = 3 /\ small) => LET s == SumSeq(B) * Dth IN s >= 180 /\ s <= 180 + 3 * Dth
\* The fixed point cosines are right on a few angles which are known
Known(a, b, t) == LET k == AngleBin(C(<<>>), a, b) IN (k - 1) * Dth <= t /\ t < k * Dth
ASSUME Known(<<1, 0>>, <<0, 1>>, 90) /\ Known(<<2, 0>>, <<3, 3>>, 45) /\ Known(<<-1, 0>>, <<3, 3>>, 135) /\ Known(<<2, 1>>, <<4, 2>>, 0)
         /\ Known(<<2, 0, 0>>, <<1, 1, 0>>, 45) /\ Known(<<1, 1, 0>>, <<0, 1, 1>>, 60) /\ Known(<<1, -1, 0>>, <<0, 1, -1>>, 120)
Opposite == Dom => LET a == MIVec(pos[1], pos[2], L)
                       b == MIVec(pos[1], pos[3], L)
                       x == AngleBin(C(<<>>), a, b)
                       y == AngleBin(C(<<>>), a, [d \in 1..2 |-> -b[d]])
                   IN /\ x = AngleBin(C(<<>>), b, a)
                      /\ x + y \in {NB + 1, NB + 2} \* on the edge of a bin
                         \/ (Dot(a, b) * Dot(a, b) = Sq(a) * Sq(b)) \* 0 and 180 degrees
=============================================================================

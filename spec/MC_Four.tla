------------------------------- MODULE MC_Four ------------------------------
(***************************************************************************)
(* Design model of the correlations in Fourier space (C08, C09, C10): two  *)
(* particles of two species which walk for one step on a lattice in a      *)
(* rectangular cell, any wave-vector up to a few multiples of the smallest *)
(* one.                                                                    *)
(***************************************************************************)
EXTENDS PPFourier

CONSTANTS T, LX, LY, NMax, X1, Masses, Moves

Uneven == {<<1, 2>>}
AnyMass == {<<1, 1>>, <<1, 2>>}
Two == {<<0, -1>>, <<-1, 1>>}
Few == {<<0, 0>>, <<1, 0>>, <<0, -1>>, <<-1, 1>>}
VARIABLES v, x, y, m, stage
vars == <<v, x, y, m, stage>>

L == <<LX, LY>>
Points == (0..(LX - 1)) \X (0..(LY - 1))
Init == stage = 0 /\ v \in {n \in (-NMax..NMax) \X (0..NMax) : n # <<0, 0>>} /\ x = <<>> /\ y = <<>> /\ m \in Masses
Next == /\ stage = 0 /\ stage' = 1
        /\ \E a \in X1, b \in Points, da \in Moves, db \in Moves :
              /\ x' = <<<<a, 0>>, b>>
              /\ y' = <<<<a + da[1], da[2]>>, <<b[1] + db[1], b[2] + db[2]>>>>
        /\ UNCHANGED <<v, m>>
Spec == Init /\ [][Next]_vars
Done == stage = 1

FrameOf(p) == [p |-> p, s |-> <<"A", "B">>, m |-> m, r |-> <<1, 2>>, w |-> <<1, -1>>, L |-> L]
Tr(a, b) == [nd |-> 2, steps |-> <<0, 1>>, blk |-> 1, tn |-> 1, td |-> 1, hn |-> 1, hd |-> 1, pu |-> FALSE, nx |-> 0, T |-> T,
             fr |-> <<FrameOf(a), FrameOf(b)>>]
Eq(s) == [op |-> "eq", f |-> "species", x |-> s]
C(kind, flt, cm) == [kind |-> kind, o |-> [k |-> "all", p |-> 0, q |-> 1], tg |-> <<<<0, 1>>, <<1, 1>>>>, tgk |-> "given", nooff |-> FALSE,
                     fixcm |-> cm, flt |-> flt, norm |-> FALSE]
World == Tr(x, y)
\* another periodic image
Image == Tr(<<<<x[1][1] + LX, x[1][2]>>, <<x[2][1], x[2][2] - LY>>>>, <<y[1], <<y[2][1] - 2 * LX, y[2][2] + LY>>>>)
Drift == Tr(x, <<<<y[1][1] + 1, y[1][2]>>, <<y[2][1] + 1, y[2][2]>>>>)
Shifted == Tr(<<<<x[1][1] + 1, x[1][2] + 2>>, <<x[2][1] + 1, x[2][2] + 2>>>>, <<<<y[1][1] + 1, y[1][2] + 2>>, <<y[2][1] + 1, y[2][2] + 2>>>>)
Neg(n) == <<-n[1], -n[2]>>
Pairs0 == <<<<0, {<<0, 0>>, <<1, 1>>}>>, <<1, {<<0, 1>>}>>>>
Self(t, flt, cm, n) == TLCEval(LET tr == TLCEval(t)
                                   c == TLCEval(C("fskt", flt, cm))
                                   kv == TLCEval(<<<<n>>>>)
                               IN FsktExpected(tr, c, kv, Pairs0)[1])
Coll(t, flt, n) == TLCEval(LET tr == TLCEval(t)
                               c == TLCEval(C("fkt", flt, FALSE))
                               kv == TLCEval(<<<<n>>>>)
                           IN FktExpected(tr, c, kv, Pairs0)[1])
LagsOk == Done => LagPairs(World, C("fskt", <<>>, FALSE)) = Pairs0
Near2(a, b, t) == NearFix(a, b, t)
SameFt(a, b) == Len(a) = Len(b) /\ \A q \in 1..Len(a) : Near2(a[q], b[q], 60)
Sum2(a, b) == [q \in 1..Len(a) |-> FixAdd(a[q], b[q])]

\* Self part: one at time zero, even, bounded; the sum of those of the species
SelfOne == Done => Near2(Self(World, <<>>, FALSE, v)[1], FixOne, 20)
SelfBound == Done => LET z == Self(World, <<>>, FALSE, v)[2] IN FixLe(z, <<1, 20>>) /\ FixLe(<<-2, 999999980>>, z)
SelfEven == Done => SameFt(Self(World, <<>>, FALSE, v), Self(World, <<>>, FALSE, Neg(v)))
SelfSum == Done => SameFt([q \in 1..2 |-> FixAdd(Self(World, <<>>, FALSE, v)[q], Self(World, <<>>, FALSE, v)[q])],
                          Sum2(Self(World, <<Eq("A")>>, FALSE, v), Self(World, <<Eq("B")>>, FALSE, v)))
SelfImage == Done => SameFt(Self(Image, <<>>, FALSE, v), Self(World, <<>>, FALSE, v))
SelfShift == Done => SameFt(Self(Shifted, <<>>, FALSE, v), Self(World, <<>>, FALSE, v))
\* with the centre of mass fixed neither drifts nor images matter
SelfDrift == Done => \A flt \in {<<>>, <<Eq("A")>>} :
                 /\ SameFt(Self(Drift, flt, TRUE, v), Self(World, flt, TRUE, v))
                 /\ SameFt(Self(Image, flt, TRUE, v), Self(World, flt, TRUE, v))

\* Collective part: at time zero it is the structure factor, not negative
CollSq == Done => LET c(p) == Rho(v, p, <<1, 1>>, L, T, 1)
                  IN Near2(FixScale(Coll(World, <<>>, v)[1], 2), FixAdd(ReProd(c(x), c(x)), ReProd(c(y), c(y))), 80)
CollPos == Done => LET z == Coll(World, <<>>, v)[1] IN z[1] >= 0 \/ NearFix(z, FixZero, 60)
CollBound == Done => FixLe(Coll(World, <<>>, v)[1], <<4, 60>>)
CollImage == Done => SameFt(Coll(Image, <<>>, v), Coll(World, <<>>, v))
CollEven == Done => SameFt(Coll(World, <<>>, v), Coll(World, <<>>, Neg(v)))
\* total = AA + BB + AB + BA; the cross terms are the same at time zero
CollSum == Done => SameFt(Coll(World, <<>>, v),
                Sum2(Sum2(Coll(World, <<Eq("A")>>, v), Coll(World, <<Eq("B")>>, v)),
                     Sum2(Coll(World, <<Eq("A"), Eq("B")>>, v), Coll(World, <<Eq("B"), Eq("A")>>, v))))
CollSym == Done => Near2(Coll(World, <<Eq("A"), Eq("B")>>, v)[1], Coll(World, <<Eq("B"), Eq("A")>>, v)[1], 60)
\* of one particle: self and collective are the same
CollSelf == Done => SameFt(Coll(World, <<Eq("A")>>, v), Self(World, <<Eq("A")>>, FALSE, v))

\* The form factor tends to the volume of the sphere and is never larger
Volume(R) == FixFrac(FixScale(TwoPi, 2 * R * R * R), 1, 3)
Form == Done => \A R \in {1, 2} :
    LET f == FormFactor(QSq(v, L, T), <<R, 1>>, T)
        d == FixDiff(FixDiv(f, 100), FixDiv(Volume(R), 100))
    IN FixLe(FixAbs(f), FixAdd(Volume(R), <<0, 100000>>))
=============================================================================

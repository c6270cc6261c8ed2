------------------------------- MODULE MC_Space -----------------------------
(***************************************************************************)
(* Design model of periodic images and drifts (C11), filters (C04) and     *)
(* susceptibilities (C12): all the walks of two particles on a ring of     *)
(* side L, whose steps are shorter than half the side, stored in any       *)
(* periodic image, with a common drift.                                    *)
(***************************************************************************)
EXTENDS PPDyn

CONSTANTS L, NF, Step1, DriftMax, Img, Img2, U0, Masses

Back == {-1}
BackAndForth == {-1, 0, 1}
Uneven == {<<1, 2>>}
AnyMass == {<<1, 1>>, <<1, 2>>, <<3, 1>>}
VARIABLES w, stage
vars == <<w, stage>>

Half == (L - 1) \div 2
Moves == -Step1..Step1
ASSUME Step1 + DriftMax <= Half

\* walk of particle i: u0 + sum of increments; stored position: plus images
Walk(u0, inc, f) == u0 + SumTo(f - 1, LAMBDA k : inc[k])
Traj(x, img, drift, m) ==
    [nd |-> 1, steps |-> [f \in 1..NF |-> f - 1], blk |-> 1, tn |-> 1, td |-> 1, hn |-> 1, hd |-> 1, pu |-> FALSE, nx |-> 0,
     fr |-> [f \in 1..NF |->
        LET u(i) == Walk(x[i].u, x[i].d, f) + SumTo(f, LAMBDA k : drift[k])
        IN [p |-> [i \in 1..2 |-> <<u(i) + L * img[i][f]>>],
            u |-> [i \in 1..2 |-> <<u(i)>>],
            s |-> <<"A", "B">>, m |-> m, L |-> <<L>>]]]
NoImg == [i \in 1..2 |-> [f \in 1..NF |-> 0]]
NoDrift == [f \in 1..NF |-> 0]
Walks == [u : {0, 1}, d : [1..(NF - 1) -> Moves]]

Init == /\ stage = 0
        /\ \E a \in {z \in Walks : z.u = 0}, b \in {z \in Walks : z.u \in U0} : w = [x |-> <<a, b>>, img |-> NoImg, drift |-> NoDrift, m |-> <<1, 1>>]
Next == /\ stage = 0 /\ stage' = 1
        /\ \E i1 \in [1..NF -> Img], i2 \in [1..NF -> Img2], m \in Masses, dr \in [2..NF -> -DriftMax..DriftMax] :
              LET img == <<i1, i2>>
                  drift == [f \in 1..NF |-> IF f = 1 THEN 0 ELSE dr[f]]
              IN w' = [w EXCEPT !.img = img, !.m = m, !.drift = drift]
Spec == Init /\ [][Next]_vars

Plain == Traj(w.x, NoImg, NoDrift, w.m)
Wrapped == Traj(w.x, w.img, NoDrift, w.m)
Drifted == Traj(w.x, w.img, w.drift, w.m)
Stored == [Plain EXCEPT !.pu = TRUE]
Corr(kind, fixcm, flt) ==
    [kind |-> kind, o |-> [k |-> "all", p |-> 0, q |-> 1], tg |-> [k \in 1..NF |-> <<k - 1, 1>>], tgk |-> "given", nooff |-> FALSE,
     fixcm |-> fixcm, flt |-> flt, a |-> <<3, 2>>]
Only(s) == <<[op |-> "eq", f |-> "species", x |-> s]>>
Filters == {<<>>, Only("A"), Only("B")}
Kinds == {"msd", "qst"}
Done == stage = 1

Disp(tr) == LET U == UnfoldedPos(tr) IN [f \in 1..NF |-> [i \in 1..2 |-> U[f][i][1] - U[1][i][1]]]

UnfoldWrap == Done => Disp(Wrapped) = Disp(Plain) /\ Disp(Stored) = Disp(Plain)
UnfoldIdem == Done => LET U == Unfold(Wrapped)
                          again == [Wrapped EXCEPT !.fr = [f \in 1..NF |-> [@[f] EXCEPT !.p = U[f]]]]
                      IN Unfold(again) = U
Images == Done => \A k \in Kinds, flt \in Filters :
              DynExpected(Wrapped, Corr(k, FALSE, flt)) = DynExpected(Stored, Corr(k, FALSE, flt))
DriftFree == Done => \A k \in Kinds, flt \in Filters :
              DynExpected(Drifted, Corr(k, TRUE, flt)) = DynExpected(Plain, Corr(k, TRUE, flt))
\* the drift matters otherwise, unless there is none
CmAtRest == Done => \A f \in 1..NF :
    LET tr == Wrapped
        R == RelCM(tr.fr[f], UnfoldedPos(tr)[f])
    IN SumTo(2, LAMBDA i : tr.fr[f].m[i] * R[i][1]) = 0
\* the centre of mass is that of all the particles
FullCm == Done => DynData(Wrapped, Corr("msd", TRUE, Only("A"))) =
                  [f \in 1..NF |-> <<DynData(Wrapped, Corr("msd", TRUE, <<>>))[f][1]>>]
\* N f = N_A f_A + N_B f_B: the expected sums are extensive
SumRule == Done => \A k \in Kinds, cm \in BOOLEAN :
    LET T == DynExpected(Wrapped, Corr(k, cm, <<>>))
        A == DynExpected(Wrapped, Corr(k, cm, Only("A")))
        B == DynExpected(Wrapped, Corr(k, cm, Only("B")))
    IN /\ Len(A) = Len(T) /\ Len(B) = Len(T)
       /\ \A q \in 1..Len(T) : T[q][3] = A[q][3] + B[q][3] /\ T[q][4] = A[q][4] + B[q][4] /\ A[q][2] = T[q][2]
StaticValue == Done =>
    /\ DynExpected(Wrapped, Corr("msd", FALSE, <<>>))[1] = <<0, NF, 0, 2>>
    /\ DynExpected(Wrapped, Corr("qst", FALSE, <<>>))[1] = <<0, NF, 2 * NF, 2>>
    /\ DynExpected(Wrapped, Corr("qt", FALSE, Only("A")))[1][3] = NF
\* variance of a number
Chi4 == Done => LET E == Chi4Expected(Wrapped, Corr("chi4", FALSE, <<>>))
                IN \A q \in 1..Len(E) : /\ E[q][2] * E[q][4] >= E[q][3] * E[q][3]
                                        /\ E[q][3] <= 2 * E[q][2] /\ E[q][4] <= 4 * E[q][2]
                                        /\ (E[q][2] = 1 => E[q][4] = E[q][3] * E[q][3])
\* the first moment is that of the overlap
Chi4Moment == Done =>
    LET E == Chi4Expected(Wrapped, Corr("chi4", FALSE, <<>>))
        Q == DynExpected(Wrapped, Corr("qst", FALSE, <<>>))
    IN Len(E) = Len(Q) /\ \A q \in 1..Len(E) : E[q][1] = Q[q][1] /\ E[q][2] = Q[q][2] /\ E[q][3] = Q[q][3]
=============================================================================

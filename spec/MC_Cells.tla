------------------------------- MODULE MC_Cells -----------------------------
(***************************************************************************)
(* Design model of the linked cells (C06): particles are assigned to the   *)
(* subcells, then the lists are built one particle at a time from its own  *)
(* subcell and the neighbouring ones.  All the positions of the particles  *)
(* on a lattice, on the border and outside it too.  CellsVerdict, which    *)
(* judges the lists of the implementation, accepts those of the algorithm  *)
(* if there are at least three subcells along each side (MC_CellsBad: TLC  *)
(* finds duplicates with two).                                             *)
(***************************************************************************)
EXTENDS PPReal

CONSTANTS Box, Rc, Out, Newtons, Twos, Pers, NPos, Fine

Sides == <<6, 6>>
Sides2 == <<6, 7>>
Cube == <<6, 6, 6>>
Small == <<4, 6>>
Both == {<<TRUE, TRUE>>}
Mixed == {<<TRUE, TRUE>>, <<FALSE, TRUE>>, <<TRUE, FALSE>>, <<FALSE, FALSE>>}
Both3 == {<<TRUE, TRUE, TRUE>>}

ND == Len(Box)
\* Positions in units of half the lattice spacing, so that the sides are even
L == [d \in 1..ND |-> 2 * Box[d]]
NC == [d \in 1..ND |-> Box[d] \div Rc]
Coord(d) == (-Box[d] - Out)..(Box[d] + Out)
Points == IF ND = 2 THEN Coord(1) \X Coord(2) ELSE Coord(1) \X Coord(2) \X Coord(3)
Some == {x \in Points : \A d \in 1..ND : x[d] % 2 = 0}

VARIABLES pos, oth, per, newton, two, i, lists
vars == <<pos, oth, per, newton, two, i, lists>>

\* Particles outside the cell along open directions belong to the closest subcell
Clamp(x, n) == IF x < 0 THEN 0 ELSE IF x >= n THEN n - 1 ELSE x
CellIdx(x) == [d \in 1..ND |-> LET c == ((x[d] + Box[d]) * NC[d]) \div L[d]
                               IN IF per[d] THEN c % NC[d] ELSE Clamp(c, NC[d])]
Shift == IF ND = 2 THEN (-1..1) \X (-1..1) ELSE (-1..1) \X (-1..1) \X (-1..1)
\* Half of the neighbouring cells (Newton): the last non-zero shift... in 2d (dx, dy)
\* with dy = 1, or dy = 0 and dx = 1; in 3d those of 2d with any dz, or dz = 1 alone
Half(s) == IF ND = 2 THEN s[2] = 1 \/ (s[2] = 0 /\ s[1] = 1)
           ELSE s[2] = 1 \/ (s[2] = 0 /\ s[1] = 1) \/ (s[1] = 0 /\ s[2] = 0 /\ s[3] = 1)
Neighs == {s \in Shift : \E d \in 1..ND : s[d] # 0}
Third == ~two /\ newton
NeighSeq(c) ==  \* sequence of subcells, with repetitions if any
    LET S == SetToSeq({s \in Neighs : ~Third \/ Half(s)})
        fold(s) == [d \in 1..ND |-> IF per[d] THEN (c[d] + s[d]) % NC[d] ELSE c[d] + s[d]]
    IN SelectSeq([k \in 1..Len(S) |-> fold(S[k])], LAMBDA x : \A d \in 1..ND : x[d] \in 0..(NC[d] - 1))
In(c, P) == SelectSeq(Idx(Len(P)), LAMBDA k : CellIdx(P[k]) = c)

Init == /\ pos = <<>> /\ oth = <<>> /\ per \in Pers /\ newton \in Newtons /\ two \in Twos /\ i = 0 /\ lists = <<>>
Place == /\ i = 0 /\ Len(pos) + Len(oth) < NPos
         /\ \E x \in IF pos = <<>> \/ ~Fine THEN Some ELSE Points :
               IF two /\ pos # <<>> THEN oth' = Append(oth, x) /\ UNCHANGED pos ELSE pos' = Append(pos, x) /\ UNCHANGED oth
         /\ UNCHANGED <<per, newton, two, i, lists>>
Visit == /\ Len(pos) + Len(oth) = NPos /\ i < Len(pos) /\ i' = i + 1
         /\ LET c == CellIdx(pos[i + 1])
                B == IF two THEN oth ELSE pos
                own == SelectSeq(In(c, B), LAMBDA k : two \/ (IF Third THEN k > i + 1 ELSE k # i + 1))
                all == own \o FlattenSeq([k \in 1..Len(NeighSeq(c)) |-> In(NeighSeq(c)[k], B)])
            IN lists' = Append(lists, [k \in 1..Len(all) |-> all[k] - 1])
         /\ UNCHANGED <<pos, oth, per, newton, two>>
Spec == Init /\ [][Place \/ Visit]_vars

Ev == [two |-> two, pos |-> pos, oth |-> oth, box |-> L, per |-> per, newton |-> newton, rc |-> <<2 * Rc, 1>>,
       res |-> [ok |-> TRUE, lists |-> lists]]
Complete == (Len(pos) > 0 /\ i = Len(pos) /\ Len(pos) + Len(oth) = NPos) => CellsVerdict(Ev) = {}
=============================================================================

------------------------------- MODULE MC_Kvec ------------------------------
(***************************************************************************)
(* Design model of the shells of wave-vectors (C07): all the cells whose   *)
(* sides divide T, all the requests of one or two norms.                   *)
(***************************************************************************)
EXTENDS PPFourier

CONSTANTS T, Ls, ND, Norms, Dks

HalfTwo == {<<1, 2>>, <<2, 1>>}
VARIABLES L, g, dk, stage
vars == <<L, g, dk, stage>>

Cells == IF ND = 2 THEN Ls \X Ls ELSE Ls \X Ls \X Ls
Init == stage = 0 /\ L \in Cells /\ g = <<>> /\ dk = <<1, 2>>
Next == /\ stage = 0 /\ stage' = 1 /\ UNCHANGED L
        /\ \E a \in Norms \cup {-1}, b \in Norms, d \in Dks :
              \* not too far from the norms of the vectors
              /\ \A x \in {a, b} : x \in {-1, 0} \/ (x >= KMin(L, T) /\ (x % KMin(L, T) <= 1 \/ x % KMin(L, T) = KMin(L, T) - 1))
              /\ g' = (IF a = b THEN <<<<a, 1>>>> ELSE <<<<b, 1>>, <<a, 1>>>>)
              /\ dk' = d
Spec == Init /\ [][Next]_vars
Done == stage = 1

C == [kreq |-> "given", g |-> g, lin |-> <<0, 0, 1>>, vec |-> <<>>, dk |-> dk, nk |-> 4]
Gs == KRequest(C, L, T)
S == Shells(C, L, T)
n == Len(Gs)
Neg(v) == [d \in DOMAIN v |-> -v[d]]
Q(v) == QSq(v, L, T)
Wide == [i \in 1..n |-> <<dk[1] * 6, dk[2] * 5>>]
First == [i \in 1..n |-> dk]
\* Any vector up to the last shell
Cand == AllVectors(L, T, RatAdd(Gs[n], dk))
OrigOf(v) == ShellOf(Q(v), Gs, First)
\* Is any shell empty with the requested width?
Enlarged == \E i \in 1..n : \A v \in Cand : OrigOf(v) # i

Sorted0 == Done => \A i \in 1..(n - 1) : RatLe(Gs[i], Gs[i + 1])
Positive == Done => \A i \in 1..n : Gs[i][1] >= 0 /\ (Gs[i][1] = 0 => \E j \in 1..n : g[j][1] = 0)
NonEmpty == Done => Len(S) = n /\ \A i \in 1..n : S[i] # {}
Disjoint == Done => \A i, j \in 1..n : i # j => S[i] \cap S[j] = {}
Even == Done => \A i \in 1..n : \A v \in S[i] : Neg(v) \in S[i]
Isotropic == Done => \A i \in 1..n : \A v \in S[i] : L[1] = L[2] =>
    (IF ND = 2 THEN <<v[2], v[1]>> ELSE <<v[2], v[1], v[3]>>) \in S[i]
\* The vectors of the requested shells, all of them
Inside == Done /\ ~Enlarged => \A i \in 1..n : \A v \in S[i] : InShell(Q(v), Gs[i], dk)
All == Done /\ ~Enlarged => \A v \in Cand : \A i \in 1..n : (InShell(Q(v), Gs[i], dk) /\ \A j \in 1..(i - 1) : ~InShell(Q(v), Gs[j], dk))
                                               => v \in S[i]
\* Enlarged only as much as needed: the vectors of the shells which were not empty stay, if
\* they are not those of another one now
Keep == Done => \A v \in Cand : OrigOf(v) # 0 => \E i \in 1..OrigOf(v) : v \in S[i]
\* The smallest vector exists whatever the cell
Smallest == Done /\ g[1][1] = -1 => \E d \in 1..ND : \E v \in S[1] : Q(v) = KMin(L, T) * KMin(L, T)
=============================================================================

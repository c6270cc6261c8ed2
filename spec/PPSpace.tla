------------------------------ MODULE PPSpace -------------------------------
(***************************************************************************)
(* Particles, periodic boundaries, unfolding, centre of mass and filters.  *)
(*                                                                         *)
(* A frame is a record of sequences over particles: p (positions, vectors  *)
(* of integers in units of the lattice spacing h), v (velocities), s       *)
(* (species), m (masses), r (radii), w (a generic field), u (unfolded      *)
(* positions, if available) and L, the sides of the cell.                  *)
(***************************************************************************)
EXTENDS PPTime

Frame(tr, f) == tr.fr[f + 1]
NPart(fr) == Len(fr.p)

\* Minimum image of a component (ties, at half a side, are never used
\* where the sign matters)
MI(d, L) == LET m == d % L IN IF 2 * m > L THEN m - L ELSE m
VecSub(a, b) == [i \in DOMAIN a |-> a[i] - b[i]]
MIVec(a, b, L) == [i \in DOMAIN a |-> MI(a[i] - b[i], L[i])]
Sq(v) == SumSeq([i \in DOMAIN v |-> v[i] * v[i]])
Dot(a, b) == SumSeq([i \in DOMAIN a |-> a[i] * b[i]])

(***************************************************************************)
(* Unfolded trajectory: first frame as it is, then minimum-image           *)
(* displacements between subsequent frames are added up.                   *)
(***************************************************************************)
UnfoldNext(prev, old, new, L) ==
    [i \in DOMAIN new |->
        [d \in DOMAIN new[i] |-> prev[i][d] + MI(new[i][d] - old[i][d], L[d])]]

Unfold(tr) ==
    FoldLeft(LAMBDA acc, f :
        Append(acc, TLCEval(UnfoldNext(acc[f - 1], tr.fr[f - 1].p, tr.fr[f].p, tr.fr[f].L))),
        <<tr.fr[1].p>>, [k \in 1..(Len(tr.fr) - 1) |-> k + 1])

UnfoldedPos(tr) == IF tr.pu THEN [f \in 1..Len(tr.fr) |-> tr.fr[f].u] ELSE TLCEval(Unfold(tr))

\* Positions relative to the centre of mass, multiplied by the total mass
TotalMass(fr) == SumSeq(fr.m)
MassMoment(fr, pos, d) == SumTo(Len(pos), LAMBDA i : fr.m[i] * pos[i][d])
RelCM(fr, pos) ==
    LET M == TotalMass(fr)
        cm == TLCEval([d \in DOMAIN pos[1] |-> MassMoment(fr, pos, d)])
    IN [i \in DOMAIN pos |-> [d \in DOMAIN pos[i] |-> M * pos[i][d] - cm[d]]]

(***************************************************************************)
(* Filters: a condition is a record [op, ...], see Sat                     *)
(***************************************************************************)
Field(fr, i, f) == CASE f = "species" -> fr.s[i]
                     [] f = "mass"    -> fr.m[i]
                     [] f = "radius"  -> fr.r[i]
                     [] f = "w"       -> fr.w[i]
RECURSIVE Sat(_, _, _)
Sat(fr, i, c) ==
    CASE c.op = "true" -> TRUE
      [] c.op = "eq"   -> Field(fr, i, c.f) = c.x
      [] c.op = "ne"   -> Field(fr, i, c.f) # c.x
      [] c.op = "lt"   -> Field(fr, i, c.f) < c.x
      [] c.op = "gt"   -> Field(fr, i, c.f) > c.x
      [] c.op = "and"  -> Sat(fr, i, c.a) /\ Sat(fr, i, c.b)
      [] c.op = "or"   -> Sat(fr, i, c.a) \/ Sat(fr, i, c.b)

\* Indices of the matching particles, in order
Group(fr, c) == SelectSeq(Idx(NPart(fr)), LAMBDA i : Sat(fr, i, c))
Pick(s, g) == [k \in 1..Len(g) |-> s[g[k]]]
TrueCond == [op |-> "true"]
=============================================================================

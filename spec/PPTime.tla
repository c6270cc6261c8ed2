------------------------------- MODULE PPTime -------------------------------
(***************************************************************************)
(* Time origins, time grids and averages over pairs of frames.             *)
(*                                                                         *)
(* A trajectory is a record with fields                                    *)
(*   nd     number of dimensions                                           *)
(*   steps  sequence of (integer) steps, increasing                        *)
(*   blk    block size: the steps are periodic over blocks of frames       *)
(*   tn, td the timestep is tn / td                                        *)
(*   fr     sequence of frames, see PPSpace                                *)
(* Frames are numbered from 0 as in the implementation.                    *)
(***************************************************************************)
EXTENDS PPRat

NFrames(tr) == Len(tr.steps)
Step(tr, f) == tr.steps[f + 1]

(***************************************************************************)
(* Time origins.  A request is a record o with o.k one of                  *)
(*   "none"  heuristics       "all"  every block                           *)
(*   "one"   first frame      "num"  o.p / o.q > 1 origins                 *)
(*   "frac"  a fraction o.p / o.q of the blocks, 0 < p/q < 1               *)
(***************************************************************************)
RawSkip(n, blk, npart, o) ==
    CASE o.k = "none" -> IF blk = 1 THEN (n * npart) \div 40000 ELSE blk
      [] o.k = "all"  -> blk
      [] o.k = "one"  -> n
      [] o.k = "num"  -> MaxI(1, ((n \div blk) * o.q) \div o.p) * blk
      [] o.k = "frac" -> (o.q \div o.p) * blk

Skip(n, blk, npart, o) == MinI(n, MaxI(1, RawSkip(n, blk, npart, o)))

\* The origins of a static average
StaticOrigins(n, skip) == {i \in 0..(n - 1) : i % skip = 0}

(***************************************************************************)
(* Time grid: available lags from the allowed offsets; to each lag we      *)
(* associate the first pair <<offset, frames>> that realises it.           *)
(***************************************************************************)
Offsets(tr, useoff) == IF useoff THEN 0..(tr.blk - 1) ELSE {0}

RawLags(tr, useoff) ==
    LET n == NFrames(tr)
    IN {<<Step(tr, i) - Step(tr, off), off, i - off>> :
            <<off, i>> \in {z \in Offsets(tr, useoff) \X (0..(n - 1)) : z[1] <= z[2] /\ z[1] < n}}

\* <<lag, off, i>>, one per lag: smallest offset first, then smallest i
LagTable(tr, useoff) ==
    LET raw == TLCEval(RawLags(tr, useoff))
    IN {z \in raw : \A y \in raw : y[1] = z[1] =>
            (z[2] < y[2] \/ (z[2] = y[2] /\ z[3] <= y[3]))}

\* round(p / q) to the nearest integer, ties to even as in Python
RoundHalfEven(p, q) ==
    LET a == p \div q
        r == p % q
    IN IF 2 * r < q THEN a
       ELSE IF 2 * r > q THEN a + 1
       ELSE IF a % 2 = 0 THEN a ELSE a + 1

\* The available lag closest to t (the smallest one if there are two)
Nearest(lags, t) ==
    CHOOSE x \in lags : \A y \in lags :
        Abs(x - t) < Abs(y - t) \/ (Abs(x - t) = Abs(y - t) /\ x <= y)

\* tg: requested times in units of the timestep, a sequence of <<p, q>>
MatchedLags(lags, tg) == {Nearest(lags, RoundHalfEven(tg[i][1], tg[i][2])) : i \in 1..Len(tg)}

\* Discrete grid: set of <<off, i>>
DiscreteGrid(tr, tg, useoff) ==
    LET tab == TLCEval(LagTable(tr, useoff))
        keep == TLCEval(MatchedLags({z[1] : z \in tab}, tg))
    IN {<<z[2], z[3]>> : z \in {y \in tab : y[1] \in keep}}

(***************************************************************************)
(* Pairs of frames <<i0, i0 + i>> that enter the averages and their lags   *)
(***************************************************************************)
PairsOf(disc, n, skip) ==
    UNION {{<<i0, i0 + z[2]>> : i0 \in {j \in z[1]..(n - z[2] - 1) : (j - z[1]) % skip = 0}} :
            z \in disc}

Lag(tr, pair) == Step(tr, pair[2]) - Step(tr, pair[1])

PairsAt(tr, pairs, dt) == {z \in pairs : Lag(tr, z) = dt}
LagsOf(tr, pairs) == {Lag(tr, z) : z \in pairs}
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)

UseOffsets(o, nooff) == o.k # "one" /\ ~nooff
=============================================================================

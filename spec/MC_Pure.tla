------------------------------ MODULE MC_Pure -------------------------------
(***************************************************************************)
(* Design model of repeatability (C16): correlation objects created on a   *)
(* common trajectory, sharing the grids of the user, computed, analysed    *)
(* and computed again in any order, with readings and other calculations   *)
(* in between.  Grids and particles live on a heap; an object holds        *)
(* references.  The invariants say that results only depend on what was    *)
(* requested, and the alias that would break them is the one a calculation *)
(* writes into.                                                            *)
(*                                                                         *)
(* Fresh = TRUE is the specified behaviour: results are put in new cells.  *)
(* With Fresh = FALSE (an object recycles the cell of its grid) TLC finds  *)
(* the violation, see MC_PureBad.cfg.                                      *)
(* The simulated behaviours are replayed on the code (harness/s_pure.py).  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NObj, NGrid, NFrame, MaxHeap, K, Fresh

Objs == 1..NObj
VARIABLES heap,    \* contents of the cells: <<"req", grid>> or <<"out", object, request>>
          grid,    \* object |-> reference of its grid, 0 if it does not exist
          req,     \* object |-> reference of the requested grid
          val,     \* object |-> what its value was calculated from, <<>> if nothing
          part,    \* particles of the trajectory: moved or not
          log
vars == <<heap, grid, req, val, part, log>>

\* The user owns the first NGrid cells
Init == /\ heap = [g \in 1..NGrid |-> <<"req", g>>]
        /\ grid = [o \in Objs |-> 0] /\ req = [o \in Objs |-> 0]
        /\ val = [o \in Objs |-> <<>>]
        /\ part = [f \in 1..NFrame |-> "as stored"]
        /\ log = <<>>

Log(e) == log' = IF K = 0 THEN log ELSE Append(log, e)
Going == K = 0 \/ Len(log) < K

\* Two objects may share a grid
New(o, g) == /\ Going /\ grid[o] = 0
             /\ grid' = [grid EXCEPT ![o] = g] /\ req' = [req EXCEPT ![o] = g]
             /\ Log(<<"new", o, g>>)
             /\ UNCHANGED <<heap, val, part>>

Compute(o) ==
    /\ Going /\ grid[o] # 0
    /\ LET r == heap[req[o]]
           n == Len(heap) + 1
       IN /\ val' = [val EXCEPT ![o] = r]
          /\ IF Fresh
             THEN IF K # 0 \/ (n <= MaxHeap /\ grid[o] <= NGrid)
                  THEN heap' = Append(heap, <<"out", o, r>>) /\ grid' = [grid EXCEPT ![o] = n]
                  ELSE \* the cell of an earlier result, which only this object holds
                       IF grid[o] > NGrid THEN heap' = [heap EXCEPT ![grid[o]] = <<"out", o, r>>] /\ UNCHANGED grid
                       ELSE FALSE
             ELSE heap' = [heap EXCEPT ![grid[o]] = <<"out", o, r>>] /\ UNCHANGED grid
    /\ Log(<<"compute", o>>)
    /\ UNCHANGED <<req, part>>

Analyze(o) == /\ Going /\ val[o] # <<>> /\ Log(<<"analyze", o>>) /\ UNCHANGED <<heap, grid, req, val, part>>
ReadFrame(f) == /\ Going /\ Log(<<"read", f>>) /\ UNCHANGED <<heap, grid, req, val, part>>
Check == /\ Going /\ K # 0 /\ Log(<<"check">>) /\ UNCHANGED <<heap, grid, req, val, part>>
Disturb(k) == /\ Going /\ K # 0 /\ Log(<<"disturb", k>>) /\ UNCHANGED <<heap, grid, req, val, part>>
Forget(o) == /\ Going /\ grid[o] # 0 /\ grid' = [grid EXCEPT ![o] = 0] /\ req' = [req EXCEPT ![o] = 0]
             /\ val' = [val EXCEPT ![o] = <<>>]
             /\ Log(<<"forget", o>>) /\ UNCHANGED <<heap, part>>

Next == \/ \E o \in Objs : \/ \E g \in 1..NGrid : New(o, g)
                           \/ Compute(o) \/ Analyze(o)
                           \/ (K # 0 /\ Forget(o))
        \/ \E f \in 1..NFrame : ReadFrame(f)
        \/ Check
        \/ \E k \in 1..4 : Disturb(k)

Spec == Init /\ [][Next]_vars

\* The user's grids are never modified
Mine == \A g \in 1..NGrid : heap[g] = <<"req", g>>
\* The result only depends on the request
Pure == \A o \in Objs : val[o] # <<>> => val[o] = <<"req", val[o][2]>> /\ val[o][2] = req[o]
Still == \A f \in 1..NFrame : part[f] = "as stored"

Report == K = 0 \/ Len(log) < K \/ PrintT(<<"LOG", log>>)
=============================================================================

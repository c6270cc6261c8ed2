------------------------------- MODULE MC_Life ------------------------------
(***************************************************************************)
(* Design model of update mode (C15): a trajectory file, correlation       *)
(* objects that write one or more output files each, and every             *)
(* interleaving of modifications, manual changes of modification times,    *)
(* removals, computations and readings.  Time does not need to advance     *)
(* between operations (coarse clocks).                                     *)
(*                                                                         *)
(* The same model, simulated by TLC, generates the schedules which are     *)
(* replayed on the implementation (harness/s_life.py).                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NFiles,     \* number of files of each object, a sequence
          MaxNow,     \* clock
          MaxVer,     \* versions of the trajectory
          K,          \* length of the histories which are reported (0: none)
          Backdate    \* may modification times be changed by hand?

\* Two plain correlations and partials of two species
NF == <<1, 1, 2>>

VARIABLES now, tm, ver, file, held, hand, last, log
vars == <<now, tm, ver, file, held, hand, last, log>>

Objs == 1..Len(NFiles)
Members == {<<o, k>> \in Objs \X (1..3) : k <= NFiles[o]}
None == [t |-> -1, ver |-> 0]

Init == /\ now = 1 /\ tm = 1 /\ ver = 1
        /\ file = [m \in Members |-> None]
        /\ held = [o \in Objs |-> 0]
        /\ hand = FALSE
        /\ last = [op |-> "init", o |-> 0, wrote |-> FALSE]
        /\ log = <<>>

Log(e) == log' = IF K = 0 THEN log ELSE Append(log, e)
Going == K = 0 \/ Len(log) < K

Tick == /\ Going /\ now < MaxNow /\ now' = now + 1
        /\ last' = [last EXCEPT !.op = "tick"]
        /\ UNCHANGED <<tm, ver, file, held, hand, log>>

\* The trajectory file is written again, by a simulation for instance
Modify == /\ Going /\ ver < MaxVer /\ ver' = ver + 1 /\ tm' = now
          /\ last' = [op |-> "modify", o |-> 0, wrote |-> FALSE]
          /\ Log(<<"modify", now>>)
          /\ UNCHANGED <<now, file, held, hand>>

\* Its modification time changes, not its content
TouchTraj(t) == /\ Going /\ tm' = t /\ hand' = (hand \/ t < now)
                /\ last' = [op |-> "touch", o |-> 0, wrote |-> FALSE]
                /\ Log(<<"touchtraj", t>>)
                /\ UNCHANGED <<now, ver, file, held>>

TouchFile(m, t) == /\ Going /\ file[m] # None
                   /\ file' = [file EXCEPT ![m].t = t] /\ hand' = TRUE
                   /\ last' = [op |-> "touch", o |-> 0, wrote |-> FALSE]
                   /\ Log(<<"touchfile", m[1], m[2], t>>)
                   /\ UNCHANGED <<now, tm, ver, held>>

Remove(m) == /\ Going /\ file[m] # None
             /\ file' = [file EXCEPT ![m] = None]
             /\ last' = [op |-> "remove", o |-> 0, wrote |-> FALSE]
             /\ Log(<<"remove", m[1], m[2]>>)
             /\ UNCHANGED <<now, tm, ver, held, hand>>

Stale(m) == file[m] = None \/ ~(tm < file[m].t)
Need(o) == \E m \in Members : m[1] = o /\ Stale(m)

Do(o, upd) ==
    /\ Going
    /\ IF ~upd \/ Need(o)
       THEN /\ held' = [held EXCEPT ![o] = ver]
            /\ file' = [m \in Members |-> IF m[1] = o THEN [t |-> now, ver |-> ver] ELSE file[m]]
            /\ last' = [op |-> IF upd THEN "update" ELSE "do", o |-> o, wrote |-> TRUE]
       ELSE /\ held' = [held EXCEPT ![o] = file[<<o, 1>>].ver]
            /\ file' = file
            /\ last' = [op |-> IF upd THEN "update" ELSE "do", o |-> o, wrote |-> FALSE]
    /\ Log(<<"do", o, upd, now>>)
    /\ UNCHANGED <<now, tm, ver, hand>>

\* Times set by hand; histories to be replayed stay close to the present
Times == IF K = 0 THEN 1..MaxNow ELSE {t \in (now - 1)..(now + 1) : t >= 1}

Next == \/ Tick \/ Modify
        \/ (Backdate /\ \E t \in Times : TouchTraj(t))
        \/ \E m \in Members : Remove(m) \/ (Backdate /\ \E t \in Times : TouchFile(m, t))
        \/ \E o \in Objs, u \in BOOLEAN : Do(o, u)

Spec == Init /\ [][Next]_vars

\* Update mode never returns outdated results, unless the times were changed by hand
Fresh == (last.op \in {"do", "update"} /\ ~hand) => held[last.o] = ver
\* Without update mode, never at all
FreshDo == last.op = "do" => held[last.o] = ver /\ last.wrote
\* All the files of an object are of the version it holds, once it has been updated
Whole == (last.op \in {"do", "update"} /\ ~hand) =>
            \A m \in Members : m[1] = last.o => file[m] # None /\ file[m].ver = ver

\* Nothing is recomputed if it was just computed and the clock has advanced
NoNeedless == [][ \A o \in Objs :
                    (last'.op = "update" /\ last'.o = o /\ last'.wrote) => Need(o) ]_vars
\* Files are only written by the object they belong to
Private == [][ \A m \in Members : (file'[m] # file[m] /\ last'.op \in {"do", "update"}) => m[1] = last'.o ]_vars

Report == K = 0 \/ Len(log) < K \/ PrintT(<<"LOG", log>>)
\* Histories start with something to update
=============================================================================

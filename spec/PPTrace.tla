------------------------------ MODULE PPTrace -------------------------------
(***************************************************************************)
(* Trace validation.  The trace is a sequence of recorded calls; each line *)
(* is consumed by the transition of the specification it corresponds to.   *)
(* Verdicts are total: a line which the specification does not allow is    *)
(* reported with the names of the violated clauses, and the rest of the    *)
(* trace is still checked.                                                 *)
(***************************************************************************)
EXTENDS PPApi, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.PP_TRACE)

VARIABLES l,    \* next line
          tr,   \* current trajectory
          obj,  \* correlation objects of the current session, by name
          fs,   \* files and their modification times, see PPLife
          hist  \* wave-vectors used so far in this session, by request

vars == <<l, tr, obj, fs, hist>>

NoFiles == [tm |-> 0, f |-> <<>>]
Init == l = 1 /\ tr = <<>> /\ obj = <<>> /\ fs = NoFiles /\ hist = {}

Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].ev = e /\ l' = l + 1
Pure == UNCHANGED <<tr, obj, fs, hist>>

Report(bad) == IF bad = {} THEN PrintT(<<"OK", Ev.n>>) ELSE PrintT(<<"BAD", Ev.n, bad>>)

\* A new session: everything is forgotten
Begin == IsEvent("begin") /\ tr' = <<>> /\ obj' = <<>> /\ fs' = NoFiles /\ hist' = {}

\* A trajectory is loaded
Load == IsEvent("traj") /\ tr' = Ev.tr /\ hist' = {} /\ UNCHANGED <<obj, fs>>

\* A correlation object is created, filtered
New == IsEvent("new") /\ obj' = (Ev.o :> Ev.c) @@ obj /\ UNCHANGED <<tr, fs, hist>>
AddFilter == /\ IsEvent("filter") /\ UNCHANGED <<tr, fs, hist>>
             /\ obj' = [obj EXCEPT ![Ev.o].flt = Append(@, Ev.cond)]

\* Results of calculations which are repeated, by the same object or by another one with
\* the same request: the same wave-vectors are used again
Again ==
    /\ IsEvent("again") /\ UNCHANGED <<tr, obj, fs>>
    /\ LET key == Request(obj[Ev.o]) IN
       /\ hist' = IF Ev.res.ok THEN hist \cup {<<key, Ev.res.kv>>} ELSE hist
       /\ Report(CorrVerdict(tr, obj[Ev.o], Ev.res)
                 \cup IF Ev.res.ok /\ \E x \in hist : x[1] = key /\ x[2] # Ev.res.kv
                      THEN {"vectors-not-repeated"} ELSE {})

\* Results
Result ==
    /\ IsEvent("compute") /\ Pure
    /\ Report(CorrVerdict(tr, obj[Ev.o], Ev.res))

(***************************************************************************)
(* Output files                                                            *)
(***************************************************************************)
Modify == /\ IsEvent("lmodify") /\ tr' = Ev.tr /\ fs' = [fs EXCEPT !.tm = Ev.t] /\ UNCHANGED <<obj, hist>>
TouchTraj == IsEvent("ltouchtraj") /\ fs' = [fs EXCEPT !.tm = Ev.t] /\ UNCHANGED <<tr, obj, hist>>
TouchFile == IsEvent("ltouch") /\ fs' = [fs EXCEPT !.f[Ev.path].t = Ev.t] /\ UNCHANGED <<tr, obj, hist>>
Unlink == /\ IsEvent("lremove") /\ UNCHANGED <<tr, obj, hist>>
          /\ fs' = [fs EXCEPT !.f = [p \in DOMAIN fs.f \ {Ev.path} |-> fs.f[p]]]
Do == /\ IsEvent("ldo") /\ UNCHANGED <<tr, obj, hist>>
      /\ fs' = AfterWrite(fs, Ev, Ev.t)
      /\ Report(DoVerdict(fs, tr, obj[Ev.o], Ev))
Compute == /\ IsEvent("lcompute") /\ UNCHANGED <<tr, obj, hist>>
           /\ fs' = AfterWrite(fs, Ev, Ev.t)
           /\ Report(ComputeVerdict(fs, tr, obj[Ev.o], Ev))
Write == /\ IsEvent("lwrite") /\ UNCHANGED <<tr, obj, hist>>
         /\ fs' = AfterWrite(fs, Ev, Ev.t)
         /\ Report(WriteVerdict(fs, tr, obj[Ev.o], Ev))
Read == /\ IsEvent("lread") /\ UNCHANGED <<tr, obj, hist>>
        /\ fs' = AfterWrite(fs, Ev, Ev.t)
        /\ Report(ReadVerdict(fs, obj[Ev.o], Ev))
NeedUpd == IsEvent("lneed") /\ Pure /\ Report(NeedVerdict(fs, obj[Ev.o], Ev))
Life == Modify \/ TouchTraj \/ TouchFile \/ Unlink \/ Do \/ Compute \/ Write \/ Read \/ NeedUpd

(***************************************************************************)
(* Commands on a library of trajectory files: tr is the library            *)
(***************************************************************************)
Library == IsEvent("alib") /\ tr' = <<>> /\ fs' = [tm |-> <<>>, f |-> <<>>] /\ UNCHANGED <<obj, hist>>
PutFile == /\ IsEvent("aput") /\ tr' = (Ev.f :> Ev.tr) @@ tr /\ UNCHANGED <<obj, hist>>
           /\ fs' = [fs EXCEPT !.tm = (Ev.f :> Ev.t) @@ @]
ApiRun == /\ IsEvent("api") /\ UNCHANGED <<tr, obj, hist>>
          /\ fs' = AfterWrite(fs, Ev, Ev.t)
          /\ Report(ApiVerdict(tr, fs, Ev))
Api == Library \/ PutFile \/ ApiRun
Cutoff == IsEvent("cutoff") /\ Pure /\ Report(CutoffVerdict(tr, Ev))

\* Calls which do not change the session
Cells == IsEvent("cells") /\ Pure /\ Report(CellsVerdict(Ev))
Gcf == IsEvent("gcf") /\ Pure /\ Report(GcfVerdict(Ev))
Frames == IsEvent("frames") /\ Pure /\ Report(FramesVerdict(tr, Ev.res))
SameKvec == IsEvent("samekv") /\ Pure /\ Report(SameKvecVerdict(Ev))
KReport == IsEvent("krep") /\ Pure /\ Report(ReportVerdict(Ev))
Keys == IsEvent("keys") /\ Pure /\ Report(IF Ev.ok THEN {} ELSE {Ev.what})
SumRule == IsEvent("sumrule") /\ Pure /\ Report(SumRuleVerdict(Ev))

\* Nothing has changed but the results
Help == IsEvent("help") /\ Pure /\ Report(HelpVerdict(Ev))
Derive == IsEvent("derive") /\ Pure /\ Report(DeriveVerdict(Ev))

PFrames == IsEvent("pframes") /\ Pure /\ Report(PureFramesVerdict(tr, Ev.res))
Grids == IsEvent("grids") /\ Pure /\ Report(IF Ev.was = Ev.now THEN {} ELSE {"user-grid-modified"})

\* The driver could not complete a session
Crash == IsEvent("crash") /\ Pure /\ Report({"crash-" \o Ev.what})

Next == Again \/ Begin \/ Load \/ New \/ AddFilter \/ Result \/ Gcf \/ Cells \/ Frames \/ Keys \/ SameKvec \/ KReport \/ SumRule \/ Crash \/ Life
        \/ Help \/ Derive \/ PFrames \/ Grids \/ Api \/ Cutoff

Spec == Init /\ [][Next]_vars

Complete == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
